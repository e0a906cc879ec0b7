//! One simulated run: forked processes (one per incarnation of the simulated process), each running
//! AJ's real code on the simulated runtime.
use crate::backend::{self, Durable, FaultState, FS};
use crate::jobs::*;
use crate::plan::*;
use crate::world::*;
use actix_rt::sim;
use aj::queue::{EnqueueConfig, WorkQueueConfig};
use aj::{async_trait, BackgroundJob, JobPlugin, AJ};
use detsim::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Carry {
    pub world: World,
    pub durable: Durable,
    pub traces: Vec<Vec<u32>>,
    pub stats: Stats,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub choices: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub events: u64,
    pub execs: u64,
    pub ops: u64,
    pub calls: u64,
    pub net: BTreeMap<String, u64>,
    pub net_cmds: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ending {
    Done,
    Crashed,
    Abort(String),
    Died(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Report {
    pub ending: Ending,
    pub violations: Vec<String>,
    pub carry: Option<Carry>,
    pub stats: Stats,
    pub event_hash: u64,
    pub fired: Vec<(u32, u64, Fault)>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

struct Ctl {
    plan: Plan,
    fd: i32,
    full: bool,
    traces: Vec<Vec<u32>>,
    stats: Stats,
}
static CTL: Mutex<Option<Ctl>> = Mutex::new(None);

/// Send the report of this process and end it.
fn finish(ending: Ending) -> ! {
    let ctl = CTL.lock().unwrap_or_else(|e| e.into_inner()).take().expect("one end per process");
    let (trace, hash, multi) = detsim::decisions();
    let crashed = matches!(ending, Ending::Crashed);
    let durable = if crashed { backend::snapshot() } else { Durable::default() };
    let mut world = w(std::mem::take);
    world.calls = FS.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map(|f| f.calls).unwrap_or(0);
    let mut stats = ctl.stats.clone();
    stats.steps += sim::steps();
    stats.choices += multi;
    stats.sim_ns = world.t_base + detsim::elapsed_ns();
    stats.hash = (stats.hash ^ hash).wrapping_mul(0x100000001b3);
    stats.calls += world.calls;
    stats.events = world.evs.len() as u64;
    stats.execs = world.execs as u64;
    stats.ops = world.ops as u64;
    if let Some(s) = crate::redis_sim::S.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
        for (k, v) in &s.fired {
            *stats.net.entry(k.to_string()).or_insert(0) += v;
        }
        stats.net_cmds += s.cmds;
    }
    let mut traces = ctl.traces.clone();
    traces.push(trace);
    world.wall_ns = detsim::wall_ns();
    let mut violations = vec![];
    let mut nontrivial = false;
    if !crashed {
        let ab = if let Ending::Abort(m) = &ending { Some(m.clone()) } else { None };
        // the oracles use chrono and cron only on recorded values
        let v = crate::oracle::check(&ctl.plan, &world, ab.as_deref());
        violations = v.0;
        nontrivial = v.1;
    }
    let event_hash = hash_events(&world.evs);
    world.count_events();
    let fired = world.fired.clone();
    let probes = world.probes.clone();
    let keep = crashed || ctl.full || !violations.is_empty();
    let report = Report {
        ending,
        violations,
        carry: keep.then(|| Carry { world, durable, traces, stats: stats.clone() }),
        stats,
        event_hash,
        fired,
        probes,
        nontrivial,
    };
    let bytes = serde_json::to_vec(&report).expect("report");
    unsafe {
        let mut off = 0;
        while off < bytes.len() {
            let n = libc::write(ctl.fd, bytes[off..].as_ptr() as *const _, bytes.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::_exit(0)
    }
}

pub fn crash_now(call: u64) -> ! {
    log(K::Crash { call });
    finish(Ending::Crashed)
}
pub fn abort_run(msg: &str) -> ! {
    finish(Ending::Abort(msg.to_string()))
}

fn step_hook(steps: u64) {
    let (crash_step, max) = {
        let g = FS.lock().unwrap_or_else(|e| e.into_inner());
        let cs = match g.as_ref().and_then(|f| f.crash.clone()) {
            Some(CrashAt::Step(n)) => n,
            _ => u64::MAX,
        };
        (cs, MAX_STEPS.load(SeqCst) as u64)
    };
    if steps == crash_step {
        crash_now(0);
    }
    if steps > max {
        abort_run("livelock: step limit reached");
    }
}
static MAX_STEPS: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Fork; where the system is short of something just now, wait for it.
///
/// # Safety
/// as for fork(2)
pub unsafe fn fork() -> i32 {
    for _ in 0..600 {
        let pid = libc::fork();
        if pid >= 0 {
            return pid;
        }
        libc::usleep(100_000);
    }
    panic!("fork");
}

/// Fork, run `f` with a pipe, return what it wrote.
pub fn in_child(f: impl FnOnce(i32)) -> (Vec<u8>, i32) {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = fork();
        if pid == 0 {
            libc::close(p[0]);
            f(p[1]);
            libc::_exit(97);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n == 0 {
                break;
            }
            if n < 0 {
                if *libc::__errno_location() == libc::EINTR {
                    continue;
                }
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (out, st)
    }
}

/// Run a plan to its end, in as many forked processes as it has incarnations.
pub fn execute(plan: &Plan, full: bool) -> Report {
    let mut carry = Carry::default();
    loop {
        let p = plan.clone();
        let c = carry.clone();
        let (out, st) = in_child(move |fd| {
            unsafe {
                libc::alarm(if std::env::var("SIM_NO_ALARM").is_ok() { 0 } else { 60 });
            }
            if std::env::var("SIM_DEBUG").is_err() {
                std::panic::set_hook(Box::new(|_| {}));
            }
            detsim::seed_os_rng(p.seed.wrapping_add(c.world.inc as u64));
            // a fresh thread, so that its hash-map keys come from the seeded generator
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || incarnation(p, c, fd, full)).unwrap();
            let r = h.join();
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                abort_run(&format!("the main task panicked: {m}"));
            }
        });
        let r: Result<Report, _> = serde_json::from_slice(&out);
        match r {
            Ok(r) if matches!(r.ending, Ending::Crashed) => {
                carry = r.carry.unwrap();
                carry.world.inc += 1;
                if carry.world.inc as usize > plan.crashes.len() + 2 {
                    panic!("too many incarnations");
                }
            }
            Ok(r) => return r,
            Err(_) => {
                let why = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit {}", libc::WEXITSTATUS(st)) };
                return Report {
                    ending: Ending::Died(why.clone()),
                    violations: vec![format!("the process died or stopped responding: {why}")],
                    carry: None,
                    stats: Stats::default(),
                    event_hash: 0,
                    fired: vec![],
                    probes: BTreeMap::new(),
                    nontrivial: false,
                };
            }
        }
    }
}

fn incarnation(plan: Plan, carry: Carry, fd: i32, full: bool) {
    let inc = carry.world.inc;
    let down_ns: i64 = if inc > 0 { 1_000_000_000 + (Rng::derive(plan.seed, 900 + inc as u64).below(4000) as i64) * 1_000_000 } else { 0 };
    let base_us = if inc == 0 { plan.wall_base_us } else { (carry.world.wall_ns + down_ns) / 1000 };
    match &plan.sched {
        Sched::Trace(t) => detsim::install_replay(t.get(inc as usize).cloned().unwrap_or_default()),
        s => {
            let p = match s {
                Sched::MostlyFifo(p) => detsim::Policy::MostlyFifo(*p),
                Sched::Priority(p) => detsim::Policy::Priority(*p),
                _ => detsim::Policy::Uniform,
            };
            detsim::install_seed(plan.seed.wrapping_add(1 + inc as u64 * 7919), p);
        }
    }
    let fseed = match &plan.faults {
        Faults::Random { seed, .. } => *seed,
        _ => 0,
    };
    *FS.lock().unwrap() = Some(FaultState {
        plan: plan.faults.clone(),
        rng: Rng::derive(fseed, 5 + inc as u64),
        burst_left: 0,
        injected: 0,
        crash: plan.crashes.get(inc as usize).cloned(),
        status_seen: BTreeMap::new(),
        calls: 0,
        step_calls: 0,
        last_step: 0,
    });
    MAX_STEPS.store(plan.max_steps as usize, SeqCst);
    ID_STYLE.store(plan.ids as usize, SeqCst);
    sim::set_step_hook(step_hook);
    let durable = carry.durable.clone();
    let t_base = if inc == 0 { 0 } else { carry.stats.sim_ns + down_ns as u64 };
    *CTL.lock().unwrap() = Some(Ctl { plan: plan.clone(), fd, full, traces: carry.traces, stats: carry.stats });
    w(|w| {
        *w = carry.world;
        w.t_base = t_base;
        w.plugins = 0;
        w.running.clear();
        for c in plan.clients.iter().chain(plan.after.iter().flatten()) {
            for op in &c.ops {
                if let Op::Run { data, .. } | Op::Update { data, .. } = op {
                    w.versions.insert(data.tag, data.clone());
                }
            }
        }
    });
    detsim::activate(base_us);
    if inc > 0 {
        log(K::Restart);
    }
    if !plan.be.is_empty() {
        crate::be::drive(&plan);
        finish(Ending::Done)
    }
    let actix = plan.actix;
    let main = drive(plan, durable, inc);
    if actix {
        actix_rt::System::new().block_on(main);
    } else {
        sim::block_on_bare(main);
    }
    finish(Ending::Done)
}

static CLIENTS_LEFT: AtomicUsize = AtomicUsize::new(0);

async fn sleep_ms(ms: u64) {
    actix_rt::time::sleep(Duration::from_millis(ms)).await
}

async fn drive(plan: Plan, durable: Durable, inc: u32) {
    let proxy = backend::open(plan.store, &durable);
    AJ::start(proxy);
    for p in &plan.plugins {
        reg_plugin(p).await;
    }
    let sys = actix_rt::System::try_current();
    let clients = if inc == 0 { plan.clients.clone() } else { plan.after.get(inc as usize - 1).cloned().unwrap_or_default() };
    let budget: u64 = clients
        .iter()
        .map(|c| {
            c.ops
                .iter()
                .map(|o| match o {
                    Op::Sleep { ms } => *ms,
                    Op::WaitStart { ms, .. } | Op::WaitEnd { ms, .. } => *ms,
                    _ => 0,
                })
                .sum::<u64>()
        })
        .max()
        .unwrap_or(0);
    let stall_sum: u64 = plan.chaos.iter().map(|c| if let Chaos::Stall { ms, .. } = c { *ms } else { 0 }).sum();
    let main_node = sim::current_node().unwrap_or(0);
    let chaos = plan.chaos.clone();
    if inc == 0 {
        sim::spawn_thread_local("chaos", None, async move {
            let me = sim::current_node().unwrap_or(0);
            let mut v = chaos;
            v.sort_by_key(|c| match c {
                Chaos::Stall { at_ms, .. } | Chaos::Jump { at_ms, .. } => *at_ms,
            });
            let mut t = 0;
            for c in v {
                let at = match &c {
                    Chaos::Stall { at_ms, .. } | Chaos::Jump { at_ms, .. } => *at_ms,
                };
                if at > t {
                    sleep_ms(at - t).await;
                    t = at;
                }
                match c {
                    Chaos::Stall { node, ms, .. } => {
                        let all: Vec<usize> = (0..sim::nodes()).filter(|n| *n != me && *n != main_node).collect();
                        if !all.is_empty() {
                            let n = all[node as usize % all.len()];
                            log(K::Stall { node: n, ms });
                            sim::stall(n, ms * 1_000_000);
                        }
                    }
                    Chaos::Jump { ms, .. } => {
                        log(K::Jump { ms, before: detsim::wall_ns() });
                        detsim::jump_wall(ms * 1_000_000);
                    }
                }
            }
        });
    }
    CLIENTS_LEFT.store(clients.len(), SeqCst);
    let off = if inc == 0 { 0 } else { 100 * inc as usize };
    for (i, c) in clients.into_iter().enumerate() {
        let base = plan.wall_base_us;
        let fut = async move {
            for op in c.ops {
                let mut tries = if let Op::Run { tries, .. } = &op { *tries } else { 0 };
                while !do_op(i + off, op.clone(), base).await && tries > 0 {
                    tries -= 1;
                    sleep_ms(40).await;
                }
            }
            log(K::ClientDone { c: i + off });
            CLIENTS_LEFT.fetch_sub(1, SeqCst);
        };
        if c.thread {
            sim::spawn_thread_local(&format!("client{i}"), sys.clone(), fut);
        } else {
            let _ = actix_rt::spawn(fut);
        }
    }
    let mut left = budget + stall_sum * 2 + 120_000;
    while CLIENTS_LEFT.load(SeqCst) > 0 && left > 0 {
        let d = 20.min(left);
        sleep_ms(d).await;
        left -= d;
    }
    log(K::ClientsDone);
    sleep_ms(plan.settle_ms).await;
    let ids = w(|w| w.ids.clone());
    for (_, (id, ty)) in ids {
        let r = tokio::time::timeout(Duration::from_secs(30), get(ty, &id)).await;
        match r {
            Ok(v) => log(K::Final { id, v }),
            Err(_) => {
                log(K::Note(format!("final query of {id} did not return")));
                break;
            }
        }
    }
}

macro_rules! by_ty {
    ($ty:expr, $T:ident, $e:expr) => {
        match $ty {
            0 => { type $T = TA; $e }
            1 => { type $T = TAB; $e }
            2 => { type $T = TB; $e }
            _ => { type $T = TC; $e }
        }
    };
}

async fn get(ty: u8, id: &str) -> Option<View> {
    by_ty!(ty, T, AJ::get_job::<T>(id).await.map(|j| view(&j.context, Some(&j.data.d))))
}

static ID_STYLE: AtomicUsize = AtomicUsize::new(0);
fn own_id(slot: u32) -> String {
    custom_id(ID_STYLE.load(SeqCst) as u8, slot)
}
fn id_of(slot: u32) -> String {
    w(|w| w.ids.get(&slot).map(|x| x.0.clone())).unwrap_or_else(|| own_id(slot))
}
fn unit(r: Result<(), aj::Error>) -> Res {
    match r {
        Ok(()) => Res::Unit,
        Err(e) => Res::Err(format!("{e:?}")),
    }
}

fn queued(c: &aj::job::JobContext) -> aj::job::JobContext {
    let mut c = c.clone();
    c.job_status = aj::job::JobStatus::Queued;
    c
}

fn now_us() -> i64 {
    aj::export::core::chrono::Utc::now().timestamp_micros()
}

/// What the caller asked for, whatever the builder methods made of it.
fn as_asked(jc: &aj::job::JobContext, data: Option<&Data>, c: &Ctx, base_us: i64, t: (i64, i64), new: bool) -> View {
    let mut jc = queued(jc);
    if new {
        let (t0, t1) = (t.0.min(t.1).div_euclid(1000), t.0.max(t.1).div_euclid(1000));
        jc.created_at = jc.created_at.clamp(t0, t1);
        jc.run_count = 0;
    }
    let mut v = view(&jc, data);
    v.jt = asked(c, base_us, t, &v.jt);
    v
}

async fn do_op(c: usize, op: Op, base_us: i64) -> bool {
    match &op {
        Op::Sleep { ms } => {
            sleep_ms(*ms).await;
            return true;
        }
        Op::WaitStart { id, ms } | Op::WaitEnd { id, ms } => {
            let start = matches!(op, Op::WaitStart { .. });
            let mut left = *ms;
            loop {
                let id = id_of(*id);
                let hit = w(|w| if start { w.running.get(&id).copied().unwrap_or(0) > 0 } else { w.ended.get(&id).copied().unwrap_or(0) > 0 });
                if hit || left == 0 {
                    return true;
                }
                let d = 3.min(left);
                sleep_ms(d).await;
                left -= d;
            }
        }
        _ => {}
    }
    let n = w(|w| {
        w.ops += 1;
        w.ops - 1
    });
    let inv = |id: &str, ctx: Option<View>| log(K::Inv { n, c, op: op.clone(), id: id.to_string(), ctx });
    let r = match op.clone() {
        Op::Run { ty, id, auto, wait, data, ctx, mode, .. } => by_ty!(ty, T, {
            let custom = (!auto).then(|| own_id(id));
            let tag = data.clone();
            let way = tag.tag;
            let t0 = now_us();
            let mut job = build(T::make(data), custom.as_deref(), &ctx, base_us, way);
            let t = (t0, now_us());
            let jid = custom.unwrap_or_else(|| job.id().to_string());
            if mode == 4 {
                // the job as it is stored, with other data and schedule
                if let Some(old) = AJ::get_job::<T>(&jid).await {
                    let ty = job.context.job_type.clone();
                    job = job.set_context(old.context).set_job_type(ty);
                }
            }
            w(|w| w.ids.insert(id, (jid.clone(), ty)));
            inv(&jid, Some(as_asked(&job.context, Some(&tag), &ctx, base_us, t, mode != 4)));
            if (1..4).contains(&mode) {
                let cfg = match mode {
                    1 => EnqueueConfig::new(true, false),
                    2 => EnqueueConfig::new_skip_if_finished(),
                    _ => EnqueueConfig::new(false, false),
                };
                match AJ::enqueue_job(job, cfg, T::queue_name()).await {
                    Ok(()) => Res::Id(jid),
                    Err(e) => Res::Err(format!("{e:?}")),
                }
            } else if wait {
                let done = if way % 5 == 2 { AJ::add_job(job, T::queue_name()).await } else { job.run().await };
                match done {
                    Ok(s) => Res::Id(s),
                    Err(e) => Res::Err(format!("{e:?}")),
                }
            } else {
                job.just_run();
                Res::Unit
            }
        }),
        Op::Cancel { ty, id } => {
            let jid = id_of(id);
            inv(&jid, None);
            by_ty!(ty, T, unit(AJ::cancel_job::<T>(jid).await))
        }
        Op::Get { ty, id } => {
            let jid = id_of(id);
            inv(&jid, None);
            Res::Job(get(ty, &jid).await)
        }
        Op::Update { ty, id, data, ctx, how } => {
            let jid = id_of(id);
            let t0 = now_us();
            let mut jctx = ctx.as_ref().map(|c| make_context(if how == 2 { "another id" } else { &jid }, c, base_us).expect("context"));
            let t = (t0, now_us());
            if let (1, Some(c)) = (how, jctx.as_mut()) {
                // read, modify, write
                if let Some(mut old) = by_ty!(ty, T, AJ::get_job::<T>(&jid).await.map(|j| j.context)) {
                    old.job_type = c.job_type.clone();
                    *c = old;
                }
            }
            // the status is not the caller's to set
            inv(&jid, jctx.as_ref().map(|c| as_asked(c, Some(&data), ctx.as_ref().unwrap(), base_us, t, how != 1)));
            by_ty!(ty, T, unit(AJ::update_job::<T>(&jid, T::make(data), jctx).await))
        }
        Op::Retry { ty, id } => {
            let jid = id_of(id);
            inv(&jid, None);
            by_ty!(ty, T, match AJ::retry_job::<T>(&jid).await {
                Ok(b) => Res::Bool(b),
                Err(e) => Res::Err(format!("{e:?}")),
            })
        }
        Op::Config { ty, cap, tick_ms } => {
            inv("", None);
            let mut cfg = WorkQueueConfig::default();
            cfg.max_processing_jobs = cap;
            cfg.process_tick_duration = Duration::from_millis(tick_ms);
            by_ty!(ty, T, unit(AJ::update_work_queue::<T>(cfg).await))
        }
        Op::Spoil { ty, n, kind } => {
            inv("", None);
            let list = by_ty!(ty, T, aj::queue::WorkQueue::<T>::new(T::queue_name().to_string(), std::sync::Arc::new(aj::mem::InMemory::default())).format_queue_name(aj::job::JobStatus::Queued));
            backend::spoil(&list, n, kind);
            Res::Unit
        }
        Op::Plugin { spec } => {
            inv("", None);
            reg_plugin(&spec).await;
            Res::Unit
        }
        Op::Macro { n: k, args, wait, ctx } => {
            let mid = format!("macro {}", own_id(k));
            let t0 = now_us();
            let jctx = ctx.as_ref().map(|c| make_context(&mid, c, base_us).expect("context"));
            let t = (t0, now_us());
            inv(&mid, jctx.as_ref().map(|c| as_asked(c, None, ctx.as_ref().unwrap(), base_us, t, true)));
            let r = mj::call(args.clone(), wait, jctx).await;
            if let Res::Id(id) = &r {
                // the stored context is the one given
                let v = mj::get(&args, id).await;
                log(K::Final { id: id.clone(), v });
            } else if !wait && ctx.is_some() {
                for _ in 0..20 {
                    actix_rt::time::sleep(Duration::from_millis(100)).await;
                    if let Some(v) = mj::get(&args, &mid).await {
                        log(K::Final { id: mid.clone(), v: Some(v) });
                        break;
                    }
                }
            }
            r
        }
        Op::Start => {
            inv("", None);
            AJ::start(aj::mem::InMemory::default());
            Res::Unit
        }
        Op::Sleep { .. } | Op::WaitStart { .. } | Op::WaitEnd { .. } => unreachable!(),
    };
    let ok = !matches!(r, Res::Err(_));
    log(K::Ret { n, r });
    ok
}

// ------------------------------------------------------------------ plugins

struct Rec {
    p: usize,
    spec: PluginSpec,
}

async fn reg_plugin(spec: &PluginSpec) {
    let p = w(|w| {
        w.plugins += 1;
        w.plugins - 1
    });
    let r = AJ::register_plugin(Rec { p, spec: spec.clone() }).await;
    log(K::Note(format!("plugin {p} registered: {}", r.is_ok())));
}

impl Rec {
    async fn rec(&self, kind: u8, id: &str, st: u8, ms: u32) {
        log(K::Hook { p: self.p, kind, id: id.into(), st, end: false });
        if ms > 0 {
            sleep_ms(ms as u64).await;
        }
        log(K::Hook { p: self.p, kind, id: id.into(), st, end: true });
        let n = id.bytes().fold(kind as u32 + self.p as u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
        if self.spec.panics > 0 && n % self.spec.panics == 0 {
            probe("fault: panic in a hook");
            panic!("injected panic");
        }
    }
}

#[async_trait]
impl JobPlugin for Rec {
    async fn change_status(&self, id: &str, st: aj::job::JobStatus) {
        self.rec(2, id, status_u8(st), self.spec.status_ms).await
    }
    async fn before_run(&self, id: &str) {
        self.rec(0, id, 0, self.spec.before_ms).await
    }
    async fn after_run(&self, id: &str) {
        self.rec(1, id, 0, self.spec.after_ms).await
    }
}

#[allow(dead_code)]
fn _is_job<T: BackgroundJob>() {}
