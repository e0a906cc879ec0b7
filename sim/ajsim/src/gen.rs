//! Swarm generators: one seed, one plan.
use crate::plan::*;
use detsim::Rng;

pub struct G {
    pub r: Rng,
    tag: u64,
    slot: u32,
}

const PAYLOADS: [&str; 8] = ["", "x", "{\"a\":1}", "line\r\nbreak", "quote\"and\\slash", "ünï-códe 漢字 🦀", "*3\r\n$3\r\nSET\r\n", "\u{0}\u{1}"];
const BASES: [i64; 6] = [
    1_700_000_000_000_000,
    1_704_067_195_000_000, // 5 s before 2024-01-01
    1_709_164_790_000_000, // before 29 February 2024
    946_684_800_000_000,
    1_735_689_590_000_000,
    4_000_000_000_000_000,
];

impl G {
    pub fn new(seed: u64) -> Self {
        G { r: Rng::derive(seed, 1), tag: 0, slot: 0 }
    }
    fn sched(&mut self) -> Sched {
        match self.r.below(100) {
            0..=34 => Sched::Uniform,
            35..=69 => Sched::MostlyFifo(5 + self.r.below(36)),
            _ => Sched::Priority(1 + self.r.below(20)),
        }
    }
    fn data(&mut self, steps: Vec<Step>) -> Data {
        self.tag += 1;
        let pay = if self.r.pct(3) { "long ".repeat(if self.r.pct(4) { 30_000 } else { 800 }) } else { self.r.pick(&PAYLOADS).to_string() };
        let list = (0..self.r.below(4)).map(|_| *self.r.pick(&[0, -1, i64::MAX, i64::MIN, 42])).collect();
        let opt = *self.r.pick(&[None, Some(true), Some(false)]);
        Data { tag: self.tag, pay, list, opt, steps }
    }
    fn step(&mut self, max_ms: u64, out: Out) -> Step {
        let ms = if max_ms == 0 || self.r.pct(40) { 0 } else { self.r.below(max_ms + 1) as u32 };
        Step { ms, yields: self.r.below(4) as u8, out }
    }
    fn out(&mut self, fail_pct: u64) -> Out {
        if self.r.pct(fail_pct) {
            if self.r.pct(70) { Out::Fail } else { Out::PostFail }
        } else if self.r.pct(8) {
            Out::PostOk
        } else {
            Out::Ok
        }
    }
    fn panic(&mut self) -> Out {
        self.r.pick(&[Out::Panic, Out::Panic, Out::PanicPost, Out::PanicCheck]).clone()
    }
    fn one(&mut self, max_ms: u64, fail_pct: u64) -> Data {
        let o = self.out(fail_pct);
        let s = self.step(max_ms, o);
        self.data(vec![s])
    }
    fn new_slot(&mut self) -> u32 {
        self.slot += 1;
        self.slot - 1
    }
    fn now() -> Ctx {
        Ctx { when: When::Now, retry: None }
    }
    /// immediate, delayed or at a time
    fn when(&mut self, now_pct: u64, max_ms: i64) -> When {
        if self.r.pct(now_pct) {
            When::Now
        } else if self.r.pct(60) {
            When::DelayMs(self.r.range(-500, max_ms))
        } else {
            When::AtUs(self.r.range(-1_000_000, max_ms * 1000))
        }
    }
    fn run(&mut self, ty: u8, data: Data, ctx: Ctx) -> Op {
        let id = self.new_slot();
        let auto = self.r.pct(30);
        let wait = self.r.pct(65);
        Op::Run { ty, id, auto, wait, data, ctx, tries: 0, mode: 0 }
    }
    fn chaos(&mut self, n: u64, span_ms: u64, stall_ms: u64, jump_ms: (i64, i64)) -> Vec<Chaos> {
        let mut v = vec![];
        for _ in 0..n {
            let at_ms = self.r.below(span_ms + 1);
            if jump_ms != (0, 0) && self.r.pct(50) {
                v.push(Chaos::Jump { at_ms, ms: self.r.range(jump_ms.0, jump_ms.1) });
            } else if stall_ms > 0 {
                v.push(Chaos::Stall { at_ms, node: self.r.below(8) as u32, ms: 1 + self.r.below(stall_ms) });
            }
        }
        v
    }
    fn base(&mut self, prop: &str, seed: u64) -> Plan {
        let sched = self.sched();
        let wall = *self.r.pick(&BASES) + self.r.below(60_000_000) as i64;
        Plan {
            prop: prop.into(),
            profile: String::new(),
            seed,
            wall_base_us: wall,
            actix: self.r.pct(70),
            store: if self.r.pct(80) { Store::Mem } else { Store::Redis },
            plugins: vec![],
            clients: vec![],
            after: vec![],
            chaos: vec![],
            faults: Faults::None,
            crashes: vec![],
            settle_ms: 0,
            sched,
            max_steps: 20_000_000,
            ids: 0,
            be: vec![],
        }
    }
    /// spread operations over clients, with pauses
    fn clients(&mut self, ops: Vec<Op>, n: usize, pause_pct: u64, pause_ms: u64) -> Vec<Client> {
        let mut cs: Vec<Client> = (0..n).map(|_| Client { thread: self.r.pct(60), ops: vec![] }).collect();
        for op in ops {
            let c = self.r.below(n as u64) as usize;
            if self.r.pct(pause_pct) {
                let ms = self.r.below(pause_ms + 1);
                cs[c].ops.push(Op::Sleep { ms });
            }
            cs[c].ops.push(op);
        }
        cs
    }
    /// now and then a limit that is as good as none
    fn cap(&mut self, usual: usize) -> usize {
        if self.r.pct(8) {
            *self.r.pick(&[256, 300, 512, 65_536, 100_000])
        } else {
            usual
        }
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

fn all_ops(p: &Plan) -> impl Iterator<Item = &Op> {
    p.clients.iter().chain(p.after.iter().flatten()).flat_map(|c| c.ops.iter())
}

/// Quiet time after which everything that was asked for must have happened.
fn settle(p: &Plan) -> u64 {
    let mut work = 0u64;
    let mut n = 0u64;
    let mut delay = 0i64;
    let mut tick = 100u64;
    let mut retry = 0u64;
    let mut runs_of_slot: std::collections::BTreeMap<u32, u64> = Default::default();
    let mut long: std::collections::BTreeMap<u32, u64> = Default::default();
    let ctx_of = |c: &Ctx, delay: &mut i64, retry: &mut u64, data: &Data| {
        *retry += data.steps.iter().map(|s| if let Out::Again(ms) = s.out { ms as u64 } else { 0 }).sum::<u64>();
        match c.when {
            When::DelayMs(ms) => *delay = (*delay).max(ms),
            When::AtUs(us) => *delay = (*delay).max(us / 1000),
            _ => {}
        }
        if let Some(RetrySpec::Interval { ms, .. } | RetrySpec::Exp { ms, .. }) = &c.retry {
            let k = data.steps.len() as u64;
            *retry += match c.retry.as_ref().unwrap() {
                RetrySpec::Interval { .. } => k * (*ms as u64),
                RetrySpec::Exp { .. } if *ms < 0 => (1..=k + 1).map(|i| (1u64 << i.min(31)) / 1000 + 1).sum::<u64>(),
                RetrySpec::Exp { .. } => (*ms as u64).saturating_mul(1 << (k + retry_used(*ms) as u64).min(16)),
            };
        }
    };
    for o in all_ops(p) {
        match o {
            Op::Run { data, ctx, id, .. } => {
                let d: u64 = data.steps.iter().map(|s| step_ms(data.tag, s)).sum();
                work += d;
                n += data.steps.len() as u64;
                *runs_of_slot.entry(*id).or_insert(0) += 1;
                let l = long.entry(*id).or_insert(0);
                *l = (*l).max(d);
                ctx_of(ctx, &mut delay, &mut retry, data);
            }
            Op::Update { data, ctx, id, .. } => {
                let d: u64 = data.steps.iter().map(|s| step_ms(data.tag, s)).sum();
                work += d;
                n += data.steps.len() as u64;
                let l = long.entry(*id).or_insert(0);
                *l = (*l).max(d);
                if let Some(ctx) = ctx {
                    ctx_of(ctx, &mut delay, &mut retry, data);
                }
            }
            Op::Retry { id, .. } => {
                n += 1;
                work += long.get(id).copied().unwrap_or(300);
            }
            Op::Config { tick_ms, .. } => tick = tick.max(*tick_ms),
            Op::Macro { ctx, .. } => {
                n += 1;
                work += 255;
                if let Some(c) = ctx {
                    match &c.when {
                        When::DelayMs(ms) => delay = delay.max(*ms),
                        When::AtUs(us) => delay = delay.max(us / 1000),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let mut stall = 0u64;
    for c in &p.chaos {
        match c {
            Chaos::Stall { ms, .. } => stall += ms,
            Chaos::Jump { ms, .. } => stall += (-ms).max(0) as u64,
        }
    }
    let hook: u64 = {
        let mut h = 0;
        for s in p.plugins.iter().chain(all_ops(p).filter_map(|o| if let Op::Plugin { spec } = o { Some(spec) } else { None })) {
            h += (s.before_ms + s.after_ms + 4 * s.status_ms) as u64;
        }
        h
    };
    work + n * tick * 3 / 2 + delay.max(0) as u64 + retry + stall + n * hook * 2 + 3000
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(seed ^ (prop.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64)) << 20));
    let mut p = match prop {
        "C01" => c01(&mut g, seed),
        "C02" => c02(&mut g, seed),
        "C03" => c03(&mut g, seed),
        "C04" => c04(&mut g, seed),
        "C05" => c05(&mut g, seed),
        "C06" => c06(&mut g, seed),
        "C07" => c07(&mut g, seed),
        "C08" => ops_mix(&mut g, seed, "C08"),
        "C09" => ops_mix(&mut g, seed, "C09"),
        "C10" => ops_mix(&mut g, seed, "C10"),
        "C11" => c11(&mut g, seed),
        "C12" => c12(&mut g, seed),
        "C15" => {
            let mut p = g.base("C15", seed);
            p.store = Store::Redis;
            let heavy = g.r.pct(20);
            p.be = crate::be::generate(&mut g.r, heavy);
            p
        }
        "C16" => c16(&mut g, seed),
        "C17" => c17(&mut g, seed),
        "C18" => c18(&mut g, seed),
        "C19" => c19(&mut g, seed),
        _ => panic!("no generator for {prop}"),
    };
    if g.r.pct(35) {
        p.ids = 1 + g.r.below(8) as u8;
    }
    ballast(&mut g, prop, &mut p);
    long_lived(&mut g, prop, &mut p);
    p.settle_ms += settle(&p);
    p
}

/// Sometimes the queue holds more jobs that are not due yet than it reads at once.
fn ballast(g: &mut G, prop: &str, p: &mut Plan) {
    let pct = match prop {
        "C03" => 30,
        "C01" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C16" | "C17" | "C18" => 8,
        _ => 0,
    };
    if p.clients.is_empty() || !g.r.pct(pct) {
        return;
    }
    let n = 12 + g.r.below(45);
    let wait = g.r.pct(60) || prop == "C16";
    let from = 1000 + g.r.below(4000) as i64;
    let mut ops = vec![];
    for _ in 0..n {
        let d = g.one(20, 10);
        let when = When::DelayMs(from + g.r.below(3000) as i64);
        let id = g.new_slot();
        ops.push(Op::Run { ty: 0, id, auto: false, wait, data: d, ctx: Ctx { when, retry: None }, tries: 0, mode: 0 });
    }
    let c = g.r.below(p.clients.len() as u64) as usize;
    let at = g.r.below(p.clients[c].ops.len() as u64 + 1) as usize;
    let spread = g.r.pct(30);
    for (k, o) in ops.into_iter().enumerate() {
        let len = p.clients[c].ops.len() as u64;
        let at = if spread { g.r.below(len + 1) as usize } else { at + k };
        p.clients[c].ops.insert(at, o);
    }
    for a in p.after.iter_mut().flatten() {
        // known finding K1: 20 jobs that were executing at the crash would block the queue
        a.ops.push(Op::Config { ty: 0, cap: 200, tick_ms: 100 });
    }
    p.profile += "+ballast";
}

/// Sometimes a few executions last seconds to minutes, and the callers deal with the job meanwhile.
fn long_lived(g: &mut G, prop: &str, p: &mut Plan) {
    let pct = match prop {
        "C11" => 10,
        "C01" | "C03" | "C08" | "C09" | "C10" | "C12" | "C16" | "C17" | "C18" => 4,
        "C07" => 3,
        _ => 0,
    };
    if !g.r.pct(pct) || p.profile == "many repeats" {
        return;
    }
    let mut at: Vec<(usize, usize)> = vec![];
    for (c, cl) in p.clients.iter().enumerate() {
        for (k, o) in cl.ops.iter().enumerate() {
            if let Op::Run { auto: false, .. } = o {
                at.push((c, k));
            }
        }
    }
    if at.is_empty() {
        return;
    }
    p.profile += "+long";
    for _ in 0..1 + g.r.below(2) {
        let (c, k) = *g.r.pick(&at);
        let long = *g.r.pick(&[6_000u32, 12_000, 35_000, 65_000, 130_000, 310_000]) + g.r.below(3000) as u32;
        let Op::Run { ty, id, data, .. } = &mut p.clients[c].ops[k] else { unreachable!() };
        let (ty, id) = (*ty, *id);
        // the last step repeats: the long one is never the last
        let i = g.r.below(data.steps.len() as u64) as usize;
        if i + 1 == data.steps.len() {
            let last = data.steps[i].clone();
            data.steps.push(last);
        }
        if data.steps[i].out != Out::Hang {
            data.steps[i].ms = long;
        }
        let mut ops = vec![Op::WaitStart { id, ms: 5000 }];
        for _ in 0..2 + g.r.below(4) {
            ops.push(Op::Sleep { ms: g.r.below(long as u64 * 2 / 3) });
            let data = g.one(50, 20);
            let o = match (prop, g.r.below(8)) {
                ("C11" | "C01" | "C12" | "C16" | "C18" | "C07", _) | (_, 0..=1) => Op::Get { ty, id },
                ("C17", _) => Op::Get { ty, id },
                (_, 2..=3) => Op::Cancel { ty, id },
                (_, 4) => Op::Update { ty, id, data, ctx: None, how: 0 },
                (_, 5..=6) => Op::Retry { ty, id },
                _ => Op::Run { ty, id, auto: false, wait: true, data, ctx: G::now(), tries: 0, mode: 0 },
            };
            ops.push(o);
        }
        p.clients.push(Client { thread: g.r.pct(60), ops });
    }
}

fn c01(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C01", seed);
    let (profile, n) = match g.r.below(10) {
        0..=3 => ("few", 1 + g.r.below(6)),
        4..=6 => ("some", 8 + g.r.below(24)),
        _ if g.r.pct(7) => ("large", 130 + g.r.below(250)),
        _ => ("burst", 41 + g.r.below(60)),
    };
    p.profile = profile.into();
    let types = 1 + g.r.below(3) as u8;
    let long = *g.r.pick(&[0u64, 50, 300]);
    let mut ops = vec![];
    for _ in 0..n {
        let ty = g.r.below(types as u64) as u8;
        let when = g.when(65, 3000);
        let d = g.one(long, 25);
        ops.push(g.run(ty, d, Ctx { when, retry: None }));
    }
    if g.r.pct(4) {
        p.profile += "+unstorable";
        for o in ops.iter_mut() {
            if let (Op::Run { wait, data, .. }, true) = (o, g.r.pct(15)) {
                *wait = true;
                data.pay = UNSTORABLE.into();
            }
        }
    }
    let n_cl = 1 + g.r.below(4) as usize;
    let noise = g.r.below(8);
    for _ in 0..noise {
        let at = g.r.below(ops.len() as u64 + 1) as usize;
        let ty = g.r.below(types as u64) as u8;
        let o = match g.r.below(10) {
            0..=4 => Op::Get { ty, id: g.r.below(n) as u32 },
            5..=7 => Op::Config { ty, cap: 1 + g.r.below(25) as usize, tick_ms: 5 + g.r.below(250) },
            _ => Op::Start,
        };
        ops.insert(at, o);
    }
    // a query names the type its job has
    let tys: Vec<(u32, u8)> = ops.iter().filter_map(|o| if let Op::Run { id, ty, .. } = o { Some((*id, *ty)) } else { None }).collect();
    for o in ops.iter_mut() {
        if let Op::Get { ty, id } = o {
            *ty = tys.iter().find(|t| t.0 == *id).map(|t| t.1).unwrap_or(0);
        }
    }
    p.clients = g.clients(ops, n_cl, 25, 300);
    let k = g.r.below(3);
    p.chaos = g.chaos(k, 4000, 1500, (0, 0));
    p
}

fn c02(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C02", seed);
    // a crowd: more first submissions at once than a mailbox holds
    let (n_cl, each) = match g.r.below(20) {
        0 => (18 + g.r.below(30) as usize, 2),
        1 => (2 + g.r.below(3) as usize, 12 + g.r.below(20)),
        _ => (2 + g.r.below(5) as usize, 3),
    };
    let first = g.r.below(4) as u8;
    for c in 0..n_cl {
        let mut ops = vec![];
        if g.r.pct(25) {
            ops.push(Op::Sleep { ms: g.r.below(4) });
        }
        for _ in 0..1 + g.r.below(each) {
            let d = g.one(60, 20);
            let ty = if g.r.pct(85) { first } else { g.r.below(4) as u8 };
            let op = g.run(ty, d, G::now());
            ops.push(op);
        }
        // a later type, first used by several clients too
        for _ in 0..g.r.below(3) {
            let ty = g.r.below(4) as u8;
            let d = g.one(60, 20);
            if g.r.pct(30) {
                ops.push(Op::Sleep { ms: g.r.below(200) });
            }
            let op = g.run(ty, d, G::now());
            ops.push(op);
        }
        if c == 0 && g.r.pct(60) {
            // waiting submission, so the queue exists; then settings that must govern everything
            let d = g.one(30, 0);
            let id = g.new_slot();
            ops.push(Op::Run { ty: first, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
            ops.push(Op::Config { ty: first, cap: 1 + g.r.below(2) as usize, tick_ms: 20 + g.r.below(100) });
            for _ in 0..4 {
                let o = Out::Ok;
                let st = Step { ms: 50 + g.r.below(200) as u32, yields: 0, out: o };
                let d = g.data(vec![st]);
                let op = g.run(first, d, G::now());
                ops.push(op);
            }
        }
        p.clients.push(Client { thread: g.r.pct(80), ops });
    }
    let k = g.r.below(3);
    p.chaos = g.chaos(k, 300, 500, (0, 0));
    p
}

fn rand_retry(g: &mut G, max: i32) -> RetrySpec {
    let m = Some(g.r.below(max as u64 + 1) as i32);
    if g.r.pct(50) {
        RetrySpec::Interval { max: m, ms: g.r.below(400) as i64 }
    } else {
        RetrySpec::Exp { max: m, ms: g.r.below(120) as i64 }
    }
}

fn c03(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C03", seed);
    let types = 1 + g.r.below(2) as u8;
    let wide = g.r.pct(10); // limits above the default and above the fetch batch
    let n = if wide { 60 + g.r.below(80) } else { 8 + g.r.below(40) };
    let mut ops = vec![];
    let mut known: Vec<(u32, u8)> = vec![];
    for k in 0..n {
        let ty = g.r.below(types as u64) as u8;
        match g.r.below(100) {
            0..=54 => {
                let len = 1 + g.r.below(3);
                let steps = (0..len)
                    .map(|_| {
                        let o = match g.r.below(20) {
                            0 => g.panic(),
                            1 => Out::Hang,
                            2..=6 => Out::Fail,
                            _ => Out::Ok,
                        };
                        Step { ms: 20 + g.r.below(600) as u32, yields: g.r.below(3) as u8, out: o }
                    })
                    .collect();
                let d = g.data(steps);
                let when = if g.r.pct(10) {
                    When::Cron { expr: "* * * * * * *".into(), max_repeat: Some(1 + g.r.below(3) as i32), end_in_ms: None }
                } else {
                    g.when(75, 1500)
                };
                let retry = if g.r.pct(30) { Some(rand_retry(g, 4)) } else { None };
                known.push((g.slot, ty));
                let mut op = g.run(ty, d, Ctx { when, retry });
                if let Op::Run { auto, wait, .. } = &mut op {
                    *auto = false;
                    *wait |= k < 2;
                }
                ops.push(op);
            }
            55..=74 if wide => {
                if g.r.pct(20) {
                    let cap = 15 + g.r.below(45) as usize;
                    ops.push(Op::Config { ty, cap: g.cap(cap), tick_ms: 10 + g.r.below(200) })
                }
            }
            55..=74 => ops.push(Op::Config { ty, cap: g.r.below(6) as usize, tick_ms: 10 + g.r.below(200) }),
            _ if known.is_empty() => {}
            75..=82 => {
                let (id, ty) = *g.r.pick(&known);
                ops.push(Op::Retry { ty, id })
            }
            83..=90 => {
                let (id, ty) = *g.r.pick(&known);
                let data = g.one(400, 20);
                ops.push(Op::Update { ty, id, data, ctx: None, how: 0 })
            }
            91..=95 => {
                let (id, ty) = *g.r.pick(&known);
                ops.push(Op::Cancel { ty, id })
            }
            _ => {
                let (id, ty) = *g.r.pick(&known);
                let data = g.one(400, 20);
                ops.push(Op::Run { ty, id, auto: false, wait: true, data, ctx: G::now(), tries: 0, mode: 0 })
            }
        }
    }
    let n_cl = 1 + g.r.below(3) as usize;
    let full = g.r.pct(3); // the limit is used up for minutes
    if full {
        for ty in 0..types {
            ops.push(Op::Config { ty, cap: 1 + g.r.below(3) as usize, tick_ms: 50 + g.r.below(300) });
            for _ in 0..4 {
                let d = g.data(vec![Step { ms: 0, yields: 0, out: Out::Hang }]);
                ops.push(g.run(ty, d, G::now()));
            }
        }
    }
    p.clients = g.clients(ops, n_cl, if wide { 6 } else { 35 }, 250);
    let k = g.r.below(3);
    p.chaos = g.chaos(k, 4000, 800, (-5000, 5000));
    if g.r.pct(55) {
        let until = 1000 + g.r.below(5000);
        let (e, s, nt) = match p.store {
            Store::Mem => (30 + g.r.below(250) as u32, g.r.below(80) as u32, 0),
            Store::Redis => (g.r.below(150) as u32, g.r.below(50) as u32, 50 + g.r.below(250) as u32),
        };
        p.faults = Faults::Random { seed, err_pm: e, slow_pm: s, net_pm: nt, from_ms: g.r.below(500), until_ms: until, burst: g.r.below(6) as u32, max: 0 };
        p.profile = "faults".into();
    }
    p.settle_ms = 1000;
    if full {
        p.profile += "+full";
        p.settle_ms += *g.r.pick(&[10_000, 70_000, 320_000, 650_000]);
    }
    p
}

fn c04(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C04", seed);
    let n = 2 + g.r.below(16);
    let mut ops = vec![];
    let mut known: Vec<u32> = vec![];
    let days = g.r.pct(4);
    let far = if days { *g.r.pick(&DAYS) } else { *g.r.pick(&[1500i64, 4000, 20_000]) };
    for _ in 0..n {
        let when = g.when(10, far);
        let d = g.one(120, 20);
        known.push(g.slot);
        let mut op = g.run(0, d, Ctx { when, retry: None });
        if let Op::Run { auto, .. } = &mut op {
            *auto = false;
        }
        ops.push(op);
    }
    for _ in 0..g.r.below(8) {
        let id = *g.r.pick(&known);
        let data = g.one(100, 20);
        let when = g.when(15, far);
        let c = Ctx { when, retry: None };
        let at = 1 + g.r.below(ops.len() as u64) as usize;
        let o = match g.r.below(8) {
            0..=1 => Op::Update { ty: 0, id, data, ctx: None, how: 0 },
            2..=4 => Op::Update { ty: 0, id, data, ctx: Some(c), how: *g.r.pick(&[0u8, 0, 1, 1, 2]) },
            5 => Op::Run { ty: 0, id, auto: false, wait: true, data, ctx: c, tries: 0, mode: 0 },
            6 => Op::Retry { ty: 0, id },
            _ => Op::Cancel { ty: 0, id },
        };
        ops.insert(at, o);
    }
    if days {
        p.profile = "days".into();
        let d = g.one(0, 0);
        let id = g.new_slot();
        ops.insert(0, Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
        ops.insert(1, Op::Config { ty: 0, cap: 20, tick_ms: (far / 2000) as u64 + g.r.below(5000) });
    } else if g.r.pct(20) {
        ops.insert(1.min(ops.len()), Op::Config { ty: 0, cap: 1 + g.r.below(3) as usize, tick_ms: 1 + g.r.below(150) });
    }
    let n_cl = if days { 1 } else { 1 + g.r.below(3) as usize };
    p.clients = g.clients(ops, n_cl, 40, 600);
    let k = g.r.below(5);
    let j = *g.r.pick(&[(0i64, 0i64), (-3000, 3000), (-20_000, 20_000)]);
    p.chaos = g.chaos(k, 5000, 1500, j);
    if g.r.pct(20) {
        p.crashes = vec![CrashAt::Call(5 + g.r.below(200), g.r.below(2) as u8)];
        let d = g.one(0, 0);
        let op = g.run(0, d, G::now());
        p.after = vec![vec![Client { thread: true, ops: vec![op] }]];
        p.profile = "crash".into();
        if days {
            let d = g.one(0, 0);
            let id = g.new_slot();
            let ops = vec![
                Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 },
                Op::Config { ty: 0, cap: 20, tick_ms: (far / 2000) as u64 },
            ];
            p.after = vec![vec![Client { thread: true, ops }]];
        }
    }
    p
}

/// schedules far ahead: hours, days, more than 2^31 and 2^32 ms
const DAYS: [i64; 5] = [4 * 3_600_000, 2 * 86_400_000, 27 * 86_400_000, 55 * 86_400_000, 500 * 86_400_000];

fn c05(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C05", seed);
    let mut ops = vec![];
    match g.r.below(20) {
        0..=11 => {
            p.profile = "backlog".into();
            // many that are not due, some that are
            let huge = g.r.pct(4);
            let later = if huge { 250 + g.r.below(400) } else { 5 + g.r.below(75) };
            if huge {
                p.profile = "huge backlog".into();
            }
            let due = 2 + g.r.below(30);
            let mut v = vec![];
            for _ in 0..later {
                let ms = 3000 + g.r.below(12_000) as i64;
                let d = g.one(50, 10);
                let when = if g.r.pct(50) { When::DelayMs(ms) } else { When::AtUs(ms * 1000) };
                v.push(g.run(0, d, Ctx { when, retry: None }));
            }
            for _ in 0..due {
                let when = g.when(60, 2500);
                let d = g.one(150, 10);
                v.push(g.run(0, d, Ctx { when, retry: None }));
            }
            g.shuffle(&mut v);
            ops = v;
        }
        12..=17 => {
            p.profile = "cap".into();
            let wide = g.r.pct(15);
            let n = if wide { 50 + g.r.below(70) } else { 6 + g.r.below(30) };
            for _ in 0..n {
                let when = g.when(60, 2000);
                let d = if wide {
                    let ms = 300 + g.r.below(2200) as u32;
                    g.data(vec![Step { ms, yields: 0, out: Out::Ok }])
                } else {
                    g.one(400, 10)
                };
                ops.push(g.run(g.r.clone().below(2) as u8, d, Ctx { when, retry: None }));
            }
            for _ in 0..1 + g.r.below(5) {
                let at = 1 + g.r.below(ops.len() as u64) as usize;
                let cap = if wide { 15 + g.r.below(50) as usize } else { 1 + g.r.below(6) as usize };
                ops.insert(at, Op::Config { ty: g.r.below(2) as u8, cap: g.cap(cap), tick_ms: 5 + g.r.below(300) });
            }
        }
        18 if g.r.pct(25) => {
            // as many new jobs as can be run, on top of a few that wait
            p.profile = "overload".into();
            let cap = 1 + g.r.below(2);
            let tick = 20 + g.r.below(80);
            let d = g.one(0, 0);
            ops.push(g.run(0, d, G::now()));
            ops.push(Op::Config { ty: 0, cap: cap as usize, tick_ms: tick });
            let wait = 2 + g.r.below(5);
            for i in 0..200 + g.r.below(150) {
                let d = g.data(vec![Step { ms: 0, yields: 0, out: Out::Ok }]);
                ops.push(g.run(0, d, G::now()));
                if i > wait && i % cap == 0 {
                    ops.push(Op::Sleep { ms: tick });
                }
            }
            p.clients = vec![Client { thread: g.r.pct(50), ops: std::mem::take(&mut ops) }];
        }
        18 if g.r.pct(50) => {
            // long ticks, then short ones
            p.profile = "ticks".into();
            let n = 3 + g.r.below(5);
            for i in 0..n {
                let d = g.one(0, 0);
                ops.push(g.run(0, d, G::now()));
                let long = i + 1 < n && g.r.pct(50);
                ops.push(Op::Config { ty: 0, cap: 20, tick_ms: if long { 500 + g.r.below(6000) } else { 1 + g.r.below(60) } });
                ops.push(Op::Sleep { ms: g.r.below(if long { 2000 } else { 30_000 }) });
                for _ in 0..2 + g.r.below(5) {
                    let d = g.one(30, 5);
                    let when = g.when(30, 15_000);
                    ops.push(g.run(0, d, Ctx { when, retry: None }));
                }
            }
            p.clients = vec![Client { thread: g.r.pct(50), ops: std::mem::take(&mut ops) }];
        }
        18 if g.r.pct(40) => {
            p.profile = "days".into();
            let far = *g.r.pick(&DAYS);
            let d = g.one(0, 0);
            let id = g.new_slot();
            ops.push(Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
            ops.push(Op::Config { ty: 0, cap: 20, tick_ms: (far / 2000) as u64 + g.r.below(5000) });
            for _ in 0..2 + g.r.below(6) {
                let d = g.one(150, 10);
                let when = g.when(10, far);
                ops.push(g.run(0, d, Ctx { when, retry: None }));
            }
            p.clients = vec![Client { thread: g.r.pct(50), ops: std::mem::take(&mut ops) }];
        }
        _ => {
            p.profile = "long run".into();
            let n = 5 + g.r.below(12);
            let span = 60_000 * (5 + g.r.below(55));
            if g.r.pct(25) {
                // more ticks than 16 bits count
                let d = g.one(0, 0);
                let id = g.new_slot();
                ops.push(Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
                ops.push(Op::Config { ty: 0, cap: 20, tick_ms: 8 + g.r.below(30) });
            }
            for _ in 0..n {
                let d = g.one(500, 10);
                let when = if g.r.pct(50) { When::Now } else { When::DelayMs(g.r.below(span / 2) as i64) };
                ops.push(Op::Sleep { ms: g.r.below(span / n) });
                ops.push(g.run(0, d, Ctx { when, retry: None }));
            }
            p.clients = vec![Client { thread: g.r.pct(50), ops: std::mem::take(&mut ops) }];
        }
    }
    if !ops.is_empty() {
        let n_cl = 1 + g.r.below(3) as usize;
        p.clients = g.clients(ops, n_cl, 20, 400);
    }
    let k = g.r.below(4);
    let j = if g.r.pct(30) { (1, 5000) } else { (0, 0) };
    p.chaos = g.chaos(k, 5000, 800, j);
    p
}

fn c06(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C06", seed);
    if g.r.pct(4) {
        // the whole range of the exponential backoff, with a real (tiny) initial one
        p.profile = "whole backoff".into();
        let fails = 18 + g.r.below(18);
        let max = *g.r.pick(&[None, Some(17), Some(25), Some(33), Some(34)]);
        let mut steps: Vec<Step> = (0..fails).map(|_| Step { ms: 0, yields: 0, out: Out::Fail }).collect();
        steps.push(Step { ms: 0, yields: 0, out: Out::Ok });
        let d = g.data(steps);
        let id = g.new_slot();
        let ops = vec![Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: Ctx { when: When::Now, retry: Some(RetrySpec::Exp { max, ms: -1 }) }, tries: 0, mode: 0 }, Op::Config { ty: 0, cap: 20, tick_ms: 1500 + g.r.below(3000) }];
        p.clients = vec![Client { thread: g.r.pct(50), ops }];
        return p;
    }
    if g.r.pct(2) {
        // counters: hundreds of retries
        p.profile = "many retries".into();
        let max = *g.r.pick(&[None, Some(i32::MAX), Some(127), Some(130), Some(200), Some(256), Some(260)]);
        let fails = 120 + g.r.below(200);
        let mut steps: Vec<Step> = (0..fails).map(|_| Step { ms: 0, yields: 0, out: Out::Fail }).collect();
        steps.push(Step { ms: 0, yields: 0, out: Out::Ok });
        let d = g.data(steps);
        let id = g.new_slot();
        let ms = g.r.below(3) as i64;
        let ops = vec![Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: Ctx { when: When::Now, retry: Some(RetrySpec::Interval { max, ms }) }, tries: 0, mode: 0 }, Op::Config { ty: 0, cap: 20, tick_ms: 1 + g.r.below(6) }];
        p.clients = vec![Client { thread: g.r.pct(50), ops }];
        return p;
    }
    if g.r.pct(4) {
        // intervals from seconds to days
        p.profile = "far retries".into();
        let far = *g.r.pick(&[5_000i64, 45_000, 95_000, 660_000, 7_200_000, 90_000_000, 27 * 86_400_000]);
        let d = g.one(0, 0);
        let id = g.new_slot();
        let mut ops = vec![Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 }];
        ops.push(Op::Config { ty: 0, cap: 20, tick_ms: (far / 500) as u64 + 1 });
        for _ in 0..1 + g.r.below(3) {
            let fails = 1 + g.r.below(3);
            let mut steps: Vec<Step> = (0..fails).map(|_| g.step(100, Out::Fail)).collect();
            steps.push(g.step(50, Out::Ok));
            let d = g.data(steps);
            let ms = far - g.r.below(far as u64 / 8) as i64;
            let max = *g.r.pick(&[None, Some(0), Some(1), Some(2), Some(5)]);
            let retry = Some(if g.r.pct(30) { RetrySpec::Exp { max, ms: ms / 4 } } else { RetrySpec::Interval { max, ms } });
            let id = g.new_slot();
            ops.push(Op::Run { ty: 0, id, auto: false, wait: true, data: d, ctx: Ctx { when: When::Now, retry }, tries: 0, mode: 0 });
        }
        p.clients = vec![Client { thread: g.r.pct(50), ops }];
        return p;
    }
    let mut ops = vec![];
    let n = 1 + g.r.below(12);
    let jumps = g.r.pct(25);
    for _ in 0..n {
        let deep = g.r.pct(6);
        let endless = !deep && g.r.pct(10);
        let own = !deep && g.r.pct(12); // the job type decides itself
        let max = if deep { Some(30 + g.r.below(12) as i32) } else if endless { *g.r.pick(&[None, None, Some(i32::MAX)]) } else { Some(g.r.below(6) as i32) };
        let ms = if deep { 0 } else { *g.r.pick(&[0i64, 1, 50, 57, 150, 700]) };
        let exp = g.r.pct(50);
        let fails = if deep { 33 + g.r.below(15) } else if endless { *g.r.pick(&[3, 4, 5, 30, 70]) } else { g.r.below(8) };
        let ms = if fails > 20 { ms.min(1) } else { ms };
        let exp = exp && !(endless && fails > 20);
        let mut steps: Vec<Step> = (0..fails)
            .map(|_| {
                let o = if own && g.r.pct(50) {
                    Out::Again(*g.r.pick(&[0, 1, 300, 1500]))
                } else if g.r.pct(75) {
                    Out::Fail
                } else {
                    Out::PostFail
                };
                g.step(if fails > 20 { 0 } else { 120 }, o)
            })
            .collect();
        let last = if g.r.pct(25) && !endless { Out::Fail } else if g.r.pct(20) { Out::PostOk } else { Out::Ok };
        steps.push(g.step(80, last));
        let d = g.data(steps);
        let retry = if g.r.pct(88) || deep || endless {
            Some(if exp { RetrySpec::Exp { max, ms } } else { RetrySpec::Interval { max, ms } })
        } else {
            None
        };
        let when = g.when(70, 1500);
        let ty = if own { 3 } else { g.r.below(2) as u8 };
        ops.push(g.run(ty, d, Ctx { when, retry }));
    }
    if g.r.pct(12) {
        ops.push(Op::Config { ty: g.r.below(2) as u8, cap: 20, tick_ms: 1 + g.r.below(4) });
    }
    let n_cl = 1 + g.r.below(3) as usize;
    p.clients = g.clients(ops, n_cl, 30, 300);
    let k = g.r.below(3);
    p.chaos = g.chaos(k, 4000, 500, if jumps { (-4000, 6000) } else { (0, 0) });
    p
}

fn c07(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C07", seed);
    if g.r.pct(2) {
        p.profile = "many repeats".into();
        let max = 110 + g.r.below(170) as i32;
        let steps = (0..4).map(|_| Step { ms: g.r.below(40) as u32, yields: 0, out: if g.r.pct(30) { Out::Fail } else { Out::Ok } }).collect();
        let d = g.data(steps);
        let when = When::Cron { expr: "* * * * * * *".into(), max_repeat: Some(max), end_in_ms: None };
        let ops = vec![g.run(0, d, Ctx { when, retry: None })];
        p.clients = vec![Client { thread: g.r.pct(50), ops }];
        p.settle_ms = max as u64 * 1000 + 6000;
        return p;
    }
    let mut ops = vec![];
    let n = 1 + g.r.below(6);
    let calendar = g.r.pct(25);
    for _ in 0..n {
        let expr = match if calendar && g.r.pct(60) { 100 + g.r.below(7) } else { g.r.below(9) } {
            100 => "0 0 * * * *".to_string(),
            101 => "0 0 0 * * *".to_string(),
            102 => "0 30 9 * * Mon-Fri *".to_string(),
            103 => "0 0 0 1 * * *".to_string(),
            104 => "0 0 12 29 2 * *".to_string(),
            105 => "0 */20 8-18 * * * *".to_string(),
            106 => "15,45 0 0 1,15 Jan,Feb,Mar * 2000-2200".to_string(),
            0..=2 => "* * * * * * *".to_string(),
            3 => "*/2 * * * * * *".to_string(),
            4 => "*/5 * * * * *".to_string(),
            5 => format!("{} * * * * * *", g.r.below(60)),
            6 => {
                // ends with the current year (some bases are seconds before it ends)
                let y = chrono::DateTime::<chrono::Utc>::from_timestamp(p.wall_base_us / 1_000_000, 0).map(|t| t.format("%Y").to_string()).unwrap();
                format!("* * * * * * {y}")
            }
            7 => "0 * * * * * *".to_string(),
            _ => "*/3 * * * * Mon-Sun *".to_string(),
        };
        let max_repeat = if g.r.pct(55) { Some(1 + g.r.below(5) as i32) } else { None };
        let end_in_ms = if g.r.pct(25) { Some(500 + g.r.below(9000) as i64) } else { None };
        let len = 1 + g.r.below(6);
        let steps: Vec<Step> = (0..len)
            .map(|_| {
                let o = if g.r.pct(30) { Out::Fail } else { Out::Ok };
                g.step(*g.r.clone().pick(&[0, 100, 900, 2500]), o)
            })
            .collect();
        let d = g.data(steps);
        let retry = if g.r.pct(35) { Some(rand_retry(g, 4)) } else { None };
        ops.push(g.run(g.r.clone().below(2) as u8, d, Ctx { when: When::Cron { expr, max_repeat, end_in_ms }, retry }));
    }
    let n_cl = 1 + g.r.below(2) as usize;
    p.clients = g.clients(ops, n_cl, 40, 1500);
    let k = g.r.below(3);
    p.chaos = g.chaos(k, 9000, 700, if g.r.clone().pct(40) { (1, 7000) } else { (0, 0) });
    if calendar {
        p.profile = "calendar".into();
        for _ in 0..1 + g.r.below(4) {
            let span = *g.r.pick(&[3_600_000u64, 86_400_000, 40 * 86_400_000, 400 * 86_400_000]);
            p.chaos.push(Chaos::Jump { at_ms: g.r.below(9000), ms: 1 + g.r.below(span) as i64 });
        }
    }
    p.settle_ms = 4000 + g.r.below(9000);
    p
}

/// Cancel, update, resubmit, retry on few jobs from several clients.
fn ops_mix(g: &mut G, seed: u64, prop: &str) -> Plan {
    let mut p = g.base(prop, seed);
    let slots = 1 + g.r.below(4) as u32;
    g.slot = slots;
    let n_cl = 1 + g.r.below(4) as usize;
    let rich = g.r.pct(40); // retry policies and cron jobs too
    let long = *g.r.pick(&[0u64, 80, 300, 1200]);
    let mut submit = |g: &mut G, id: u32, wait: bool| {
        let (steps, ctx) = if rich && g.r.pct(50) {
            let len = 1 + g.r.below(4);
            let steps: Vec<Step> = (0..len)
                .map(|_| {
                    let o = g.out(60);
                    g.step(long, o)
                })
                .collect();
            let when = if g.r.pct(30) { When::Cron { expr: "* * * * * * *".into(), max_repeat: Some(1 + g.r.below(4) as i32), end_in_ms: None } } else { g.when(60, 2000) };
            let retry = if g.r.pct(70) { Some(rand_retry(g, 4)) } else { None };
            (steps, Ctx { when, retry })
        } else {
            let o = g.out(25);
            let s = g.step(long, o);
            let when = g.when(45, 2000);
            (vec![s], Ctx { when, retry: None })
        };
        let data = g.data(steps);
        let mode = if prop == "C10" && g.r.pct(25) {
            1 + g.r.below(3) as u8
        } else if g.r.pct(15) {
            4
        } else {
            0
        };
        Op::Run { ty: 0, id, auto: false, wait: wait || mode != 0, data, ctx, tries: 0, mode }
    };
    let mut clients: Vec<Client> = vec![];
    for c in 0..n_cl {
        let mut ops = vec![];
        if c == 0 {
            for id in 0..slots {
                if g.r.pct(92) {
                    let wait = g.r.pct(85);
                    ops.push(submit(g, id, wait));
                }
            }
            if g.r.pct(30) {
                ops.push(Op::Config { ty: 0, cap: 1 + g.r.below(3) as usize, tick_ms: 5 + g.r.below(200) });
            }
        } else if g.r.pct(70) {
            ops.push(Op::Sleep { ms: g.r.below(60) });
        }
        for _ in 0..2 + g.r.below(9) {
            let id = g.r.below(slots as u64) as u32;
            match g.r.below(6) {
                0 => ops.push(Op::WaitStart { id, ms: g.r.below(800) }),
                1 => ops.push(Op::WaitEnd { id, ms: g.r.below(800) }),
                2..=3 => ops.push(Op::Sleep { ms: g.r.below(*g.r.clone().pick(&[5, 120, 1500])) }),
                _ => {}
            }
            let w: [u64; 5] = match prop {
                "C08" => [55, 10, 15, 10, 10],
                "C09" => [10, 60, 10, 10, 10],
                _ => [15, 5, 40, 35, 5],
            };
            let mut x = g.r.below(100);
            let mut k = 0;
            while x >= w[k] {
                x -= w[k];
                k += 1;
            }
            match k {
                0 => ops.push(Op::Cancel { ty: 0, id }),
                1 => {
                    let len = if rich { 1 + g.r.below(3) } else { 1 };
                    let steps: Vec<Step> = (0..len)
                        .map(|_| {
                            let o = g.out(30);
                            g.step(long, o)
                        })
                        .collect();
                    let data = g.data(steps);
                    let ctx = if g.r.pct(30) { Some(Ctx { when: g.when(50, 1500), retry: None }) } else { None };
                    ops.push(Op::Update { ty: 0, id, data, ctx, how: *g.r.pick(&[0u8, 0, 1, 1, 2]) })
                }
                2 => ops.push(Op::Retry { ty: 0, id }),
                3 => {
                    let wait = g.r.pct(80);
                    ops.push(submit(g, id, wait))
                }
                _ => ops.push(Op::Get { ty: 0, id }),
            }
        }
        clients.push(Client { thread: g.r.pct(60), ops });
    }
    p.clients = clients;
    let k = g.r.below(3);
    p.chaos = g.chaos(k, 3000, 500, (0, 0));
    p.settle_ms = if rich { 9000 } else { 1000 };
    p
}

fn c11(g: &mut G, seed: u64) -> Plan {
    let mut p = ops_mix(g, seed, "C10");
    p.prop = "C11".into();
    let slots: Vec<u32> = all_ops(&p).filter_map(|o| if let Op::Run { id, .. } = o { Some(*id) } else { None }).collect();
    if slots.is_empty() {
        return p;
    }
    for c in p.clients.iter_mut() {
        let mut i = 1;
        while i <= c.ops.len() {
            if g.r.pct(45) {
                c.ops.insert(i, Op::Get { ty: 0, id: *g.r.pick(&slots) });
            }
            i += 1;
        }
        for o in c.ops.iter_mut() {
            if let Op::Run { data, .. } = o {
                for s in data.steps.iter_mut() {
                    if g.r.pct(6) {
                        s.out = g.panic();
                    }
                }
            }
        }
    }
    // a client that only watches
    let mut ops = vec![];
    for _ in 0..10 + g.r.below(30) {
        ops.push(Op::Sleep { ms: g.r.below(150) });
        ops.push(Op::Get { ty: 0, id: *g.r.pick(&slots) });
    }
    p.clients.push(Client { thread: g.r.pct(60), ops });
    p
}

fn c12(g: &mut G, seed: u64) -> Plan {
    let slow = g.r.pct(50);
    let mut p = if g.r.pct(50) {
        let mut p = ops_mix(g, seed, "C10");
        p.profile = "mixed".into();
        p
    } else {
        let mut p = g.base("C12", seed);
        // a burst: more changes at once than a mailbox holds
        let burst = g.r.pct(12);
        let n = if burst { 17 + g.r.below(45) } else { 1 + g.r.below(25) };
        let mut ops = vec![];
        for _ in 0..n {
            let len = 1 + g.r.below(3);
            let steps: Vec<Step> = (0..len)
                .map(|_| {
                    let o = g.out(40);
                    g.step(150, o)
                })
                .collect();
            let d = g.data(steps);
            let when = g.when(if burst { 96 } else { 70 }, 1200);
            let retry = if g.r.pct(30) { Some(rand_retry(g, 3)) } else { None };
            let ty = if burst { 0 } else { g.r.below(2) as u8 };
            let mut op = g.run(ty, d, Ctx { when, retry });
            if let Op::Run { wait, .. } = &mut op {
                *wait &= !burst || g.r.pct(5);
            }
            ops.push(op);
        }
        let n_cl = 1 + g.r.below(3) as usize;
        p.clients = g.clients(ops, n_cl, if burst { 2 } else { 30 }, 300);
        if burst {
            // nobody looks at the mailbox of the plugins for a while
            for _ in 0..g.r.below(4) {
                p.chaos.push(Chaos::Stall { at_ms: g.r.below(700), node: g.r.below(3) as u32, ms: 1 + g.r.below(400) });
            }
        }
        p.profile = if burst { "burst" } else { "stream" }.into();
        p
    };
    p.prop = "C12".into();
    p.actix = true;
    if g.r.pct(25) {
        for c in p.clients.iter_mut() {
            for o in c.ops.iter_mut() {
                if let Op::Run { data, .. } = o {
                    for s in data.steps.iter_mut() {
                        if g.r.pct(12) {
                            s.out = g.panic();
                        }
                    }
                }
            }
        }
    }
    let mut spec = |g: &mut G| PluginSpec {
        before_ms: if slow { g.r.below(60) as u32 } else { 0 },
        after_ms: if slow { g.r.below(60) as u32 } else { 0 },
        status_ms: if slow { g.r.below(40) as u32 } else { 0 },
        panics: if g.r.pct(15) { 1 + g.r.below(6) as u32 } else { 0 },
    };
    for _ in 0..1 + g.r.below(3) {
        let s = spec(g);
        p.plugins.push(s);
    }
    if g.r.pct(4) {
        let ms = *g.r.pick(&[1500, 6000, 12_000, 35_000]);
        match g.r.below(3) {
            0 => p.plugins[0].before_ms = ms,
            1 => p.plugins[0].after_ms = ms,
            _ => p.plugins[0].status_ms = ms / 4,
        }
        p.profile += "+slow hook";
        p.settle_ms += 40 * ms as u64;
    }
    if g.r.pct(35) {
        let s = spec(g);
        let c = g.r.below(p.clients.len() as u64) as usize;
        let at = g.r.below(p.clients[c].ops.len() as u64 + 1) as usize;
        p.clients[c].ops.insert(at, Op::Plugin { spec: s });
    }
    p
}

fn c16(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C16", seed);
    let n = 2 + g.r.below(22);
    let types = 1 + g.r.below(2) as u8;
    let with_ops = g.r.pct(40);
    let mut ops = vec![];
    let mut known: Vec<(u32, u8)> = vec![];
    for _ in 0..n {
        let ty = g.r.below(types as u64) as u8;
        let d = g.one(150, 25);
        let when = g.when(70, 2500);
        let tries = *g.r.pick(&[0u8, 0, 3, 40]);
        known.push((g.slot, ty));
        let mut op = g.run(ty, d, Ctx { when, retry: None });
        if let Op::Run { auto, tries: t, wait, .. } = &mut op {
            *auto = false;
            *wait = true;
            *t = tries;
        }
        ops.push(op);
        if with_ops && g.r.pct(35) {
            let (id, ty) = *g.r.pick(&known);
            let data = g.one(100, 20);
            let when = g.when(60, 800);
            ops.push(match g.r.below(6) {
                0 => Op::Cancel { ty, id },
                1 => Op::Update { ty, id, data, ctx: None, how: 0 },
                2 => Op::Update { ty, id, data, ctx: Some(Ctx { when, retry: None }), how: 0 },
                3 => Op::Retry { ty, id },
                4 => Op::Run { ty, id, auto: false, wait: true, data, ctx: Ctx { when, retry: None }, tries: *g.r.pick(&[0u8, 0, 2]), mode: 0 },
                _ => Op::Get { ty, id },
            });
        }
    }
    let outage = g.r.pct(5); // nothing works for a long time
    let until = if outage { 12_000 + g.r.below(80_000) } else { 500 + g.r.below(4500) };
    let cap = if g.r.pct(60) { 1 + g.r.below(4) as usize } else { 20 };
    let n_cl = 1 + g.r.below(3) as usize;
    p.clients = g.clients(ops, n_cl, 40, 400);
    // the queue exists before the faults begin, with a small limit
    let mut head = vec![];
    for ty in 0..types {
        let d = g.one(20, 0);
        let id = g.new_slot();
        head.push(Op::Run { ty, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
        if cap != 20 {
            head.push(Op::Config { ty, cap, tick_ms: 20 + g.r.below(120) });
        }
    }
    for h in head.into_iter().rev() {
        p.clients[0].ops.insert(0, h);
    }
    // afterwards, exactly as many long jobs as the limit allows must run at once
    for ty in 0..types {
        let mut tail = vec![Op::Sleep { ms: until + 500 + g.r.below(1500) }];
        for _ in 0..cap.min(6) {
            let st = Step { ms: 800 + g.r.below(800) as u32, yields: 0, out: Out::Ok };
            let d = g.data(vec![st]);
            let id = g.new_slot();
            tail.push(Op::Run { ty, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
        }
        p.clients.push(Client { thread: g.r.pct(50), ops: tail });
    }
    p.faults = Faults::Random {
        seed,
        err_pm: if outage { 1000 } else { *g.r.pick(&[20, 60, 150, 300, 600]) },
        slow_pm: *g.r.pick(&[0, 0, 40]),
        net_pm: 0,
        from_ms: 5 + g.r.below(400),
        until_ms: until,
        burst: *g.r.pick(&[0, 3, 30]),
        // sometimes a single failure or a few: every later call of the same pass succeeds
        max: if outage { 0 } else { *g.r.pick(&[0, 0, 1, 2, 5]) },
    };
    if outage {
        p.profile = "outage".into();
    }
    let k = g.r.below(2);
    p.chaos = g.chaos(k, 4000, 500, (0, 0));
    p.settle_ms = 4000;
    p
}

fn c17(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C17", seed);
    let n = 2 + g.r.below(12);
    let types = 1 + g.r.below(2) as u8;
    let mut ops = vec![];
    let mut known: Vec<(u32, u8)> = vec![];
    let with_ops = g.r.pct(45);
    for _ in 0..n {
        let ty = g.r.below(types as u64) as u8;
        let len = 1 + g.r.below(3);
        let steps: Vec<Step> = (0..len)
            .map(|_| {
                let o = g.out(45);
                g.step(400, o)
            })
            .collect();
        let d = g.data(steps);
        let when = match g.r.below(10) {
            0 => When::Cron { expr: "* * * * * * *".into(), max_repeat: Some(1 + g.r.below(4) as i32), end_in_ms: None },
            _ => g.when(50, 4000),
        };
        let retry = if g.r.pct(40) { Some(rand_retry(g, 3)) } else { None };
        known.push((g.slot, ty));
        let mut op = g.run(ty, d, Ctx { when, retry });
        if let Op::Run { auto, wait, .. } = &mut op {
            *auto = false;
            *wait = g.r.pct(85);
        }
        ops.push(op);
        if with_ops && g.r.pct(40) {
            let (id, ty) = *g.r.pick(&known);
            let data = g.one(100, 20);
            ops.push(match g.r.below(5) {
                0..=1 => Op::Cancel { ty, id },
                2 => Op::Update { ty, id, data, ctx: None, how: 0 },
                3 => Op::Retry { ty, id },
                _ => {
                    let when = g.when(50, 2000);
                    Op::Run { ty, id, auto: false, wait: true, data, ctx: Ctx { when, retry: None }, tries: 0, mode: 0 }
                }
            });
        }
    }
    let n_cl = 1 + g.r.below(3) as usize;
    p.clients = g.clients(ops, n_cl, 45, 400);
    let crashes = if g.r.pct(80) { 1 } else { 2 };
    for _ in 0..crashes {
        let at = match g.r.below(10) {
            0..=4 => CrashAt::Call(1 + g.r.below(*g.r.clone().pick(&[30, 120, 600])), g.r.below(2) as u8),
            5..=7 => CrashAt::Status(g.r.below(5) as u8, 1 + g.r.below(6) as u32, g.r.below(2) as u8),
            _ => CrashAt::Step(50 + g.r.below(3000)),
        };
        p.crashes.push(at);
        // the queues are used again
        let mut ops = vec![Op::Sleep { ms: g.r.below(300) }];
        if g.r.pct(15) {
            // before they are
            for _ in 0..1 + g.r.below(2) {
                let (id, ty) = *g.r.pick(&known);
                let data = g.one(100, 20);
                ops.push(match g.r.below(4) {
                    0..=1 => Op::Update { ty, id, data, ctx: None, how: 0 },
                    2 => Op::Cancel { ty, id },
                    _ => Op::Retry { ty, id },
                });
            }
        }
        for ty in 0..types {
            let d = g.one(20, 0);
            let id = g.new_slot();
            ops.push(Op::Run { ty, id, auto: false, wait: true, data: d, ctx: G::now(), tries: 0, mode: 0 });
        }
        p.after.push(vec![Client { thread: g.r.pct(50), ops }]);
    }
    let k = g.r.below(2);
    p.chaos = g.chaos(k, 2000, 300, (0, 0));
    p.settle_ms = 6000;
    p
}

fn c18(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C18", seed);
    if g.r.pct(3) {
        // jobs that fail and are tried again at once, over and over, in all the slots there are
        p.profile = "greedy".into();
        let cap = 1 + g.r.below(3);
        let d = g.one(0, 0);
        let mut ops = vec![g.run(0, d, G::now()), Op::Config { ty: 0, cap: cap as usize, tick_ms: 10 + g.r.below(90) }];
        for i in 0..cap + 2 + g.r.below(6) {
            let n = if i < cap { 150 + g.r.below(100) } else { 1 };
            let mut steps: Vec<Step> = (1..n).map(|_| Step { ms: 0, yields: 0, out: Out::Fail }).collect();
            steps.push(Step { ms: 0, yields: 0, out: Out::Ok });
            let d = g.data(steps);
            let retry = (i < cap).then_some(RetrySpec::Interval { max: None, ms: 0 });
            if i == cap {
                ops.push(Op::Sleep { ms: g.r.below(400) });
            }
            ops.push(g.run(0, d, Ctx { when: When::Now, retry }));
        }
        p.clients = vec![Client { thread: g.r.pct(50), ops }];
        return p;
    }
    let n = 4 + g.r.below(30);
    let types = 1 + g.r.below(4) as u8;
    let mut ops = vec![];
    let (pp, hp) = (*g.r.pick(&[10u64, 30, 60]), *g.r.pick(&[0u64, 5, 15]));
    let manual = g.r.pct(40);
    let mut known: Vec<(u32, u8)> = vec![];
    for k in 0..n {
        let ty = g.r.below(types as u64) as u8;
        // some are tried several times, and may go wrong in a later attempt
        let retry = if g.r.pct(20) { Some(rand_retry(g, 3)) } else { None };
        let len = if retry.is_some() || g.r.pct(20) { 1 + g.r.below(3) } else { 1 };
        let steps = (0..len)
            .map(|i| {
                let o = if g.r.pct(pp) {
                    g.panic()
                } else if g.r.pct(hp) {
                    Out::Hang
                } else if i + 1 < len && g.r.pct(60) {
                    Out::Fail
                } else {
                    g.out(20)
                };
                g.step(200, o)
            })
            .collect();
        let d = g.data(steps);
        let when = g.when(75, 1500);
        known.push((g.slot, ty));
        let op = g.run(ty, d, Ctx { when, retry });
        ops.push(op);
        if g.r.pct(15) {
            let (id, ty) = *g.r.pick(&known);
            ops.push(Op::Get { ty, id });
        }
        if manual && g.r.pct(20) {
            let (id, ty) = *g.r.pick(&known);
            ops.push(Op::Retry { ty, id });
        }
        if k > 1 && g.r.pct(8) {
            ops.push(Op::Config { ty, cap: *g.r.pick(&[0usize, 1, 2, 3, 20]), tick_ms: 10 + g.r.below(200) });
        }
    }
    if g.r.pct(12) {
        p.profile = "unreadable".into();
        for n in 0..1 + g.r.below(25) as u32 {
            let at = 1 + g.r.below(ops.len() as u64) as usize;
            ops.insert(at, Op::Spoil { ty: g.r.below(types as u64) as u8, n, kind: g.r.below(6) as u8 });
        }
    }
    // nobody is kept out for good
    for ty in 0..types {
        ops.push(Op::Config { ty, cap: g.cap(40), tick_ms: 100 });
    }
    let n_cl = 1 + g.r.below(3) as usize;
    p.clients = g.clients(ops, n_cl, 35, 300);
    let k = g.r.below(2);
    p.chaos = g.chaos(k, 3000, 500, (0, 0));
    p
}

fn c19(g: &mut G, seed: u64) -> Plan {
    let mut p = g.base("C19", seed);
    let n = 1 + g.r.below(16);
    let mut ops = vec![];
    for k in 0..n as u32 {
        let u = k as i64 * 1000 + g.r.below(900) as i64;
        let s = |g: &mut G, t: &str| format!("{t}{u}{}", g.r.pick(&PAYLOADS));
        let args = match g.r.below(if cfg!(feature = "mixed") { 7 } else { 4 }) {
            0 if g.r.pct(20) => MacroArgs::Add(0, u, 0),
            0 => MacroArgs::Add(u, -u, i64::MAX - u),
            1 => {
                let (a, b) = (s(g, "a"), s(g, "b"));
                MacroArgs::Swap(a, b)
            }
            2 => MacroArgs::Many([u as u64, 1, u64::MAX, 3, u as u64 + 4, 5, 6]),
            3 => MacroArgs::One(s(g, "o")),
            4 if g.r.pct(20) => MacroArgs::Mixed(0, Some(u.to_string()), vec![], false),
            5 if g.r.pct(20) => MacroArgs::Tup((u as i32, String::new()), Default::default()),
            6 => MacroArgs::Named(["m", "j", "i", "n"].map(|t| s(g, t)), [u, u + 1, u + 2, u + 3]),
            4 => {
                let name = if g.r.pct(70) { Some(s(g, "n")) } else { None };
                MacroArgs::Mixed(g.r.below(256) as u8, name, vec![u as i32, -7, i32::MIN], g.r.pct(50))
            }
            _ => {
                let mut m = std::collections::BTreeMap::new();
                m.insert(s(g, "k"), u as f64 + 0.5);
                m.insert("z".to_string(), -1.25);
                MacroArgs::Tup((u as i32, s(g, "t")), m)
            }
        };
        let ctx = if g.r.pct(50) {
            let when = if g.r.pct(20) { When::Cron { expr: "* * * * * * *".into(), max_repeat: Some(1 + g.r.below(3) as i32), end_in_ms: None } } else { g.when(30, 2000) };
            Some(Ctx { when, retry: if g.r.pct(25) { Some(rand_retry(g, 3)) } else { None } })
        } else {
            None
        };
        ops.push(Op::Macro { n: k, args, wait: g.r.pct(60), ctx });
    }
    let n_cl = 1 + g.r.below(3) as usize;
    p.clients = g.clients(ops, n_cl, 30, 300);
    p.settle_ms = 5000;
    p
}
