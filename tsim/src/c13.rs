//! C13: threads starting the engine, looking it up and submitting to it, all at once.
use crate::*;
use aj::export::core::actix_rt;
use aj::export::core::mem::InMemory;
use aj::export::core::types::{Backend, QueueDirection};
use aj::export::core::Error;
use aj::{BackgroundJob, Executable, AJ};
use std::future::Future;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rt {
    Plain,
    Actix,
    Tokio,
    /// an actix runtime that ends with the thread's operations
    ActixEnds,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Start,
    QuickStart,
    Lookup,
    /// submit a job of one of two types, if the engine is known to be started
    Submit(u8),
    JustRun(u8),
    /// submit a job and ask for it
    SubmitGet(u8),
    Yield,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Th {
    pub rt: Rt,
    pub ops: Vec<Op>,
}

/// What all threads recorded (touched by the holder of the baton only).
#[derive(Default)]
struct W {
    started: Vec<(u64, u64, Addr)>, // invoked, returned, address
    lookups: Vec<(u64, u64, Option<Addr>)>,
    quick: u64,
    done: usize,
    alive: Vec<i64>,          // number of backends not dropped, by id
    pushes: Vec<(usize, String)>,
    must: Vec<String>,
    ran: Vec<String>,
}
type Addr = actix::Addr<AJ>;
static mut WW: *mut W = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn w() -> &'static mut W {
    unsafe { &mut *WW }
}

/// An in-memory backend that says which instance is in use.
struct Counting {
    id: usize,
    inner: InMemory,
}
impl Drop for Counting {
    fn drop(&mut self) {
        w().alive[self.id] -= 1;
    }
}
impl Backend for Counting {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> {
        w().pushes.push((self.id, i.to_string()));
        self.inner.queue_push(q, i)
    }
    fn queue_move(&self, a: &str, b: &str, n: usize, f: QueueDirection, t: QueueDirection) -> Result<Vec<String>, Error> {
        self.inner.queue_move(a, b, n, f, t)
    }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> {
        self.inner.queue_remove(q, i)
    }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.inner.queue_get(q, n, d)
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.inner.queue_count(q)
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.inner.storage_upsert(h, k, v)
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.inner.storage_get(h, k)
    }
}

macro_rules! job {
    ($T:ident) => {
        #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
        pub struct $T {
            pub name: String,
        }
        #[aj::async_trait]
        impl Executable for $T {
            type Output = ();
            async fn execute(&mut self, _: &aj::JobContext) {
                w().ran.push(self.name.clone());
                log(format!("{} runs", self.name));
            }
        }
    };
}
job!(JobA);
job!(JobB);
job!(JobC);
job!(JobD);
job!(JobE);
job!(JobF);
macro_rules! with_type {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty { 0 => { type $T = JobA; $e } 1 => { type $T = JobB; $e } 2 => { type $T = JobC; $e } 3 => { type $T = JobD; $e } 4 => { type $T = JobE; $e } _ => { type $T = JobF; $e } }
    };
}

/// A minimal executor for threads without a runtime.
fn block_on<F: Future>(f: F) -> F::Output {
    struct W(std::thread::Thread);
    impl std::task::Wake for W {
        fn wake(self: std::sync::Arc<Self>) {
            self.0.unpark()
        }
    }
    let mut f = Box::pin(f);
    let wk = std::task::Waker::from(std::sync::Arc::new(W(std::thread::current())));
    let mut cx = std::task::Context::from_waker(&wk);
    loop {
        match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => return v,
            _ => std::thread::park(),
        }
    }
}

async fn submit(ty: u8, name: String) -> Result<String, Error> {
    with_type!(ty, J => J { name }.job().run().await)
}

async fn client(n: usize, ops: &[Op]) {
    for (k, o) in ops.iter().enumerate() {
        let inv = stamp();
        match o {
            Op::Start | Op::QuickStart => {
                let r = std::panic::catch_unwind(|| {
                    if *o == Op::Start {
                        let id = w().alive.len();
                        w().alive.push(1);
                        AJ::start(Counting { id, inner: InMemory::default() })
                    } else {
                        w().quick += 1;
                        AJ::quick_start()
                    }
                });
                let ret = stamp();
                match r {
                    Ok(a) => {
                        log(format!("thread {n}: {o:?} [{inv}..{ret}] returned"));
                        w().started.push((inv, ret, a));
                    }
                    Err(_) => bad(format!("thread {n}: {o:?} panicked")),
                }
            }
            Op::Lookup => {
                let r = aj::export::core::get_aj_address();
                let ret = stamp();
                log(format!("thread {n}: look-up [{inv}..{ret}] = {}", if r.is_some() { "an engine" } else { "none" }));
                w().lookups.push((inv, ret, r));
            }
            Op::Submit(ty) | Op::SubmitGet(ty) => {
                if w().started.is_empty() {
                    continue;
                }
                let name = format!("job {n}.{k}");
                let r = submit(*ty, name.clone()).await;
                log(format!("thread {n}: submit {name}: {}", if r.is_ok() { "ok" } else { "error" }));
                match r {
                    Ok(id) => {
                        w().must.push(name.clone());
                        if matches!(o, Op::SubmitGet(_)) {
                            let found = with_type!(*ty, J => AJ::get_job::<J>(&id).await.map(|j| j.data.name));
                            log(format!("thread {n}: get {name}: {found:?}"));
                            if found.as_ref() != Some(&name) {
                                bad(format!("thread {n}: {name} was accepted but a query found {found:?}"));
                            }
                        }
                    }
                    Err(_) => bad(format!("thread {n}: submitting {name} after the engine was started failed")),
                }
            }
            Op::JustRun(ty) => {
                let known = !w().started.is_empty();
                let name = format!("job {n}.{k}");
                with_type!(*ty, J => J { name: name.clone() }.job().just_run());
                log(format!("thread {n}: just run {name}{}", if known { "" } else { " (perhaps not started yet)" }));
                if known {
                    w().must.push(name);
                }
            }
            Op::Yield => std::thread::sleep(Duration::from_micros(1)),
        }
    }
}

pub fn run(ths: &[Th]) {
    unsafe { WW = Box::into_raw(Box::default()) };
    for (n, t) in ths.iter().enumerate() {
        let t = t.clone();
        std::thread::spawn(move || {
            match t.rt {
                Rt::Plain => block_on(client(n, &t.ops)),
                // an application's own runtime goes on: plugins live in it
                Rt::Actix => actix_rt::System::new().block_on(async {
                    client(n, &t.ops).await;
                    w().done += 1;
                    std::future::pending::<()>().await;
                }),
                Rt::ActixEnds => actix_rt::System::new().block_on(client(n, &t.ops)),
                Rt::Tokio => tokio::runtime::Builder::new_current_thread().build().expect("runtime").block_on(client(n, &t.ops)),
            }
            w().done += 1;
        });
    }
    for _ in 0..1000 {
        if w().done == ths.len() {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if w().done < ths.len() {
        bad("a start, look-up or submission did not return within 10 s".into());
    }
    // afterwards: the engine is there and works
    if !w().started.is_empty() {
        let inv = stamp();
        let a = aj::export::core::get_aj_address();
        let ret = stamp();
        w().lookups.push((inv, ret, a.clone()));
        if a.is_some() {
            for ty in 0..2u8 {
                let name = format!("last {ty}");
                match block_on(submit(ty, name.clone())) {
                    Ok(_) => w().must.push(name),
                    Err(_) => bad("submitting at the end failed".into()),
                }
            }
        }
        for _ in 0..100 {
            if w().must.iter().all(|m| w().ran.contains(m)) {
                break;
            }
            std::thread::sleep(Duration::from_millis(100));
        }
        // time for anything that runs twice
        std::thread::sleep(Duration::from_millis(500));
    }
    unsafe { ts_end() };
    let w = w();
    if let Some((_, _, a)) = w.started.first() {
        if w.started.iter().any(|s| s.2 != *a) {
            bad("the starts returned different engines".into());
        }
        for (inv, _, l) in &w.lookups {
            match l {
                None => {
                    if w.started.iter().any(|s| s.1 < *inv) {
                        bad("a look-up after a start had returned found no engine".into());
                    }
                }
                Some(x) => {
                    if x != a {
                        bad("a look-up found another engine than the one the starts returned".into());
                    }
                }
            }
        }
        let alive: Vec<usize> = (0..w.alive.len()).filter(|i| w.alive[*i] > 0).collect();
        if alive.len() > 1 {
            bad(format!("{} backends are in use by engines", alive.len()));
        }
        if alive.is_empty() && w.quick == 0 {
            bad("no started engine kept its backend".into());
        }
        let mut used: Vec<usize> = w.pushes.iter().map(|p| p.0).collect();
        used.sort();
        used.dedup();
        if used.len() > 1 {
            bad("submissions went to different backends".into());
        }
        for m in &w.must {
            let k = w.ran.iter().filter(|r| *r == m).count();
            if k != 1 {
                bad(format!("{m} ran {k} times"));
            }
        }
    } else if w.lookups.iter().any(|l| l.2.is_some()) && ths.iter().all(|t| !t.ops.iter().any(|o| matches!(o, Op::Start | Op::QuickStart))) {
        bad("a look-up found an engine that nobody started".into());
    }
    for t in ths {
        for o in &t.ops {
            count(match o { Op::Start => "start", Op::QuickStart => "quick_start", Op::Lookup => "look-up", Op::Submit(_) => "submit", Op::JustRun(_) => "just_run", Op::SubmitGet(_) => "submit and query", Op::Yield => "pause" });
        }
        count(match t.rt { Rt::Plain => "thread without runtime", Rt::Actix => "thread with actix runtime", Rt::Tokio => "thread with tokio runtime", Rt::ActixEnds => "thread with an actix runtime that ends" });
    }
    for x in &w.started {
        for y in &w.started {
            if x.0 < y.0 && y.0 < x.1 {
                count("overlapping pairs of starts");
            }
        }
    }
}

pub fn gen(r: &mut Rng) -> Vec<Th> {
    let n = 2 + r.below(3);
    let quick = r.chance(1, 4);
    let work = r.chance(1, 2);
    let types = if r.chance(1, 2) { 2 } else { 6 };
    let more = if r.chance(1, 3) { 4 } else { 0 };
    let mut v = vec![];
    for i in 0..n {
        let rt = match r.below(6) { 0..=2 => Rt::Plain, 3 => Rt::Actix, 4 => if r.chance(1, 2) { Rt::Actix } else { Rt::ActixEnds }, _ => Rt::Tokio };
        let mut ops = vec![];
        if r.chance(1, 4) {
            ops.push(Op::Yield);
        }
        let st = |r: &mut Rng| if quick && r.chance(1, 2) { Op::QuickStart } else { Op::Start };
        if i < 2 || r.chance(1, 2) {
            ops.push(st(r));
            if r.chance(1, 2) {
                ops.push(Op::Lookup);
            }
            if r.chance(1, 5) {
                ops.push(st(r));
            }
        } else {
            for _ in 0..1 + r.below(3) {
                ops.push(Op::Lookup);
            }
        }
        if work {
            for _ in 0..more + r.below(3) {
                ops.push(if r.chance(1, 3) { Op::SubmitGet(r.below(types) as u8) } else if r.chance(1, 2) { Op::Submit(r.below(types) as u8) } else { Op::JustRun(r.below(types) as u8) });
            }
        }
        v.push(Th { rt, ops });
    }
    v
}
