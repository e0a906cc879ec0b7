//! Stand-in for actix-rt: same API, one OS thread, and a scheduler that decides every step.
//!
//! Each `Arbiter` (a thread in the real crate) is a *node*; every task spawned on it is a real tokio
//! local task wrapped in a gate that only lets it be polled when the scheduler grants the step. Time is
//! tokio's paused clock: when nothing can run, it jumps to the next timer.

#[cfg(all(feature = "macros", not(test)))]
pub use actix_macros::main;
#[cfg(feature = "macros")]
pub use actix_macros::test;

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub use tokio::pin;
pub use tokio::task::JoinHandle;
use tokio::task::{AbortHandle, LocalSet};

pub mod time {
    pub use tokio::time::{
        interval, interval_at, sleep, sleep_until, timeout, Instant, Interval, Sleep, Timeout,
    };
}
pub mod task {
    pub use tokio::task::{spawn_blocking, yield_now, JoinError, JoinHandle};
}
pub mod net {
    pub use tokio::net::*;
}
pub mod signal {
    #[cfg(unix)]
    pub mod unix {
        pub use tokio::signal::unix::*;
    }
    pub use tokio::signal::ctrl_c;
}

type BoxSend = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Node {
    system: Option<System>,
    alive: bool,
    stalled_until_ns: u64,
    aborts: Vec<AbortHandle>,
    tasks: u64,
    name: String,
}

#[derive(Default)]
struct Global {
    nodes: Vec<Node>,
    injector: Vec<(usize, BoxSend)>,
    ready: Vec<Arc<Shared>>,
    sched_waker: Option<Waker>,
    systems: usize,
}

static G: Mutex<Option<Global>> = Mutex::new(None);
static STEPS: AtomicU64 = AtomicU64::new(0);
static MAX_STEPS: AtomicU64 = AtomicU64::new(u64::MAX);
static LIMIT_HIT: AtomicBool = AtomicBool::new(false);
static GRANTED: AtomicBool = AtomicBool::new(false);
static STEP_HOOK: Mutex<Option<fn(u64)>> = Mutex::new(None);
static NEXT_ARB: AtomicUsize = AtomicUsize::new(0);

fn g<R>(f: impl FnOnce(&mut Global) -> R) -> R {
    let mut l = G.lock().unwrap_or_else(|e| e.into_inner());
    f(l.get_or_insert_with(Global::default))
}

thread_local! {
    static CURRENT: RefCell<Option<System>> = const { RefCell::new(None) };
    static CURRENT_NODE: Cell<Option<usize>> = const { Cell::new(None) };
}

fn new_node(system: Option<System>, name: String) -> usize {
    g(|g| {
        g.nodes.push(Node { system, alive: true, stalled_until_ns: 0, aborts: vec![], tasks: 0, name });
        g.nodes.len() - 1
    })
}
fn kill_node(node: usize) {
    let (aborts, dropped): (Vec<_>, Vec<_>) = g(|g| {
        g.nodes[node].alive = false;
        let a = std::mem::take(&mut g.nodes[node].aborts);
        let mut d = vec![];
        let mut i = 0;
        while i < g.injector.len() {
            if g.injector[i].0 == node { d.push(g.injector.remove(i)); } else { i += 1; }
        }
        (a, d)
    });
    drop(dropped);
    for a in aborts {
        a.abort();
    }
}

// ------------------------------------------------------------------ gated tasks

struct Shared {
    node: usize,
    seq: u64,
    queued: AtomicBool,
    granted: AtomicBool,
    outer: Mutex<Option<Waker>>,
    done: AtomicBool,
}

fn make_ready(s: &Arc<Shared>) {
    if s.done.load(SeqCst) || s.queued.swap(true, SeqCst) {
        return;
    }
    let w = g(|g| {
        g.ready.push(s.clone());
        g.sched_waker.clone()
    });
    if let Some(w) = w {
        w.wake();
    }
}

impl Wake for Shared {
    fn wake(self: Arc<Self>) {
        make_ready(&self);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        make_ready(self);
    }
}

fn new_shared(node: usize) -> Arc<Shared> {
    let seq = g(|g| {
        g.nodes[node].tasks += 1;
        g.nodes[node].tasks
    });
    Arc::new(Shared {
        node,
        seq,
        queued: AtomicBool::new(false),
        granted: AtomicBool::new(false),
        outer: Mutex::new(None),
        done: AtomicBool::new(false),
    })
}

struct Gate<F> {
    inner: Pin<Box<F>>,
    shared: Arc<Shared>,
}

/// Enters a node for the duration of one poll (also when it panics).
struct Enter {
    prev_sys: Option<System>,
    prev_node: Option<usize>,
}
impl Enter {
    fn new(node: usize) -> Self {
        let sys = g(|g| g.nodes[node].system.clone());
        Enter {
            prev_sys: CURRENT.with(|c| std::mem::replace(&mut *c.borrow_mut(), sys)),
            prev_node: CURRENT_NODE.with(|c| c.replace(Some(node))),
        }
    }
}
impl Drop for Enter {
    fn drop(&mut self) {
        CURRENT.with(|c| *c.borrow_mut() = self.prev_sys.take());
        CURRENT_NODE.with(|c| c.set(self.prev_node));
        GRANTED.store(false, SeqCst);
        if let Some(w) = g(|g| g.sched_waker.clone()) {
            w.wake();
        }
    }
}

impl<F: Future> Future for Gate<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        *self.shared.outer.lock().unwrap() = Some(cx.waker().clone());
        if !self.shared.granted.swap(false, SeqCst) {
            return Poll::Pending;
        }
        let shared = self.shared.clone();
        let _e = Enter::new(shared.node);
        let waker = Waker::from(shared.clone());
        let mut icx = Context::from_waker(&waker);
        let r = self.inner.as_mut().poll(&mut icx);
        if r.is_ready() {
            shared.done.store(true, SeqCst);
        }
        r
    }
}
impl<F> Drop for Gate<F> {
    fn drop(&mut self) {
        self.shared.done.store(true, SeqCst);
        // Aborted (or finished) while a grant was pending: give the step back.
        if self.shared.granted.swap(false, SeqCst) {
            GRANTED.store(false, SeqCst);
            if let Some(w) = g(|g| g.sched_waker.clone()) {
                w.wake();
            }
        }
    }
}

fn spawn_on<F>(node: usize, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let shared = new_shared(node);
    let h = tokio::task::spawn_local(tokio::task::unconstrained(Gate { inner: Box::pin(f), shared: shared.clone() }));
    let alive = g(|g| {
        let n = &mut g.nodes[node];
        if n.aborts.len() > 64 {
            n.aborts.retain(|a| !a.is_finished());
        }
        n.aborts.push(h.abort_handle());
        n.alive
    });
    if alive {
        make_ready(&shared);
    } else {
        h.abort();
    }
    h
}

#[track_caller]
pub fn spawn<Fut>(f: Fut) -> JoinHandle<Fut::Output>
where
    Fut: Future + 'static,
    Fut::Output: 'static,
{
    let node = CURRENT_NODE.with(|c| c.get()).expect("actix_rt::spawn outside of a runtime");
    spawn_on(node, f)
}

// ------------------------------------------------------------------ scheduler

struct Sched<F: Future> {
    main: Pin<Box<F>>,
    shared: Arc<Shared>,
    start: tokio::time::Instant,
    stall_timer: Option<Pin<Box<tokio::time::Sleep>>>,
    armed_ns: u64,
}

impl<F: Future> Future for Sched<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let this = unsafe { self.as_mut().get_unchecked_mut() };
        g(|g| g.sched_waker = Some(cx.waker().clone()));
        loop {
            let now = this.start.elapsed().as_nanos() as u64;
            detsim::tick(now);
            if GRANTED.load(SeqCst) {
                return Poll::Pending;
            }
            // start what other nodes asked for
            loop {
                let next = g(|g| if g.injector.is_empty() { None } else { Some(g.injector.remove(0)) });
                match next {
                    Some((node, fut)) => {
                        let _ = spawn_on(node, fut);
                    }
                    None => break,
                }
            }
            // candidates
            let (cands, next_unstall): (Vec<Arc<Shared>>, u64) = g(|g| {
                g.ready.retain(|s| !s.done.load(SeqCst));
                let mut min = u64::MAX;
                let mut v = vec![];
                for s in &g.ready {
                    let n = &g.nodes[s.node];
                    if !n.alive {
                        continue;
                    }
                    if n.stalled_until_ns > now {
                        min = min.min(n.stalled_until_ns);
                        continue;
                    }
                    v.push(s.clone());
                }
                (v, min)
            });
            if cands.is_empty() {
                if next_unstall != u64::MAX {
                    if this.armed_ns != next_unstall || this.stall_timer.is_none() {
                        this.armed_ns = next_unstall;
                        this.stall_timer = Some(Box::pin(tokio::time::sleep_until(
                            this.start + std::time::Duration::from_nanos(next_unstall),
                        )));
                    }
                    if this.stall_timer.as_mut().unwrap().as_mut().poll(cx).is_ready() {
                        this.stall_timer = None;
                        continue;
                    }
                }
                return Poll::Pending;
            }
            let names: Vec<(usize, u64)> = cands.iter().map(|s| (s.node, s.seq)).collect();
            let i = detsim::choose(&names);
            let s = cands[i].clone();
            let steps = STEPS.fetch_add(1, SeqCst) + 1;
            if steps > MAX_STEPS.load(SeqCst) {
                LIMIT_HIT.store(true, SeqCst);
            }
            let hook = *STEP_HOOK.lock().unwrap();
            if let Some(h) = hook {
                h(steps);
            }
            s.queued.store(false, SeqCst);
            g(|g| {
                if let Some(p) = g.ready.iter().position(|x| Arc::ptr_eq(x, &s)) {
                    g.ready.remove(p);
                }
            });
            if Arc::ptr_eq(&s, &this.shared) {
                let _e = Enter::new(s.node);
                let waker = Waker::from(s.clone());
                let mut icx = Context::from_waker(&waker);
                match this.main.as_mut().poll(&mut icx) {
                    Poll::Ready(v) => return Poll::Ready(v),
                    Poll::Pending => continue,
                }
            }
            GRANTED.store(true, SeqCst);
            s.granted.store(true, SeqCst);
            let w = s.outer.lock().unwrap().clone();
            if let Some(w) = w {
                w.wake();
            }
            return Poll::Pending;
        }
    }
}

// ------------------------------------------------------------------ System / Arbiter

#[derive(Clone, Debug)]
pub struct System {
    id: usize,
    arbiter_handle: ArbiterHandle,
}

impl System {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> SystemRunner {
        let id = g(|g| {
            g.systems += 1;
            g.systems
        });
        let node = new_node(None, format!("system:{id}"));
        let sys = System { id, arbiter_handle: ArbiterHandle { node } };
        g(|g| g.nodes[node].system = Some(sys.clone()));
        System::set_current(sys);
        SystemRunner { node }
    }
    pub fn with_tokio_rt<F>(_: F) -> SystemRunner
    where
        F: FnOnce() -> tokio::runtime::Runtime,
    {
        Self::new()
    }
    pub fn current() -> System {
        Self::try_current().expect("System is not running")
    }
    pub fn try_current() -> Option<System> {
        CURRENT.with(|c| c.borrow().clone())
    }
    pub fn arbiter(&self) -> &ArbiterHandle {
        &self.arbiter_handle
    }
    pub fn is_registered() -> bool {
        Self::try_current().is_some()
    }
    #[doc(hidden)]
    pub fn set_current(sys: System) {
        CURRENT.with(|c| *c.borrow_mut() = Some(sys));
    }
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn stop(&self) {
        self.stop_with_code(0)
    }
    pub fn stop_with_code(&self, _code: i32) {}
}

#[must_use = "A SystemRunner does nothing unless `run` is called."]
#[derive(Debug)]
pub struct SystemRunner {
    node: usize,
}

impl SystemRunner {
    pub fn run(self) -> io::Result<()> {
        self.block_on(std::future::pending::<()>());
        Ok(())
    }
    pub fn run_with_code(self) -> io::Result<i32> {
        self.run().map(|_| 0)
    }
    #[track_caller]
    pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
        run_sim(self.node, fut)
    }
}
impl Drop for SystemRunner {
    fn drop(&mut self) {
        // In the real crate the runner owns the system arbiter's event loop.
        kill_node(self.node);
    }
}

fn run_sim<F: Future>(node: usize, fut: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let local = LocalSet::new();
    let shared = new_shared(node);
    make_ready(&shared);
    local.block_on(&rt, async move {
        let s = Sched {
            main: Box::pin(fut),
            shared,
            start: tokio::time::Instant::now(),
            stall_timer: None,
            armed_ns: 0,
        };
        tokio::task::unconstrained(s).await
    })
}

#[derive(Debug, Clone)]
pub struct ArbiterHandle {
    node: usize,
}

impl ArbiterHandle {
    pub fn spawn<Fut>(&self, future: Fut) -> bool
    where
        Fut: Future<Output = ()> + Send + 'static,
    {
        inject(self.node, Box::pin(future))
    }
    pub fn spawn_fn<F>(&self, f: F) -> bool
    where
        F: FnOnce() + Send + 'static,
    {
        self.spawn(async { f() })
    }
    pub fn stop(&self) -> bool {
        let alive = g(|g| g.nodes[self.node].alive);
        kill_node(self.node);
        alive
    }
}

fn inject(node: usize, f: BoxSend) -> bool {
    let w = g(|g| {
        if !g.nodes[node].alive {
            return None;
        }
        g.injector.push((node, f));
        Some(g.sched_waker.clone())
    });
    match w {
        None => false,
        Some(w) => {
            if let Some(w) = w {
                w.wake();
            }
            true
        }
    }
}

#[derive(Debug)]
pub struct Arbiter {
    node: usize,
}

impl Arbiter {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Arbiter {
        let sys = System::current();
        let id = NEXT_ARB.fetch_add(1, SeqCst);
        let node = new_node(Some(sys.clone()), format!("system:{}|arbiter:{}", sys.id, id));
        Arbiter { node }
    }
    pub fn with_tokio_rt<F>(_: F) -> Arbiter
    where
        F: FnOnce() -> tokio::runtime::Runtime + Send + 'static,
    {
        Self::new()
    }
    pub fn handle(&self) -> ArbiterHandle {
        ArbiterHandle { node: self.node }
    }
    pub fn current() -> ArbiterHandle {
        Self::try_current().expect("Arbiter is not running.")
    }
    pub fn try_current() -> Option<ArbiterHandle> {
        CURRENT_NODE.with(|c| c.get()).map(|node| ArbiterHandle { node })
    }
    pub fn stop(&self) -> bool {
        self.handle().stop()
    }
    #[track_caller]
    pub fn spawn<Fut>(&self, future: Fut) -> bool
    where
        Fut: Future<Output = ()> + Send + 'static,
    {
        self.handle().spawn(future)
    }
    #[track_caller]
    pub fn spawn_fn<F>(&self, f: F) -> bool
    where
        F: FnOnce() + Send + 'static,
    {
        self.handle().spawn_fn(f)
    }
    pub fn join(self) -> std::thread::Result<()> {
        Ok(())
    }
}

/// The simulator's own controls.
pub mod sim {
    use super::*;

    /// Run a whole simulation on this OS thread; `fut` is the main task of a simulated thread that
    /// belongs to no actix system (a plain tokio or plain `fn main`).
    pub fn block_on_bare<F: Future>(fut: F) -> F::Output {
        let node = new_node(None, "bare-main".into());
        run_sim(node, fut)
    }
    /// A further simulated thread; with `sys` it belongs to that actix system.
    pub fn spawn_thread<F>(name: &str, sys: Option<System>, fut: F) -> usize
    where
        F: Future<Output = ()> + Send + 'static,
    {
        let node = new_node(sys, name.into());
        inject(node, Box::pin(fut));
        node
    }
    pub fn spawn_thread_local<F>(name: &str, sys: Option<System>, fut: F) -> usize
    where
        F: Future<Output = ()> + 'static,
    {
        let node = new_node(sys, name.into());
        let _ = spawn_on(node, fut);
        node
    }
    pub fn nodes() -> usize {
        g(|g| g.nodes.len())
    }
    pub fn node_name(i: usize) -> String {
        g(|g| g.nodes[i].name.clone())
    }
    pub fn stall(node: usize, dur_ns: u64) {
        let now = detsim::sim_ns();
        g(|g| {
            let n = &mut g.nodes[node];
            n.stalled_until_ns = n.stalled_until_ns.max(now + dur_ns);
        });
    }
    pub fn steps() -> u64 {
        STEPS.load(SeqCst)
    }
    pub fn set_max_steps(n: u64) {
        MAX_STEPS.store(n, SeqCst);
    }
    pub fn limit_hit() -> bool {
        LIMIT_HIT.load(SeqCst)
    }
    pub fn set_step_hook(f: fn(u64)) {
        *STEP_HOOK.lock().unwrap() = Some(f);
    }
    pub fn current_node() -> Option<usize> {
        CURRENT_NODE.with(|c| c.get())
    }
}
