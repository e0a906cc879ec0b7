//! Sources of nondeterminism, owned by the simulator: the decision stream, the clocks and the
//! operating system's random numbers. `clock_gettime`, `getrandom` and friends are interposed at the
//! libc symbol, so that no code in the process (std, chrono, uuid, redis, ...) sees the real ones
//! while a simulation is active.

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub mod interpose;

/// xorshift-multiply generator (splitmix64): tiny, seedable, no hidden state.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn derive(seed: u64, stream: u64) -> Self {
        let mut r = Rng::new(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ stream.wrapping_mul(0xA24B_AED4_963E_E407));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability `p` percent
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ---------------------------------------------------------------- decisions

#[derive(Clone, Debug)]
pub enum Policy {
    /// uniform over everything that could run
    Uniform,
    /// oldest first, a random choice in `pct` percent of the steps
    MostlyFifo(u64),
    /// random priority per simulated thread, re-drawn in `pct` percent of the steps
    Priority(u64),
}

enum Mode {
    Seed { rng: Rng, policy: Policy, prio: Vec<u64> },
    Replay(Vec<u32>),
}

struct Decider {
    mode: Mode,
    trace: Vec<u32>,
    hash: u64,
    multi: u64,
}

static DECIDER: Mutex<Option<Decider>> = Mutex::new(None);

pub fn install_seed(seed: u64, policy: Policy) {
    *DECIDER.lock().unwrap() = Some(Decider {
        mode: Mode::Seed { rng: Rng::derive(seed, 77), policy, prio: vec![] },
        trace: vec![],
        hash: 0xcbf2_9ce4_8422_2325,
        multi: 0,
    });
}

pub fn install_replay(trace: Vec<u32>) {
    *DECIDER.lock().unwrap() = Some(Decider { mode: Mode::Replay(trace), trace: vec![], hash: 0xcbf2_9ce4_8422_2325, multi: 0 });
}

/// Choose among candidates (each named by the simulated thread it belongs to and a task id).
/// Index 0 is the one that has been runnable longest. Choices between two or more are recorded.
pub fn choose(cands: &[(usize, u64)]) -> usize {
    let mut g = DECIDER.lock().unwrap();
    let d = match g.as_mut() {
        Some(d) => d,
        None => return 0,
    };
    let n = cands.len();
    let idx = if n <= 1 {
        0
    } else {
        d.multi += 1;
        let i = match &mut d.mode {
            Mode::Replay(t) => t.get(d.trace.len()).copied().unwrap_or(0) as usize % n,
            Mode::Seed { rng, policy, prio } => match policy {
                Policy::Uniform => rng.below(n as u64) as usize,
                Policy::MostlyFifo(p) => {
                    if rng.pct(*p) { rng.below(n as u64) as usize } else { 0 }
                }
                Policy::Priority(p) => {
                    let top = cands.iter().map(|c| c.0).max().unwrap_or(0);
                    while prio.len() <= top {
                        let v = rng.next();
                        prio.push(v);
                    }
                    if rng.pct(*p) {
                        let k = rng.below(prio.len() as u64) as usize;
                        prio[k] = rng.next();
                    }
                    let mut best = 0;
                    for (i, c) in cands.iter().enumerate() {
                        if prio[c.0] > prio[cands[best].0] {
                            best = i;
                        }
                    }
                    best
                }
            },
        };
        d.trace.push(i as u32);
        i
    };
    if n > 0 {
        let c = cands[idx];
        for v in [c.0 as u64, c.1] {
            d.hash = (d.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    idx
}

/// Mix something observable into the schedule hash (the measure of distinct interleavings).
pub fn mix(v: u64) {
    if let Some(d) = DECIDER.lock().unwrap().as_mut() {
        d.hash = (d.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3);
    }
}

/// (recorded choices, schedule hash, number of choices between two or more)
pub fn decisions() -> (Vec<u32>, u64, u64) {
    let g = DECIDER.lock().unwrap();
    match g.as_ref() {
        Some(d) => (d.trace.clone(), d.hash, d.multi),
        None => (vec![], 0, 0),
    }
}

// ---------------------------------------------------------------- clocks

pub(crate) static ACTIVE: AtomicBool = AtomicBool::new(false);
static SIM_NS: AtomicU64 = AtomicU64::new(0);
static MICRO: AtomicU64 = AtomicU64::new(0);
static WALL_BASE_NS: AtomicI64 = AtomicI64::new(0);
static WALL_ADJ_NS: AtomicI64 = AtomicI64::new(0);

pub fn activate(wall_base_us: i64) {
    WALL_BASE_NS.store(wall_base_us * 1000, SeqCst);
    WALL_ADJ_NS.store(0, SeqCst);
    SIM_NS.store(0, SeqCst);
    MICRO.store(0, SeqCst);
    ACTIVE.store(true, SeqCst);
}
pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
pub fn sim_ns() -> u64 {
    SIM_NS.load(SeqCst)
}
/// Called by the scheduler at every step with the simulated elapsed time. Inside one simulated
/// millisecond the clocks creep forward by a microsecond per step (up to 0.9 ms).
pub fn tick(ns: u64) {
    if SIM_NS.swap(ns, SeqCst) != ns {
        MICRO.store(0, SeqCst);
    } else if MICRO.load(SeqCst) < 900 {
        MICRO.fetch_add(1, SeqCst);
    }
}
pub fn elapsed_ns() -> u64 {
    sim_ns() + MICRO.load(SeqCst) * 1000
}
pub fn wall_ns() -> i64 {
    WALL_BASE_NS.load(SeqCst) + WALL_ADJ_NS.load(SeqCst) + elapsed_ns() as i64
}
pub fn jump_wall(delta_ns: i64) {
    WALL_ADJ_NS.fetch_add(delta_ns, SeqCst);
}
pub fn set_wall_adj(ns: i64) {
    WALL_ADJ_NS.store(ns, SeqCst);
}
pub fn wall_adj() -> i64 {
    WALL_ADJ_NS.load(SeqCst)
}

// ---------------------------------------------------------------- OS randomness

static OS_RNG: Mutex<Rng> = Mutex::new(Rng(0x5eed));
pub fn seed_os_rng(seed: u64) {
    *OS_RNG.lock().unwrap_or_else(|e| e.into_inner()) = Rng::derive(seed, 99);
}
pub(crate) fn fill_random(buf: &mut [u8]) {
    let mut r = OS_RNG.lock().unwrap_or_else(|e| e.into_inner());
    for b in buf {
        *b = (r.next() >> 32) as u8;
    }
}
