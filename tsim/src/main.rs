//! Thread-level simulation: C13 (starting the engine) and C14 (the in-memory backend) on real OS threads
//! of which rt.c lets exactly one run at a time, switching at atomic operations as the seed says.
mod c13;
mod c14;
mod search;

use serde::{Deserialize, Serialize};

extern "C" {
    pub fn ts_begin(seed: u64, pol: i32, arg: i32, horizon: u64, limit: u64, rd: *const u64, rt: *const u32, n: u64, f: extern "C" fn(*const libc::c_char));
    pub fn ts_end();
    pub fn ts_stamp() -> u64;
    pub fn ts_steps() -> u64;
    pub fn ts_hash() -> u64;
    pub fn ts_multi() -> u64;
    pub fn ts_threads() -> u64;
    pub fn ts_vnow() -> u64;
    pub fn ts_trace(d: *mut *const u64, t: *mut *const u32) -> u64;
}
pub fn stamp() -> u64 {
    unsafe { ts_stamp() }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    Random(i32),
    Priority { changes: i32, horizon: u64 },
    /// (number of the decision, thread) where the choice differs from going on with the current thread
    Recorded(Vec<(u64, u32)>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub policy: Policy,
    pub c13: Vec<c13::Th>,
    pub c14: Vec<Vec<c14::Op>>,
}

/// What one run showed.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub bad: Vec<String>,
    pub history: Vec<String>,
    pub hash: u64,
    pub history_hash: u64,
    pub steps: u64,
    pub multi: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub trace: Vec<(u64, u32)>,
    pub kinds: std::collections::BTreeMap<String, u64>,
}

/// The recorder: only the thread holding the baton touches it.
pub struct Rec {
    pub out: Outcome,
    pub fd: i32,
}
pub static mut REC: *mut Rec = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn rec() -> &'static mut Rec {
    unsafe { &mut *REC }
}
pub fn log(s: String) {
    rec().out.history.push(s);
}
pub fn bad(s: String) {
    rec().out.bad.push(s);
}
pub fn count(k: &str) {
    *rec().out.kinds.entry(k.into()).or_insert(0) += 1;
}

/// The end of a run: the result goes to the parent, the process ends.
pub fn finish() -> ! {
    unsafe {
        ts_end();
        let r = rec();
        r.out.hash = ts_hash();
        r.out.steps = ts_steps();
        r.out.multi = ts_multi();
        r.out.threads = ts_threads();
        r.out.sim_ns = ts_vnow();
        let (mut d, mut t) = (std::ptr::null(), std::ptr::null());
        let n = ts_trace(&mut d, &mut t);
        r.out.trace = (0..n as usize).map(|i| (*d.add(i), *t.add(i))).collect();
        let mut h = 0xcbf29ce484222325u64;
        for l in &r.out.history {
            for b in l.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        r.out.history_hash = h;
        let v = serde_json::to_vec(&r.out).unwrap();
        let mut o = 0;
        while o < v.len() {
            let k = libc::write(r.fd, v[o..].as_ptr() as *const libc::c_void, v.len() - o);
            if k <= 0 {
                break;
            }
            o += k as usize;
        }
        libc::_exit(0)
    }
}

extern "C" fn failed(m: *const libc::c_char) {
    let m = unsafe { std::ffi::CStr::from_ptr(m) }.to_string_lossy().to_string();
    bad(format!("the threads make no progress: {m}"));
    finish()
}

/// Fork; where the system is short of something just now, wait for it.
///
/// # Safety
/// as for fork(2)
pub unsafe fn fork() -> i32 {
    for _ in 0..600 {
        let pid = libc::fork();
        if pid >= 0 {
            return pid;
        }
        libc::usleep(100_000);
    }
    panic!("fork");
}

/// One run in a forked child.
pub fn execute(s: &Scenario) -> Outcome {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = crate::fork();
        if pid == 0 {
            libc::close(p[0]);
            libc::alarm(60);
            REC = Box::into_raw(Box::new(Rec { out: Outcome::default(), fd: p[1] }));
            let q = std::panic::take_hook();
            drop(q);
            std::panic::set_hook(Box::new(|i| {
                let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                log(format!("panic: {m}"));
            }));
            let (pol, arg, hor, rd, rt): (i32, i32, u64, Vec<u64>, Vec<u32>) = match &s.policy {
                Policy::Random(a) => (0, *a, 0, vec![], vec![]),
                Policy::Priority { changes, horizon } => (1, *changes, *horizon, vec![], vec![]),
                Policy::Recorded(v) => (2, 0, 0, v.iter().map(|x| x.0).collect(), v.iter().map(|x| x.1).collect()),
            };
            // In a thread of its own: its memory comes from a fresh region, so that addresses (some code
            // hashes them) do not depend on what this process allocated before
            let s = s.clone();
            let t = std::thread::spawn(move || {
                ts_begin(s.seed, pol, arg, hor, 3_000_000, rd.as_ptr(), rt.as_ptr(), rd.len() as u64, failed);
                match s.prop.as_str() {
                    "C13" => c13::run(&s.c13),
                    _ => c14::run(&s.c14),
                }
                finish();
            });
            let _ = t.join();
            libc::_exit(97);
        }
        libc::close(p[1]);
        let mut v = vec![];
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut f = std::fs::File::from_raw_fd(p[0]);
        let _ = f.read_to_end(&mut v);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match serde_json::from_slice(&v) {
            Ok(o) => o,
            Err(_) => Outcome { bad: vec![format!("the simulated process died (status {st:#x})")], ..Default::default() },
        }
    }
}

fn arg(name: &str) -> Option<String> {
    let mut a = std::env::args();
    while let Some(x) = a.next() {
        if x == name {
            return a.next();
        }
    }
    None
}
fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(default)
}

/// Addresses are the same in every process: no address space randomisation (where that may be switched off),
/// and what the searching process allocates stays in its own region.
fn fixed_addresses(args: &[String]) {
    use std::os::unix::process::CommandExt;
    const NO_RANDOM: libc::c_ulong = 0x0040000;
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now >= 0 && now as libc::c_ulong & NO_RANDOM == 0 && std::env::var_os("TSIM_EXEC").is_none() && libc::personality(now as libc::c_ulong | NO_RANDOM) >= 0 {
            let e = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("TSIM_EXEC", "1").exec();
            eprintln!("cannot fix addresses: {e}");
        }
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    fixed_addresses(&args);
    let code = match args.get(1).map(|s| s.as_str()).unwrap_or("") {
        "check" => search::check(&args[2], num("--runs", 1000), num("--secs", 45), num("--seed", 1), num("--workers", 8) as usize, arg("--out"), arg("--tier").unwrap_or("quick".into())),
        "replay" => search::replay(&args[2]),
        "run" => search::show(&args[2], args[3].parse().expect("seed")),
        "determinism" => search::determinism(&args[2], num("--runs", 200)),
        _ => 2,
    };
    std::process::exit(code);
}
