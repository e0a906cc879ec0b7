//! Seeded search over many runs, minimising, replaying, evidence.
use crate::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::time::{Duration, Instant};

fn run_seed(base: u64, i: u64) -> u64 {
    base.wrapping_mul(1_000_003).wrapping_add(i)
}
fn policy(r: &mut Rng, prop: &str) -> Policy {
    if r.chance(2, 5) {
        Policy::Random(r.of(&[2, 4, 10, 30, 100]))
    } else {
        let top = if prop == "C14" { 5 } else { 8 };
        Policy::Priority { changes: 1 + r.below(5) as i32, horizon: 32 << r.below(top) }
    }
}
pub fn scenario(prop: &str, seed: u64) -> Scenario {
    let mut r = Rng(seed ^ 0x5DEECE66D);
    let pol = policy(&mut r, prop);
    Scenario { prop: prop.into(), seed, policy: pol, c13: if prop == "C13" { c13::gen(&mut r) } else { vec![] }, c14: if prop == "C13" { vec![] } else { c14::gen(&mut r) } }
}

#[derive(Serialize, Deserialize)]
struct Line {
    seed: u64,
    o: Outcome,
}

/// A process without threads of its own that executes scenarios for the searching process.
struct Zygote {
    to: std::fs::File,
    from: BufReader<std::fs::File>,
    pid: i32,
}
impl Zygote {
    fn new() -> Zygote {
        use std::os::fd::FromRawFd;
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
            assert_eq!(libc::pipe(b.as_mut_ptr()), 0);
            let pid = crate::fork();
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                let mut out = std::fs::File::from_raw_fd(b[1]);
                for l in BufReader::new(std::fs::File::from_raw_fd(a[0])).lines().map_while(Result::ok) {
                    let o = execute(&serde_json::from_str(&l).expect("scenario"));
                    let mut v = serde_json::to_vec(&o).unwrap();
                    v.push(b'\n');
                    if out.write_all(&v).is_err() {
                        break;
                    }
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Zygote { to: std::fs::File::from_raw_fd(a[1]), from: BufReader::new(std::fs::File::from_raw_fd(b[0])), pid }
        }
    }
    fn run(&mut self, s: &Scenario) -> Outcome {
        let mut v = serde_json::to_vec(s).unwrap();
        v.push(b'\n');
        self.to.write_all(&v).expect("zygote");
        let mut l = String::new();
        self.from.read_line(&mut l).expect("zygote");
        serde_json::from_str(&l).expect("zygote")
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            libc::waitpid(self.pid, std::ptr::null_mut(), 0);
        }
    }
}

pub fn check(prop: &str, runs: u64, secs: u64, base: u64, workers: usize, out: Option<String>, tier: String) -> i32 {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(secs);
    let mut z = Zygote::new();
    let mut pids = vec![];
    let mut readers = vec![];
    for wk in 0..workers as u64 {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = crate::fork();
            if pid == 0 {
                use std::os::fd::FromRawFd;
                libc::close(p[0]);
                libc::setpgid(0, 0);
                let mut f = std::fs::File::from_raw_fd(p[1]);
                let mut i = wk;
                while i < runs && Instant::now() < deadline {
                    let seed = run_seed(base, i);
                    let mut o = execute(&scenario(prop, seed));
                    o.trace.clear();
                    o.history.clear();
                    let mut s = serde_json::to_vec(&Line { seed, o }).unwrap();
                    s.push(b'\n');
                    if f.write_all(&s).is_err() {
                        break;
                    }
                    i += workers as u64;
                }
                libc::_exit(0);
            }
            libc::close(p[1]);
            pids.push(pid);
            readers.push(p[0]);
        }
    }
    let (tx, rx) = std::sync::mpsc::channel::<Line>();
    for fd in readers {
        let tx = tx.clone();
        std::thread::spawn(move || {
            use std::os::fd::FromRawFd;
            let f = unsafe { std::fs::File::from_raw_fd(fd) };
            for l in BufReader::new(f).lines().map_while(Result::ok) {
                if let Ok(l) = serde_json::from_str(&l) {
                    if tx.send(l).is_err() {
                        return;
                    }
                }
            }
        });
    }
    drop(tx);
    let (mut n, mut nt, mut steps, mut multi, mut sim, mut threads, mut unconfirmed) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut inter = HashSet::new();
    let mut hist = HashSet::new();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut first: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    let mut found: Option<(u64, Outcome)> = None;
    for l in rx {
        n += 1;
        steps += l.o.steps;
        multi += l.o.multi;
        sim += l.o.sim_ns;
        threads += l.o.threads;
        if l.o.multi > 0 {
            nt += 1;
            inter.insert(l.o.hash);
            hist.insert(l.o.hash ^ l.o.history_hash.rotate_left(1) ^ l.seed.wrapping_mul(0x9E3779B97F4A7C15));
        }
        for (k, v) in l.o.kinds {
            *kinds.entry(k).or_insert(0) += v;
        }
        if l.seed < run_seed(base, 48) {
            first.insert(l.seed, (l.o.hash, l.o.history_hash));
        }
        if !l.o.bad.is_empty() {
            let o = z.run(&scenario(prop, l.seed));
            if o.bad.is_empty() {
                eprintln!("seed {}: not repeatable: {}", l.seed, l.o.bad.join("; "));
                unconfirmed += 1;
                continue;
            }
            found = Some((l.seed, o));
            break;
        }
    }
    for p in &pids {
        unsafe {
            libc::kill(-p, libc::SIGKILL);
            libc::kill(*p, libc::SIGKILL);
            libc::waitpid(*p, std::ptr::null_mut(), 0);
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let (mut again, mut differ) = (0, 0);
    if found.is_none() {
        for (s, h) in first.iter().take(24) {
            let o = z.run(&scenario(prop, *s));
            again += 1;
            if (o.hash, o.history_hash) != *h {
                differ += 1;
            }
        }
        if differ > 0 {
            eprintln!("WARNING: {differ} of {again} runs were not repeatable");
        }
    }
    let mut replay_file = None;
    let code = found.is_some() as i32;
    if let Some((seed, o)) = found {
        eprintln!("seed {seed}: {}", o.bad.join("; "));
        let path = minimise(&mut z, &scenario(prop, seed), o);
        println!("VIOLATION property={prop} replay={path}");
        replay_file = Some(path);
    }
    let per_h = (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let (rule, real) = if prop == "C13" {
        ("one evaluation is one simulated run: 2 to 4 threads, with no runtime, an actix or a tokio runtime, start the engine, look it up and submit to it, scheduled at the level of atomic operations from one seed; non-trivial if at least one scheduling decision had two threads to choose from, distinct if calls, schedule or results differ", vec!["aj, aj_core, aj_macro from /repo", "actix, actix-rt, tokio, mio, dashmap and all other dependencies, unmodified", "std's locks, parking and thread creation; epoll and eventfd (non-blocking)"])
    } else {
        ("one evaluation is one simulated run: 2 to 4 threads call one in-memory backend up to 4 times each, scheduled at the level of atomic operations from one seed, and a search for an order that explains all results; non-trivial if at least one scheduling decision had two threads to choose from, distinct if calls, schedule or results differ", vec!["aj_core::mem::InMemory from /repo", "std's locks and thread creation"])
    };
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "violations": code, "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": n, "distinct_nontrivial": hist.len(), "rule": rule,
            "samples": [serde_json::to_value(scenario(prop, run_seed(base, 0))).unwrap()],
            "nontrivial_runs": nt, "distinct_interleavings": inter.len(),
            "interleaving_measure": "hash of the sequence of threads picked at every scheduling decision with more than one runnable thread",
            "runs_per_hour": per_h, "seeds_per_hour": per_h, "search_wall_s": search_s,
            "simulated_seconds": sim / 1_000_000_000, "scheduling_steps": steps, "scheduling_choices": multi, "threads": threads,
            "faults_injected": { "preemption before an atomic operation or system call (decisions)": multi },
            "events": kinds,
            "repeatability": { "re_executed": again, "differing": differ, "unconfirmed_failures": unconfirmed },
            "replay": replay_file,
            "real_code": real,
            "simulated": ["which thread runs (switches before every atomic operation of instrumented Rust code, at futex waits and wakes, thread creation, joins, sleeps and epoll waits)", "futexes, sleeping, clocks, random numbers, blocking in epoll"]
        },
        "assumptions": ["sequentially consistent memory: weak-memory reorderings are not simulated", "std's precompiled non-inlined code is preempted at its system calls only", "bounded search"]
    });
    if let Some(o) = out {
        if let Some(d) = std::path::Path::new(&o).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&o, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    eprintln!("{prop}: {n} runs ({} interleavings), {steps} steps, {:.1} s, {code} violation(s)", inter.len(), t0.elapsed().as_secs_f64());
    code
}

fn kind(v: &[String]) -> String {
    v.first().map(|s| s.chars().filter(|c| !c.is_ascii_digit()).take(50).collect()).unwrap_or_default()
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    violations: Vec<String>,
    seed: u64,
    hash: u64,
    history_hash: u64,
    scenario: Scenario,
    history: Vec<String>,
}

fn minimise(z: &mut Zygote, s: &Scenario, o: Outcome) -> String {
    let until = Instant::now() + Duration::from_secs(std::env::var("SIM_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(40));
    let k = kind(&o.bad);
    let mut best = s.clone();
    best.policy = Policy::Recorded(o.trace.clone());
    let mut got = z.run(&best);
    if kind(&got.bad) != k {
        eprintln!("WARNING: the recorded schedule does not repeat the violation");
        best = s.clone();
        got = o;
    }
    // smaller workloads under other schedules
    let try_new = |z: &mut Zygote, c: &Scenario, until: Instant| -> Option<(Scenario, Outcome)> {
        for i in 0..60 {
            if Instant::now() > until {
                return None;
            }
            let mut r = Rng(i + 77);
            let mut x = c.clone();
            x.policy = if i == 0 { best_policy(s) } else { policy(&mut r, &s.prop) };
            x.seed = s.seed.wrapping_add(i * 7919);
            let o = z.run(&x);
            if kind(&o.bad) == k {
                let mut y = x.clone();
                y.policy = Policy::Recorded(o.trace.clone());
                let o = z.run(&y);
                if kind(&o.bad) == k {
                    return Some((y, o));
                }
            }
        }
        None
    };
    let mut again = true;
    while again && Instant::now() < until {
        again = false;
        for what in 0..2 {
            let n = if s.prop == "C13" { best.c13.len() } else { best.c14.len() };
            let mut t = 0;
            while t < n {
                let mut i = 0;
                loop {
                    let mut c = best.clone();
                    if s.prop == "C13" {
                        if t >= c.c13.len() { break; }
                        if what == 0 { if i > 0 { break; } c.c13.remove(t); } else { if i >= c.c13[t].ops.len() { break; } c.c13[t].ops.remove(i); }
                    } else {
                        if t >= c.c14.len() { break; }
                        if what == 0 { if i > 0 || t == 0 { break; } c.c14.remove(t); } else { if i >= c.c14[t].len() { break; } c.c14[t].remove(i); }
                    }
                    if let Some((b, o)) = try_new(z, &c, until) {
                        best = b;
                        got = o;
                        again = true;
                    } else {
                        i += 1;
                    }
                    if Instant::now() > until { break; }
                }
                t += 1;
            }
        }
    }
    // fewer switches
    if let Policy::Recorded(t) = best.policy.clone() {
        let mut t = t;
        let mut size = t.len();
        while size > 0 && Instant::now() < until + Duration::from_secs(10) {
            let mut a = 0;
            while a < t.len() {
                let mut c = t.clone();
                c.drain(a..(a + size).min(c.len()));
                let mut x = best.clone();
                x.policy = Policy::Recorded(c.clone());
                let o = z.run(&x);
                if kind(&o.bad) == k {
                    t = c;
                    best = x;
                    got = o;
                } else {
                    a += size;
                }
            }
            size /= 2;
        }
    }
    let dir = std::env::var("SIM_REPLAY_DIR").unwrap_or("/verif/replay".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}.json", s.prop, s.seed);
    for b in &got.bad {
        println!("  {b}");
    }
    let sw = if let Policy::Recorded(t) = &best.policy { t.len() } else { 0 };
    eprintln!("minimised: {} operations, {sw} preemptions", best.c13.iter().map(|t| t.ops.len()).sum::<usize>() + best.c14.iter().map(|t| t.len()).sum::<usize>());
    let f = ReplayFile { property: s.prop.clone(), violations: got.bad.clone(), seed: s.seed, hash: got.hash, history_hash: got.history_hash, scenario: best, history: got.history.clone() };
    std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).expect("replay file");
    path
}
fn best_policy(s: &Scenario) -> Policy {
    s.policy.clone()
}

pub fn replay(file: &str) -> i32 {
    let f: ReplayFile = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let o = execute(&f.scenario);
    for l in &o.history {
        println!("{l}");
    }
    for b in &o.bad {
        println!("  {b}");
    }
    if o.bad.is_empty() {
        println!("no violation of {} on this tree", f.property);
        return 0;
    }
    println!("{}", if o.hash == f.hash && o.history_hash == f.history_hash { "reproduced exactly" } else { "a violation, but another run (the code differs from the one the file was recorded on)" });
    println!("VIOLATION property={} replay={file}", f.property);
    1
}

pub fn show(prop: &str, seed: u64) -> i32 {
    let s = scenario(prop, seed);
    println!("{}", serde_json::to_string(&s).unwrap());
    let o = execute(&s);
    for l in &o.history {
        println!("{l}");
    }
    println!("steps {} choices {} threads {} preemptions {} simulated {} ms hash {:x} {:x} {:?}", o.steps, o.multi, o.threads, o.trace.len(), o.sim_ns / 1_000_000, o.hash, o.history_hash, o.bad);
    !o.bad.is_empty() as i32
}

pub fn determinism(prop: &str, runs: u64) -> i32 {
    let mut bad = 0;
    for i in 0..runs {
        let s = scenario(prop, run_seed(7, i));
        let a = execute(&s);
        let b = execute(&s);
        let mut c = s.clone();
        c.policy = Policy::Recorded(a.trace.clone());
        let c = execute(&c);
        if (a.hash, a.history_hash) != (b.hash, b.history_hash) || (a.hash, a.history_hash) != (c.hash, c.history_hash) {
            println!("seed {}: {:x} {:x} {:x}  steps {} {} {}", s.seed, a.hash, b.hash, c.hash, a.steps, b.steps, c.steps);
            bad += 1;
        }
    }
    println!("{prop}: {runs} seeds, {bad} not repeatable");
    (bad > 0) as i32
}
