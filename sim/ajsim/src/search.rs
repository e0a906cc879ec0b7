//! Seeded search over many simulated runs, replay, and the evidence of it.
use crate::gen;
use crate::mini;
use crate::plan::*;
use crate::run::{self, Report};
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::time::Instant;

/// One run, whatever the property needs.
pub fn execute(p: &Plan, full: bool) -> Report {
    run::execute(p, full)
}

pub fn run_seed(base: u64, i: u64) -> u64 {
    base.wrapping_mul(1_000_003).wrapping_add(i)
}

#[derive(Serialize, Deserialize, Default)]
struct Line {
    seed: u64,
    bad: Vec<String>,
    h: u64,
    s: u64,
    sim_ns: u64,
    steps: u64,
    choices: u64,
    calls: u64,
    cmds: u64,
    nt: bool,
    profile: String,
    probes: BTreeMap<String, u64>,
}

fn worker(prop: &str, w: usize, n: usize, base: u64, runs: u64, deadline: Instant, fd: i32) {
    use std::os::fd::FromRawFd;
    let mut out = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut i = w as u64;
    while i < runs && Instant::now() < deadline {
        let seed = run_seed(base, i);
        let p = gen::plan(prop, seed);
        let r = execute(&p, false);
        let mut probes = r.probes.clone();
        for (k, v) in &r.stats.net {
            *probes.entry(format!("net: {k}")).or_insert(0) += v;
        }
        let l = Line {
            seed, h: r.event_hash, s: r.stats.hash, sim_ns: r.stats.sim_ns, steps: r.stats.steps, choices: r.stats.choices,
            calls: r.stats.calls, cmds: r.stats.net_cmds, nt: r.nontrivial,
            profile: format!("{}/{:?}/{}/{}", p.profile, p.store, if p.actix { "actix" } else { "no actix" }, match p.sched { Sched::Uniform => "uniform", Sched::MostlyFifo(_) => "mostly fifo", Sched::Priority(_) => "priority", _ => "trace" }),
            probes,
            bad: r.violations,
        };
        let mut s = serde_json::to_vec(&l).unwrap();
        s.push(b'\n');
        if out.write_all(&s).is_err() {
            return;
        }
        i += n as u64;
    }
}

#[derive(Default)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    interleavings: HashSet<u64>,
    histories: HashSet<u64>,
    sim_ns: u64,
    steps: u64,
    choices: u64,
    calls: u64,
    cmds: u64,
    probes: BTreeMap<String, u64>,
    profiles: BTreeMap<String, u64>,
    bad: Vec<(u64, Vec<String>)>,
    unconfirmed: u64,
    first_hashes: BTreeMap<u64, u64>,
}

pub fn check(prop: &str, runs: u64, secs: u64, base: u64, workers: usize, out: Option<String>, tier: String) -> i32 {
    let known = crate::known::report(prop);
    let t0 = Instant::now();
    let deadline = t0 + std::time::Duration::from_secs(secs);
    let mut pids = vec![];
    let mut readers = vec![];
    for w in 0..workers {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = run::fork();
            if pid == 0 {
                libc::close(p[0]);
                libc::setpgid(0, 0);
                worker(prop, w, workers, base, runs, deadline, p[1]);
                libc::_exit(0);
            }
            libc::close(p[1]);
            pids.push(pid);
            readers.push(p[0]);
        }
    }
    let (tx, rx) = std::sync::mpsc::channel::<Line>();
    for fd in readers {
        let tx = tx.clone();
        std::thread::spawn(move || {
            use std::os::fd::FromRawFd;
            let f = unsafe { std::fs::File::from_raw_fd(fd) };
            for l in BufReader::new(f).lines().map_while(Result::ok) {
                if let Ok(l) = serde_json::from_str(&l) {
                    if tx.send(l).is_err() {
                        return;
                    }
                }
            }
        });
    }
    drop(tx);
    let mut t = Tally::default();
    for l in rx {
        t.runs += 1;
        t.sim_ns += l.sim_ns;
        t.steps += l.steps;
        t.choices += l.choices;
        t.calls += l.calls;
        t.cmds += l.cmds;
        if l.nt {
            t.nontrivial += 1;
            t.interleavings.insert(l.s);
            t.histories.insert(l.h);
        }
        for (k, v) in l.probes {
            *t.probes.entry(k).or_insert(0) += v;
        }
        *t.profiles.entry(l.profile).or_insert(0) += 1;
        if l.seed < run_seed(base, 64) {
            t.first_hashes.insert(l.seed, l.h);
        }
        if !l.bad.is_empty() {
            // the same seed in another process must show it again: only repeatable failures are reported
            let r = execute(&gen::plan(prop, l.seed), false);
            if r.violations.is_empty() {
                eprintln!("seed {}: not repeatable: {}", l.seed, l.bad.join("; "));
                t.unconfirmed += 1;
                continue;
            }
            t.bad.push((l.seed, r.violations));
            break;
        }
    }
    for p in &pids {
        unsafe {
            libc::kill(-p, libc::SIGKILL);
            libc::kill(*p, libc::SIGKILL);
            libc::waitpid(*p, std::ptr::null_mut(), 0);
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    // the same seeds again, in another process layout: the same histories
    let mut again = 0;
    let mut differ = 0;
    if t.bad.is_empty() {
        for (seed, h) in t.first_hashes.iter().take(24) {
            let r = execute(&gen::plan(prop, *seed), false);
            again += 1;
            if r.event_hash != *h {
                differ += 1;
            }
        }
        if differ > 0 {
            eprintln!("WARNING: {differ} of {again} runs were not repeatable");
        }
    }
    let mut code = 0;
    let mut replay_file = None;
    if let Some((seed, bad)) = t.bad.first().cloned() {
        let p = gen::plan(prop, seed);
        eprintln!("seed {seed}: {}", bad.join("; "));
        let path = mini::minimise_and_write(&p, &bad);
        for b in &bad {
            println!("  {b}");
        }
        println!("VIOLATION property={prop} replay={path}");
        replay_file = Some(path);
        code = 1;
    }
    let sample_seed = run_seed(base, 0);
    let sample = gen::plan(prop, sample_seed);
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let faults: BTreeMap<&String, &u64> = t.probes.iter().filter(|(k, _)| k.starts_with("fault") || k.starts_with("net")).collect();
    let other: BTreeMap<&String, &u64> = t.probes.iter().filter(|(k, _)| !(k.starts_with("fault") || k.starts_with("net"))).collect();
    let (real, simulated) = if prop == "C15" {
        (vec!["aj_core's Redis backend from /repo", "redis client crate (unmodified)"], vec!["Redis server (lists, hashes, MULTI/EXEC) and the sockets to it", "clocks and random numbers"])
    } else {
        (vec!["aj, aj_core, aj_macro from /repo", "actix 0.13 (unmodified)", "chrono, cron, uuid, dashmap, serde (unmodified)", "tokio timers and channels (paused clock)", "redis client crate and aj's Redis backend (runs with store Redis)"],
         vec!["actix-rt: arbiters, tasks and their scheduling", "clocks and OS random numbers (interposed)", "Redis server and the sockets to it (runs with store Redis)", "backend proxy for fault injection, crash points"])
    };
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "violations": t.bad.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.histories.len(),
            "rule": if prop == "C15" { "one evaluation is one simulated run of the Redis backend and client crate from one seed: a sequence of backend operations by up to three clients, rival commands and network faults, each result compared with a model of lists and hashes; non-trivial if at least one operation was compared, distinct if the recorded history differs from all others of this check" } else { "one evaluation is one simulated run of the whole engine from one seed (workload, environment, faults and schedule drawn from it by the property's swarm generator); it is non-trivial if the property's oracle evaluated at least one obligation on its history, and distinct if its complete recorded history (calls, executions, stored records, faults, with simulated times) differs from all others of this check" },
            "samples": [serde_json::to_value(&sample).unwrap()],
            "nontrivial_runs": t.nontrivial,
            "distinct_interleavings": t.interleavings.len(),
            "interleaving_measure": "hash of the sequence of (simulated thread, task) picked at every scheduling step of a run",
            "runs_per_hour": per_h(t.runs),
            "seeds_per_hour": per_h(t.runs),
            "search_wall_s": search_s,
            "simulated_seconds": t.sim_ns / 1_000_000_000,
            "scheduling_steps": t.steps,
            "scheduling_choices": t.choices,
            "backend_calls": t.calls,
            "redis_commands": t.cmds,
            "faults_injected": faults,
            "events": other,
            "profiles": t.profiles,
            "repeatability": { "re_executed": again, "differing": differ, "unconfirmed_failures": t.unconfirmed },
            "known_findings": known,
            "replay": replay_file,
            "real_code": real,
            "simulated": simulated
        },
        "assumptions": ["threads interleave at task polls; data races inside one poll are not explored here (C13 and C14 do that)", "bounded search: a violation that no explored seed triggers is not seen"]
    });
    if let Some(o) = out {
        if let Some(d) = std::path::Path::new(&o).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&o, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    eprintln!("{prop}: {} runs ({} distinct non-trivial histories, {} interleavings), {} simulated s, {:.1} s, {} violation(s)", t.runs, t.histories.len(), t.interleavings.len(), t.sim_ns / 1_000_000_000, t0.elapsed().as_secs_f64(), t.bad.len());
    code
}

pub fn render(evs: &[Ev]) -> Vec<String> {
    evs.iter().map(|e| format!("{:>5} {:>10}.{:03} ms inc{} {}", e.seq, e.t / 1_000_000, e.t / 1000 % 1000, e.inc, serde_json::to_string(&e.k).unwrap_or_default())).collect()
}

pub fn show(prop: &str, seed: u64, plan_too: bool, min: bool) -> i32 {
    let p = gen::plan(prop, seed);
    if plan_too {
        println!("{}", serde_json::to_string(&p).unwrap());
    }
    let r = execute(&p, true);
    if let Some(c) = &r.carry {
        for l in render(&c.world.evs) {
            println!("{l}");
        }
    }
    println!("{:?} {:?} nontrivial={} hash={:x} violations={:#?}", r.ending, r.stats, r.nontrivial, r.event_hash, r.violations);
    if min && !r.violations.is_empty() {
        println!("{}", mini::minimise_and_write(&p, &r.violations));
    }
    !r.violations.is_empty() as i32
}

pub fn determinism(prop: &str, from: u64, runs: u64) -> i32 {
    let mut bad = 0;
    for i in 0..runs {
        let p = gen::plan(prop, run_seed(from, i));
        let a = execute(&p, true);
        let b = execute(&p, false);
        // and from the recorded schedule and faults
        let mut q = p.clone();
        if let Some(c) = &a.carry {
            q.sched = Sched::Trace(c.traces.clone());
            q.faults = Faults::Explicit(a.fired.clone());
        }
        let c = execute(&q, false);
        if a.event_hash != b.event_hash || a.stats.hash != b.stats.hash || a.event_hash != c.event_hash {
            println!("seed {}: {:x} {:x} {:x}", run_seed(from, i), a.event_hash, b.event_hash, c.event_hash);
            bad += 1;
        }
    }
    println!("{prop}: {runs} seeds, {bad} not repeatable");
    (bad > 0) as i32
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub violations: Vec<String>,
    pub seed: u64,
    pub event_hash: u64,
    pub plan: Plan,
    pub history: Vec<String>,
}

pub fn replay(file: &str) -> i32 {
    let f: ReplayFile = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let r = execute(&f.plan, true);
    if let Some(c) = &r.carry {
        for l in render(&c.world.evs) {
            println!("{l}");
        }
    }
    for v in &r.violations {
        println!("  {v}");
    }
    if r.violations.is_empty() {
        println!("no violation of {} on this tree", f.property);
        return 0;
    }
    println!("{}", if r.event_hash == f.event_hash { "reproduced exactly" } else { "a violation, but another history (the code differs from the one the file was recorded on)" });
    println!("VIOLATION property={} replay={file}", f.property);
    1
}
