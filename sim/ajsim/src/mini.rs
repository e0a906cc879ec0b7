//! Turn a failing run into a small one: fewer clients, operations, faults, and a mostly FIFO schedule.
use crate::plan::*;
use crate::search::{execute, render, ReplayFile};
use std::time::{Duration, Instant};

/// The kind of violation: the message without numbers and names.
fn shape(v: &[String]) -> String {
    v.first().map(|s| s.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(60).collect::<String>()).unwrap_or_default()
}
fn kind(v: &[String]) -> String {
    // words without digits, the first eight of them
    let s = v.first().cloned().unwrap_or_default();
    s.split_whitespace().filter(|w| !w.chars().any(|c| c.is_ascii_digit() || c == '-')).take(8).collect::<Vec<_>>().join(" ")
}

struct M {
    best: Plan,
    kind: String,
    until: Instant,
    tries: u64,
}

impl M {
    fn fails(&mut self, p: &Plan) -> Option<Plan> {
        if Instant::now() > self.until {
            return None;
        }
        self.tries += 1;
        let r = execute(p, true);
        if r.violations.is_empty() || kind(&r.violations) != self.kind {
            return None;
        }
        // make everything explicit
        let mut q = p.clone();
        if let Some(c) = r.carry {
            q.sched = Sched::Trace(c.traces);
            q.faults = if r.fired.is_empty() { Faults::None } else { Faults::Explicit(r.fired) };
        }
        Some(q)
    }
    fn accept(&mut self, p: Plan) -> bool {
        match self.fails(&p) {
            Some(q) => {
                self.best = q;
                true
            }
            None => false,
        }
    }
    /// also with a plain FIFO schedule
    fn try_plan(&mut self, p: Plan) -> bool {
        let mut f = p.clone();
        f.sched = Sched::Trace(vec![]);
        self.accept(f) || self.accept(p)
    }
}

fn chunks(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut size = n;
    while size > 0 {
        let mut at = 0;
        while at < n {
            v.push((at, (at + size).min(n)));
            at += size;
        }
        size /= 2;
    }
    v
}

pub fn minimise_and_write(p: &Plan, bad: &[String]) -> String {
    let mut m = M { best: p.clone(), kind: kind(bad), until: Instant::now() + Duration::from_secs(if std::env::var("SIM_MIN_SECS").is_ok() { std::env::var("SIM_MIN_SECS").unwrap().parse().unwrap_or(45) } else { 45 }), tries: 0 };
    let _ = shape(bad);
    if m.accept(p.clone()) {
        let mut again = true;
        while again && Instant::now() < m.until {
            again = false;
            // the schedule as a whole
            let mut f = m.best.clone();
            if !matches!(&f.sched, Sched::Trace(t) if t.iter().all(|x| x.iter().all(|c| *c == 0))) {
                f.sched = Sched::Trace(vec![]);
                again |= m.accept(f);
            }
            // operations of the backend alone
            for (a, b) in chunks(m.best.be.len()) {
                let l = m.best.be.len();
                let (a, b) = (a.min(l), b.min(l));
                if a < b && b - a < l {
                    let mut q = m.best.clone();
                    q.be.drain(a..b);
                    again |= m.accept(q);
                }
            }
            for i in 0..m.best.be.len() {
                for k in 0..3 {
                    let mut q = m.best.clone();
                    match k {
                        0 => q.be[i].fault = None,
                        1 => q.be[i].rival = None,
                        _ => q.be[i].client = 0,
                    }
                    if q != m.best {
                        again |= m.accept(q);
                    }
                }
            }
            // clients
            let mut i = 0;
            while i < m.best.clients.len() {
                let mut q = m.best.clone();
                q.clients.remove(i);
                if m.try_plan(q) {
                    again = true;
                } else {
                    i += 1;
                }
            }
            // operations
            for c in 0..m.best.clients.len() {
                let n = m.best.clients[c].ops.len();
                for (a, b) in chunks(n) {
                    if c >= m.best.clients.len() {
                        break;
                    }
                    let len = m.best.clients[c].ops.len();
                    let (a, b) = (a.min(len), b.min(len));
                    if a < b {
                        let mut q = m.best.clone();
                        q.clients[c].ops.drain(a..b);
                        again |= m.try_plan(q);
                    }
                }
            }
            // operations after restarts
            for a in 0..m.best.after.len() {
                for c in 0..m.best.after[a].len() {
                    let mut i = 0;
                    while i < m.best.after[a][c].ops.len() {
                        let mut q = m.best.clone();
                        q.after[a][c].ops.remove(i);
                        if m.try_plan(q) {
                            again = true;
                        } else {
                            i += 1;
                        }
                    }
                }
            }
            for what in 0..3 {
                let n = match what {
                    0 => m.best.chaos.len(),
                    1 => m.best.plugins.len(),
                    _ => if let Faults::Explicit(f) = &m.best.faults { f.len() } else { 0 },
                };
                for (a, b) in chunks(n) {
                    let mut q = m.best.clone();
                    let hit = match what {
                        0 => { let l = q.chaos.len(); let (a, b) = (a.min(l), b.min(l)); q.chaos.drain(a..b); a < b }
                        1 => { let l = q.plugins.len(); let (a, b) = (a.min(l), b.min(l)); q.plugins.drain(a..b); a < b }
                        _ => if let Faults::Explicit(f) = &mut q.faults { let l = f.len(); let (a, b) = (a.min(l), b.min(l)); f.drain(a..b); a < b } else { false },
                    };
                    if hit {
                        again |= m.try_plan(q);
                    }
                }
            }
            // simpler environment
            for k in 0..5 {
                let mut q = m.best.clone();
                match k {
                    0 => q.store = Store::Mem,
                    1 => q.clients.iter_mut().for_each(|c| c.thread = false),
                    2 => q.clients.iter_mut().for_each(|c| c.ops.iter_mut().for_each(|o| if let Op::Run { data, .. } | Op::Update { data, .. } = o { data.pay = String::new(); data.list = vec![]; data.opt = None })),
                    3 => q.clients.iter_mut().for_each(|c| c.ops.iter_mut().for_each(|o| if let Op::Sleep { ms } = o { *ms /= 2 })),
                    _ => q.settle_ms /= 2,
                }
                if q != m.best {
                    again |= m.try_plan(q) && k != 3 && k != 4;
                }
            }
            // the schedule in pieces: back to FIFO
            if let Sched::Trace(t) = m.best.sched.clone() {
                for inc in 0..t.len() {
                    let n = t[inc].len();
                    for (a, b) in chunks(n).into_iter().take(60) {
                        if let Sched::Trace(cur) = &m.best.sched {
                            if inc >= cur.len() {
                                continue;
                            }
                            let l = cur[inc].len();
                            let (a, b) = (a.min(l), b.min(l));
                            if cur[inc][a..b].iter().any(|c| *c != 0) {
                                let mut q = m.best.clone();
                                if let Sched::Trace(x) = &mut q.sched {
                                    x[inc][a..b].iter_mut().for_each(|c| *c = 0);
                                }
                                again |= m.accept(q);
                            }
                        }
                    }
                }
            }
        }
    } else {
        eprintln!("WARNING: the violation did not repeat when the run was repeated");
    }
    let mut plan = m.best.clone();
    if let Sched::Trace(t) = &mut plan.sched {
        // trailing FIFO choices are the default
        for x in t.iter_mut() {
            while x.last() == Some(&0) {
                x.pop();
            }
        }
    }
    let r = execute(&plan, true);
    let f = ReplayFile {
        property: plan.prop.clone(),
        violations: r.violations.clone(),
        seed: p.seed,
        event_hash: r.event_hash,
        history: r.carry.as_ref().map(|c| render(&c.world.evs)).unwrap_or_default(),
        plan,
    };
    let dir = std::env::var("SIM_REPLAY_DIR").unwrap_or("/verif/replay".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}.json", f.property, f.seed);
    std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).expect("replay file");
    eprintln!("minimised in {} runs: {} operations, {} faults", m.tries, f.plan.be.len() + f.plan.clients.iter().map(|c| c.ops.len()).sum::<usize>(), if let Faults::Explicit(x) = &f.plan.faults { x.len() } else { f.plan.be.iter().filter(|b| b.fault.is_some()).count() });
    path
}
