//! The recorded findings (KNOWN_FINDINGS.txt) as fixed scenarios: each check shows whether those of its
//! property still fail. The random search stays away from exactly these situations.
use crate::plan::*;
use crate::run::{self, Report};
use crate::world::*;

fn data(tag: u64, ms: u32, out: Out) -> Data {
    Data { tag, pay: "x".into(), list: vec![], opt: None, steps: vec![Step { ms, yields: 0, out }] }
}
fn sub(ty: u8, id: u32, tag: u64, ms: u32, when: When) -> Op {
    Op::Run { ty, id, auto: false, wait: true, data: data(tag, ms, Out::Ok), ctx: Ctx { when, retry: None }, tries: 0, mode: 0 }
}
fn plan(prop: &str, ops: Vec<Op>) -> Plan {
    Plan {
        prop: prop.into(),
        profile: "known finding".into(),
        seed: 1,
        wall_base_us: 1_700_000_000_000_000,
        actix: true,
        store: Store::Mem,
        plugins: vec![],
        clients: vec![Client { thread: false, ops }],
        after: vec![],
        chaos: vec![],
        faults: Faults::None,
        crashes: vec![],
        settle_ms: 10_000,
        sched: Sched::Trace(vec![]),
        max_steps: 2_000_000,
        ids: 0,
            be: vec![],
    }
}
fn starts(r: &Report, tag: u64) -> usize {
    r.carry.as_ref().map(|c| c.world.evs.iter().filter(|e| matches!(&e.k, K::Start { tag: t, .. } if *t == tag)).count()).unwrap_or(0)
}
fn last_stored(r: &Report, tag: u64) -> Option<u8> {
    r.carry.as_ref()?.world.evs.iter().rev().find_map(|e| match &e.k {
        K::Stored { v, .. } if v.tag == tag => Some(v.st),
        _ => None,
    })
}
/// Did the fault strike right after the execution of `tag` ended?
fn after_end(r: &Report, tag: u64) -> bool {
    let Some(c) = &r.carry else { return false };
    let evs = &c.world.evs;
    let x = evs.iter().find_map(|e| match &e.k { K::Start { x, tag: t, .. } if *t == tag => Some(*x), _ => None });
    let end = evs.iter().find_map(|e| match &e.k { K::End { x: y, .. } if Some(*y) == x => Some(e.t), _ => None });
    let fault = evs.iter().find_map(|e| if let K::Fault { .. } = &e.k { Some(e.t) } else { None });
    matches!((end, fault), (Some(a), Some(b)) if b >= a && b < a + 1_000_000)
}

/// Twenty jobs are executing when the process dies: the restarted queue counts them as executing for ever.
fn orphans() -> bool {
    let mut ops: Vec<Op> = (0..20).map(|i| sub(0, i, i as u64 + 1, 60_000, When::Now)).collect();
    ops.push(Op::Sleep { ms: 3_000 });
    ops.push(sub(0, 20, 21, 0, When::Now));
    let mut p = plan("C17", ops);
    p.crashes = vec![CrashAt::Status(QUEUED, 21, 1)];
    p.after = vec![vec![Client { thread: false, ops: vec![sub(0, 30, 31, 0, When::Now)] }]];
    p.settle_ms = 120_000;
    let r = run::execute(&p, true);
    starts(&r, 31) == 0 && r.carry.as_ref().map(|c| c.world.inc == 1).unwrap_or(false)
}

fn two_jobs(f: Faults) -> Plan {
    let mut p = plan("C16", vec![sub(0, 9, 9, 0, When::Now), Op::WaitEnd { id: 9, ms: 3000 }, Op::Config { ty: 0, cap: 1, tick_ms: 100 }, sub(0, 0, 1, 50, When::Now), Op::WaitEnd { id: 0, ms: 3000 }, sub(0, 1, 2, 50, When::Now)]);
    p.faults = f;
    p
}
/// The backend fails while an execution's end is being recorded: (slot lost, wrong status)
fn completion() -> (bool, bool) {
    let r = run::execute(&two_jobs(Faults::None), true);
    let (mut lost, mut wrong) = (false, false);
    for k in 1..=r.stats.calls {
        let r = run::execute(&two_jobs(Faults::Explicit(vec![(0, k, Fault::Err)])), true);
        if !after_end(&r, 1) {
            continue;
        }
        lost |= starts(&r, 1) == 1 && starts(&r, 2) == 0;
        wrong |= last_stored(&r, 1) == Some(FAILED);
    }
    (lost, wrong)
}

/// Two types share one id.
fn shared_id() -> bool {
    let p = plan("C18", vec![sub(0, 0, 1, 0, When::DelayMs(2_000)), sub(2, 0, 2, 0, When::Now)]);
    let r = run::execute(&p, true);
    // the job of the second type was acknowledged and either is never executed or hides the first one
    starts(&r, 1) != 1 || starts(&r, 2) != 1
}

pub fn report(prop: &str) -> Vec<String> {
    let mut v = vec![];
    match prop {
        "C17" if orphans() => v.push("K1: jobs that were executing when the process died stay in the running list for ever; 20 of them block their queue after the restart".to_string()),
        "C16" => {
            let (lost, wrong) = completion();
            if lost {
                v.push("K2: a backend error while an ended execution is taken off the running list loses its slot".into());
            }
            if wrong {
                v.push("K3: a backend error while a finished execution is recorded leaves the job recorded as failed".into());
            }
        }
        "C18" if shared_id() => v.push("K4: jobs of two types submitted under the same id share one stored record".into()),
        _ => {}
    }
    for f in &v {
        println!("KNOWN-FINDING: property={prop} {f}");
    }
    v
}
