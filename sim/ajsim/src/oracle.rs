//! The properties, decided over recorded histories. Each returns what is wrong (nothing, if it holds)
//! and counts the obligations it actually evaluated.
use crate::hist::*;
use crate::plan::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::str::FromStr;

pub struct V {
    pub bad: Vec<String>,
    pub n: u64,
}
impl V {
    fn need(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        self.n += 1;
        if !ok && self.bad.len() < 5 {
            self.bad.push(msg());
        }
    }
}

pub fn check(plan: &Plan, world: &World, aborted: Option<&str>) -> (Vec<String>, bool) {
    let h = H::new(plan, world, aborted);
    let mut v = V { bad: vec![], n: 0 };
    match plan.prop.as_str() {
        "C01" => {
            alive(&h, &mut v);
            accepted(&h, &mut v);
            exactly_once(&h, &mut v);
        }
        "C02" => {
            alive(&h, &mut v);
            accepted(&h, &mut v);
            exactly_once(&h, &mut v);
            limit(&h, &mut v);
        }
        "C03" => limit(&h, &mut v),
        "C04" => not_early(&h, &mut v),
        "C05" => {
            alive(&h, &mut v);
            for ty in 0..4 {
                work_conserving(&h, &mut v, ty, 0);
                passed_over(&h, &mut v, ty);
            }
            all_started(&h, &mut v);
        }
        "C06" => {
            alive(&h, &mut v);
            stored_as_asked(&h, &mut v);
            framed(&h, &mut v);
            retries(&h, &mut v);
        }
        "C07" => {
            alive(&h, &mut v);
            framed(&h, &mut v);
            crons(&h, &mut v);
        }
        "C08" => {
            alive(&h, &mut v);
            limit(&h, &mut v);
            framed(&h, &mut v);
            cancels(&h, &mut v);
            conservation(&h, &mut v);
        }
        "C09" => {
            alive(&h, &mut v);
            limit(&h, &mut v);
            framed(&h, &mut v);
            stored_as_asked(&h, &mut v);
            updates(&h, &mut v, true);
            conservation(&h, &mut v);
        }
        "C10" => {
            alive(&h, &mut v);
            manual_retries(&h, &mut v);
            limit(&h, &mut v);
            framed(&h, &mut v);
            stored_as_asked(&h, &mut v);
            updates(&h, &mut v, false);
            conservation(&h, &mut v);
        }
        "C11" => {
            alive(&h, &mut v);
            stored_as_asked(&h, &mut v);
            truthful(&h, &mut v);
        }
        "C12" => {
            alive(&h, &mut v);
            framed(&h, &mut v);
            hooks(&h, &mut v);
        }
        "C15" => {
            alive(&h, &mut v);
            for (_, n) in &h.notes {
                if let Some(m) = n.strip_prefix("violation: ") {
                    v.need(false, || m.to_string());
                } else {
                    v.need(true, String::new);
                }
            }
        }
        "C16" => {
            alive(&h, &mut v);
            framed(&h, &mut v);
            faulty(&h, &mut v);
        }
        "C17" => {
            alive(&h, &mut v);
            stored_as_asked(&h, &mut v);
            survive(&h, &mut v);
        }
        "C18" => {
            alive(&h, &mut v);
            framed(&h, &mut v);
            isolated(&h, &mut v);
            passed_over(&h, &mut v, 0);
        }
        "C19" => {
            alive(&h, &mut v);
            macros(&h, &mut v);
        }
        p => v.bad.push(format!("no oracle for {p}")),
    }
    (v.bad, v.n > 0)
}

fn ms(ns: u64) -> String {
    format!("{}.{:03} ms", ns / 1_000_000, ns / 1000 % 1000)
}

/// Every call returned and the run came to its end.
fn alive(h: &H, v: &mut V) {
    if let Some(a) = &h.aborted {
        v.bad.push(a.clone());
    }
    let last_crash = h.crashes.last().map(|c| c.0).unwrap_or(0);
    for o in &h.ops {
        if o.ret == INF && o.inv > last_crash {
            v.need(false, || format!("call #{} of client {} never returned: {:?}", o.n, o.c, o.op));
        }
    }
    for (_, n) in &h.notes {
        if n.contains("did not return") {
            v.need(false, || n.clone());
        }
    }
}

/// With a working backend no submission, cancellation, update or retry fails.
fn accepted(h: &H, v: &mut V) {
    for o in &h.ops {
        match (&o.op, &o.res) {
            (Op::Run { data, .. }, Some(r)) if data.pay == UNSTORABLE => v.need(!matches!(r, Res::Id(_)), || format!("submission of {} was acknowledged although its data cannot be stored", o.id)),
            (Op::Run { wait: true, .. }, Some(Res::Id(id))) => v.need(*id == o.id, || format!("submission of {} returned id {id}", o.id)),
            (Op::Run { .. }, Some(Res::Err(e))) => v.need(false, || format!("submission of {} was refused: {e}", o.id)),
            _ => {}
        }
    }
}

fn same_value(h: &H, v: &mut V) {
    for (_, n) in &h.notes {
        v.need(!n.starts_with("broken: "), || n.clone());
    }
}

fn exactly_once(h: &H, v: &mut V) {
    same_value(h, v);
    for id in h.job_ids() {
        let op = h.ops_of(&id).find(|o| matches!(o.op, Op::Run { .. })).unwrap();
        let (ty, data) = match &op.op {
            Op::Run { ty, data, .. } => (*ty, data),
            _ => unreachable!(),
        };
        if !op.ok() || data.pay == UNSTORABLE {
            continue;
        }
        let ex: Vec<&Exec> = h.execs_of(&id).collect();
        v.need(ex.len() == 1, || format!("job {id} was executed {} times, expected once", ex.len()));
        for e in &ex {
            v.need(e.intact && e.tag == data.tag, || format!("job {id} was executed with other data than submitted"));
            v.need(e.ty == ty, || format!("job {id} was executed by another type's queue"));
        }
        if ex.len() == 1 {
            let e = ex[0];
            v.need(e.end != INF, || format!("the execution of job {id} never ended"));
            let pre: Vec<u64> = h.evs.iter().filter(|x| matches!(&x.k, K::Pre { id: i } if *i == id)).map(|x| x.seq).collect();
            let post: Vec<u64> = h.evs.iter().filter(|x| matches!(&x.k, K::Post { id: i } if *i == id)).map(|x| x.seq).collect();
            v.need(pre.len() == 1 && pre[0] < e.body, || format!("job {id}: pre-execution step ran {} times", pre.len()));
            v.need(post.len() == 1 && post[0] > e.done, || format!("job {id}: post-execution step ran {} times", post.len()));
            let want = if e.out.as_ref().map(|o| o.failed()).unwrap_or(false) { FAILED } else { FINISHED };
            let fin = h.finals.get(&id).cloned().flatten();
            v.need(fin.as_ref().map(|f| f.st) == Some(want), || {
                format!("job {id} is reported {} after it ended with {:?}", fin.as_ref().map(|f| st_name(f.st)).unwrap_or("missing"), e.out)
            });
        }
    }
}

/// Every execution consists of one pre-execution step, the body and one post-execution step, in that order.
fn framed(h: &H, v: &mut V) {
    let mut steps: BTreeMap<&str, Vec<(u64, bool)>> = BTreeMap::new();
    for e in h.evs {
        match &e.k {
            K::Pre { id } => steps.entry(id).or_default().push((e.seq, true)),
            K::Post { id } => steps.entry(id).or_default().push((e.seq, false)),
            _ => {}
        }
    }
    same_value(h, v);
    let none = vec![];
    for id in h.job_ids() {
        let ex: Vec<&Exec> = h.execs_of(&id).collect();
        let st = steps.get(id.as_str()).unwrap_or(&none);
        let count = |pre: bool, a: u64, b: u64| st.iter().filter(|s| s.1 == pre && s.0 > a && s.0 < b).count();
        for (k, e) in ex.iter().enumerate() {
            let prev = if k > 0 { ex[k - 1].body } else { 0 };
            let next = ex.get(k + 1).map(|n| n.body).unwrap_or(INF);
            let pre = count(true, prev, e.body);
            v.need(pre == 1, || format!("job {id}: {pre} pre-execution steps before execution {}", k + 1));
            // cut off by a crash or the end of the run?
            let t = h.evs.get(e.done as usize).map_or(INF, |x| x.t);
            let cut = h.crashes.iter().any(|c| c.0 > e.done) || t.saturating_add(h.grace(t, post_ms(e.tag) * MS + h.ticks())) > h.end_t;
            if e.done != INF && e.out != Some(Out::Panic) {
                let post = count(false, e.done, next);
                v.need(post == 1 || post == 0 && cut, || format!("job {id}: {post} post-execution steps after execution {}", k + 1));
            }
        }
    }
}

/// The record a submission or update leaves is what was asked for, or, without a context of its own, keeps
/// the one that was there.
fn stored_as_asked(h: &H, v: &mut V) {
    for o in &h.ops {
        let (data, given) = match &o.op {
            Op::Run { data, .. } | Op::Update { data, .. } => (data, &o.ctx),
            _ => continue,
        };
        let sts = h.st(&o.id);
        let Some(p) = sts.iter().position(|s| s.v.tag == data.tag) else { continue };
        let s = &sts[p];
        let kept = |v: &mut V| {
            if p > 0 {
                let prev = &sts[p - 1];
                v.need(s.v.ctx == prev.v.ctx && s.v.rc == prev.v.rc, || format!("call #{} changed the context of {}: {} (runs {}) became {} (runs {})", o.n, o.id, prev.v.ctx, prev.v.rc, s.v.ctx, s.v.rc));
            }
        };
        if matches!(o.op, Op::Run { mode: 2, .. }) && p > 0 && done(sts[p - 1].v.st) {
            v.need(s.v.st == sts[p - 1].v.st, || format!("submission #{} of the completed job {}, to be skipped if finished, left it recorded as {}", o.n, o.id, st_name(s.v.st)));
            kept(v);
            continue;
        }
        match given {
            Some(c) => v.need(s.v.jt == c.jt && s.v.ctx == c.ctx && s.v.rc == c.rc, || format!("call #{} recorded the context of {} as {} (runs {}), given was {} (runs {})", o.n, o.id, s.v.ctx, s.v.rc, c.ctx, c.rc)),
            None => kept(v),
        }
    }
}

/// No more executions at once than the limit allows (the limit that could be in force between the
/// moment the job was marked running and the moment it began).
fn limit(h: &H, v: &mut V) {
    for e in &h.execs {
        let picked = h.st(&e.id).iter().rev().find(|s| s.seq < e.start && s.v.st == RUNNING).map(|s| s.seq).unwrap_or(e.start);
        let cap = h.caps(e.ty, picked, e.start).1;
        let now = h.execs.iter().filter(|x| x.ty == e.ty && x.start <= e.start && x.end > e.start && x.inc == e.inc).count();
        v.need(now <= cap, || format!("{now} jobs of type {} execute at {} although the maximum is {cap} (job {})", ty_name(e.ty), ms(e.start_t), e.id));
    }
}

fn not_early(h: &H, v: &mut V) {
    for e in &h.execs {
        let rec = match h.at(&e.id, e.start) {
            Some(r) => r,
            None => continue,
        };
        // schedules anybody asked for, for this job, before it began
        let asked: Vec<&OpRec> = h.ops_of(&e.id).filter(|o| o.inv < e.start && o.ctx.is_some() && o.tag().is_some()).collect();
        let matching: Vec<&&OpRec> = asked.iter().filter(|o| o.ctx.as_ref().unwrap().jt == rec.v.jt).collect();
        v.need(!matching.is_empty(), || format!("job {} runs with schedule {:?}, which nobody asked for", e.id, rec.v.jt));
        if let JType::At(due) = rec.v.jt {
            if let Some(o) = matching.first() {
                let w = h.max_wall(o.inv, e.start);
                v.need(w >= due * 1000, || format!("job {} started {} us before its time", e.id, due - w / 1000));
            }
        }
        // the schedule in force is the one of the last effective request
        let last = asked.iter().filter(|o| o.ok() && o.eff < e.start).max_by_key(|o| o.inv);
        if let Some(l) = last {
            let overlapping = asked.iter().any(|o| o.n != l.n && o.eff > l.inv);
            // only if it met a waiting record, and no other request overlaps it
            let met = h.during(&e.id, l.inv, l.ret);
            if !overlapping && met.iter().all(|s| s.v.st == QUEUED) && !met.is_empty() {
                if let JType::At(due) = l.ctx.as_ref().unwrap().jt {
                    let w = h.max_wall(l.inv, e.start);
                    v.need(w >= due * 1000, || format!("job {} started {} us before the time it was last set to", e.id, due - w / 1000));
                }
            }
        }
    }
}

/// Whenever there is spare capacity and a due job, some job is started within a few ticks.
/// One-shot jobs only.
pub fn work_conserving(h: &H, v: &mut V, ty: u8, from_t: u64) {
    #[derive(Debug, Clone, Copy)]
    enum E {
        Elig(usize),
        Start(usize),
        Free(usize),
        Check,
    }
    let mut tl: Vec<(u64, u64, E)> = vec![];
    let mut jobs: Vec<String> = vec![];
    for o in &h.ops {
        if let Op::Run { ty: t, wait, .. } = &o.op {
            if *t != ty || !o.ok() || jobs.contains(&o.id) {
                continue;
            }
            let j = jobs.len();
            jobs.push(o.id.clone());
            let first = h.st(&o.id).first().map(|s| s.seq);
            let known = match (*wait, first) {
                (true, _) => o.ret,
                (false, Some(s)) => s,
                (false, None) => continue,
            };
            let due = match o.ctx.as_ref().map(|c| c.jt.clone()) {
                Some(JType::At(d)) => h.when_wall(known, d * 1000 + 1000),
                _ => h.evs[known as usize].t,
            };
            let touched = h.ops_of(&o.id).any(|x| matches!(x.op, Op::Cancel { .. } | Op::Update { .. } | Op::Retry { .. }) || (matches!(x.op, Op::Run { .. }) && x.tag() != o.tag()));
            if !touched {
                tl.push((due, known, E::Elig(j)));
            }
            for e in h.execs_of(&o.id) {
                tl.push((e.start_t, e.start, E::Start(j)));
                if e.end != INF {
                    let free = h.st(&o.id).iter().find(|s| s.seq > e.end).map(|s| (s.t, s.seq)).unwrap_or((e.end_t, e.end));
                    tl.push((free.0, free.1, E::Free(j)));
                }
            }
        }
    }
    for o in &h.ops {
        if matches!(o.op, Op::Config { ty: t, .. } if t == ty) && o.ret != INF {
            tl.push((o.ret_t, o.ret, E::Check));
        }
    }
    if jobs.is_empty() {
        return;
    }
    tl.push((h.end_t, INF, E::Check));
    tl.sort_by_key(|x| (x.0, x.1));
    let mut elig = vec![false; jobs.len()];
    let mut started = vec![false; jobs.len()];
    let mut inflight = 0usize;
    let mut since: Option<u64> = None;
    let mut cur = 0u64;
    for (t, seq, e) in tl {
        // was the condition violated over the stretch that ends here?
        if let Some(s0) = since {
            let s0 = s0.max(from_t);
            if t > s0 {
                let g = h.grace(s0, h.ticks_from(ty, s0));
                let waiting = (0..jobs.len()).filter(|j| elig[*j] && !started[*j]).map(|j| jobs[j].clone()).next().unwrap_or_default();
                v.need(t - s0 <= g, || format!("type {}: job {waiting} was due and {} of the slots free, but nothing was started for {} (from {})", ty_name(ty), "some", ms(t - s0), ms(s0)));
                if t - s0 > g {
                    return;
                }
            }
        }
        let mut reset = false;
        match e {
            E::Elig(j) => elig[j] = true,
            E::Start(j) => {
                started[j] = true;
                inflight += 1;
                reset = true;
            }
            E::Free(_) => inflight = inflight.saturating_sub(1),
            E::Check => {}
        }
        cur = cur.max(seq.min(h.evs.len() as u64 - 1));
        let cap = h.caps(ty, cur, cur).0;
        let cond = inflight < cap && (0..jobs.len()).any(|j| elig[j] && !started[j]);
        if !cond {
            since = None;
        } else if since.is_none() || reset {
            since = Some(t);
        }
    }
}

/// No job waits for ever while those that came after it are started (jobs submitted once).
fn passed_over(h: &H, v: &mut V, ty: u8) {
    if !["overload", "greedy"].contains(&h.plan.profile.as_str()) {
        return;
    }
    // (entered, started) of each
    let mut jobs: Vec<(u64, u64, &str)> = vec![];
    for o in &h.ops {
        if matches!(o.op, Op::Run { ty: t, .. } if t == ty) && o.ok() {
            if let Some(s) = h.st(&o.id).first() {
                jobs.push((s.seq, h.execs_of(&o.id).next().map_or(INF, |e| e.start), &o.id));
            }
        }
    }
    jobs.sort();
    // every execution with the moment its job was queued for it
    let queued = |e: &Exec| h.st(&e.id).iter().rev().find(|s| s.seq < e.start && s.v.st == QUEUED).map_or(0, |s| s.seq);
    let started: Vec<(u64, u64)> = h.execs.iter().filter(|e| e.ty == ty).map(|e| (e.start, queued(e))).collect();
    for (a, b, id) in &jobs {
        // those in the queue with it
        let with = jobs.iter().filter(|j| j.0 <= *a && j.1 > *a).count();
        let passed = started.iter().filter(|s| s.0 > *a && s.0 < *b && s.1 > *a).count();
        v.need(passed <= 20 * with + 50, || format!("job {id} entered the queue with {with} others; {passed} executions that were asked for later began before it"));
    }
}

/// The backlog drains: every accepted job whose time came long ago has begun.
fn all_started(h: &H, v: &mut V) {
    for o in &h.ops {
        if let Op::Run { ty, .. } = &o.op {
            if !o.ok() || h.caps(*ty, h.evs.len() as u64 - 1, h.evs.len() as u64 - 1).0 == 0 {
                continue;
            }
            let hang = h.execs.iter().any(|e| e.ty == *ty && e.end == INF);
            if hang {
                continue;
            }
            let due = match o.ctx.as_ref().map(|c| c.jt.clone()) {
                Some(JType::At(d)) => h.when_wall(o.inv, d * 1000),
                _ => o.inv_t,
            };
            // everything else could go first, one after the other
            let load: u64 = h.ops.iter().filter_map(|x| match &x.op {
                Op::Run { ty: t, data, .. } if t == ty => Some(data.steps.iter().map(|s| step_ms(data.tag, s) * MS + h.ticks()).sum::<u64>()),
                _ => None,
            }).sum();
            if due.saturating_add(h.grace(due, load + h.ticks())) < h.end_t {
                v.need(h.execs_of(&o.id).next().is_some(), || format!("job {} was due at {} and had not begun at {}", o.id, ms(due), ms(h.end_t)));
            }
        }
    }
}

/// How a job with a retry policy has to go on, given its outcomes.
pub fn expected_attempts(data: &Data, policy: bool, max: Option<i64>) -> Option<usize> {
    let (mut n, mut failed) = (0, 0);
    loop {
        let s = &data.steps[n.min(data.steps.len() - 1)];
        n += 1;
        if matches!(s.out, Out::Again(_)) && policy {
            if n >= data.steps.len() {
                return None;
            }
            continue;
        }
        if s.out.panics() || !s.out.failed() {
            return Some(n);
        }
        failed += 1;
        if let Some(m) = max {
            if failed > m.max(0) {
                return Some(n);
            }
        } else if n >= data.steps.len() {
            return None;
        }
    }
}

fn retries(h: &H, v: &mut V) {
    let quiet = h.jumps.is_empty();
    for o in &h.ops {
        let (data, ctx) = match &o.op {
            Op::Run { data, ctx, .. } if o.ok() => (data, ctx),
            Op::Run { .. } => {
                v.need(false, || format!("submission of {} was refused: {:?}", o.id, o.res));
                continue;
            }
            _ => continue,
        };
        let ex: Vec<&Exec> = h.execs_of(&o.id).collect();
        let (max, base, exp) = match &ctx.retry {
            None => (Some(0), 0, false),
            Some(RetrySpec::Interval { max, ms }) => (max.map(|m| m as i64), retry_us(*ms), false),
            Some(RetrySpec::Exp { max, ms }) => (max.map(|m| m as i64), retry_us(*ms), true),
        };
        let used = if let Some(RetrySpec::Exp { ms, .. }) = &ctx.retry { retry_used(*ms) as usize } else { 0 };
        let want = expected_attempts(data, ctx.retry.is_some(), max);
        // µs to wait after the k-th attempt
        let outs = |k: usize| &data.steps[(k - 1).min(data.steps.len() - 1)].out;
        let wait_after = |k: usize| match outs(k) {
            Out::Again(ms) => *ms as i64 * 1000,
            _ if exp => base.saturating_mul(2i64.saturating_pow((used + (1..=k).filter(|i| outs(*i).failed()).count()).min(31) as u32).min(i32::MAX as i64)),
            _ => base,
        };
        // lower bounds, retry by retry
        for k in 1..ex.len() {
            let (p, c) = (ex[k - 1], ex[k]);
            v.need(p.end < c.start, || format!("retry {k} of {} began before the previous attempt ended", o.id));
            v.need(p.out.as_ref().map(|x| x.failed() || matches!(x, Out::Again(_))).unwrap_or(false), || format!("{} was executed again after a success", o.id));
            if p.end == INF {
                continue;
            }
            let wait = wait_after(k);
            let due_ns = p.end_w / 1000 * 1000 + wait * 1000;
            let w = h.max_wall(p.end, c.start);
            v.need(w >= due_ns, || format!("retry {k} of {} began {} us after the failed attempt, before the {} us declared", o.id, (c.start_w - p.end_w) / 1000, wait));
            if quiet {
                let due_t = p.end_t + (wait.max(0) as u64) * 1000;
                let g = h.grace(p.end_t, h.ticks() + wait.max(0) as u64 * 1000) - wait.max(0) as u64 * 1000;
                v.need(c.start_t <= due_t + g, || format!("retry {k} of {} began {} after it was due", o.id, ms(c.start_t - due_t)));
            }
        }
        match want {
            Some(n) => {
                v.need(ex.len() <= n, || format!("{} was executed {} times, its policy allows {n}", o.id, ex.len()));
                // enough time for all of them?
                let mut need_t = o.inv_t;
                for k in 0..n {
                    let s = &data.steps[k.min(data.steps.len() - 1)];
                    let wait = if k == 0 { 0 } else { wait_after(k) };
                    need_t = need_t.saturating_add(step_ms(data.tag, s) * MS + wait.max(0) as u64 * 1000 + h.ticks());
                }
                if let JType::At(d) = o.ctx.as_ref().unwrap().jt {
                    need_t = need_t.saturating_add(((d * 1000 - o.inv_w).max(0)) as u64);
                }
                let back: i64 = h.jumps.iter().map(|j| (-j.3).max(0)).sum();
                need_t = need_t.saturating_add(back as u64 * MS);
                // the next attempt was due long before the end of the run
                let overdue = quiet && ex.last().map_or(false, |l| {
                    let wait = if ex.len() < n { wait_after(ex.len()).max(0) as u64 * 1000 } else { 0 };
                    l.end != INF && l.end_t.saturating_add(wait).saturating_add(h.grace(l.end_t, h.ticks() + wait)) < h.end_t
                });
                if overdue || need_t.saturating_add(h.grace(o.inv_t, need_t.saturating_sub(o.inv_t))) < h.end_t + (need_t - o.inv_t) {
                    v.need(ex.len() == n, || format!("{} was executed {} times, its policy calls for {n}", o.id, ex.len()));
                    if ex.len() == n {
                        let want = if ex[n - 1].out.as_ref().map(|x| x.failed()).unwrap_or(false) { FAILED } else { FINISHED };
                        let f = h.finals.get(&o.id).cloned().flatten().map(|f| f.st);
                        v.need(f == Some(want), || format!("{} is recorded as {} after its last attempt ended with {:?}", o.id, f.map(st_name).unwrap_or("missing"), ex[n - 1].out));
                    }
                }
            }
            None => {
                // for ever: the next attempt is always coming
                if quiet {
                    if let Some(l) = ex.last() {
                        if l.end != INF {
                            let k = ex.len();
                            let wait = wait_after(k);
                            let due = l.end_t.saturating_add(wait.max(0) as u64 * 1000);
                            v.need(due.saturating_add(h.grace(l.end_t, h.ticks() + wait.max(0) as u64 * 1000)) >= h.end_t, || format!("{} was not retried after attempt {k}, though it has no maximum", o.id));
                        }
                    }
                }
            }
        }
    }
}

fn next_slot(expr: &str, after_ns: i64) -> Option<i64> {
    let s = cron::Schedule::from_str(expr).ok()?;
    let t = chrono::DateTime::<chrono::Utc>::from_timestamp(after_ns.div_euclid(1_000_000_000), after_ns.rem_euclid(1_000_000_000) as u32)?;
    s.after(&t).next().and_then(|x| x.timestamp_nanos_opt())
}

fn crons(h: &H, v: &mut V) {
    for o in &h.ops {
        let (data, ctx) = match &o.op {
            Op::Run { data, ctx, .. } => (data, ctx),
            _ => continue,
        };
        let (expr, maxr, end) = match &o.ctx.as_ref().unwrap().jt {
            JType::Cron(e, _, _, m, end) => (e.clone(), *m, *end),
            _ => continue,
        };
        v.need(o.ok(), || format!("submission of {} was refused: {:?}", o.id, o.res));
        if next_slot(&expr, o.inv_w).is_none() {
            // An expression that has already run out is outside the property.
            continue;
        }
        let (rmax, rms, exp) = match &ctx.retry {
            None => (Some(0), 0, false),
            Some(RetrySpec::Interval { max, ms }) => (max.map(|m| m as i64), retry_us(*ms), false),
            Some(RetrySpec::Exp { max, ms }) => (max.map(|m| m as i64), retry_us(*ms), true),
        };
        let used = if let Some(RetrySpec::Exp { ms, .. }) = &ctx.retry { retry_used(*ms) as i64 } else { 0 };
        let ex: Vec<&Exec> = h.execs_of(&o.id).collect();
        let mut retried = 0i64;
        let mut regular = 0i64;
        // (lower bound of the next start in wall ns, event from which it is due)
        let mut ref_w = o.inv_w;
        let mut ref_hi = if o.ret == INF { o.inv_w } else { h.evs[o.ret as usize].w };
        let mut ref_seq = o.inv;
        let mut retry_due: Option<i64> = None;
        let mut over = false;
        for (k, e) in ex.iter().enumerate() {
            v.need(!over, || format!("cron job {} ran again (run {}) after it was over", o.id, k + 1));
            if k > 0 {
                v.need(ex[k - 1].end < e.start, || format!("cron job {} overlaps itself", o.id));
            }
            let due = match retry_due {
                Some(d) => d,
                None => {
                    regular += 1;
                    match next_slot(&expr, ref_w) {
                        Some(s) => s,
                        None => {
                            v.need(false, || format!("cron job {} ran with no instant left", o.id));
                            break;
                        }
                    }
                }
            };
            v.need(e.start_w >= due, || format!("cron job {} run {} began {} us before its instant", o.id, k + 1, (due - e.start_w) / 1000));
            // upper bound: instants after the latest moment the next slot can have been computed from
            let late = match retry_due {
                Some(d) => Some(d + (ref_hi - ref_w).max(0)),
                None => next_slot(&expr, ref_hi),
            };
            if let Some(l) = late {
                let t = h.when_wall(ref_seq, l);
                let g = h.grace(t, h.ticks());
                v.need(e.start_t <= t + g, || format!("cron job {} run {} began {} after its instant", o.id, k + 1, ms(e.start_t.saturating_sub(t))));
            }
            if let Some(m) = maxr {
                v.need(regular <= m, || format!("cron job {} ran {regular} times, the maximum is {m}", o.id));
            }
            if let Some(en) = end {
                let picked = h.st(&o.id).iter().rev().find(|s| s.seq < e.start && s.v.st == RUNNING).map(|s| s.w).unwrap_or(e.start_w);
                v.need(picked <= en * 1000 + 2_000_000, || format!("cron job {} began {} us after its end time", o.id, picked / 1000 - en));
            }
            if e.end == INF {
                return;
            }
            let failed = e.out.as_ref().map(|x| x.failed()).unwrap_or(false);
            let st_after = h.st(&o.id).iter().find(|s| s.seq > e.end);
            ref_w = e.end_w;
            ref_hi = st_after.map(|s| s.w).unwrap_or(e.end_w);
            ref_seq = st_after.map(|s| s.seq).unwrap_or(e.end);
            let st_after = match st_after {
                Some(s) => s,
                None => {
                    if e.end_t + h.grace(e.end_t, h.ticks()) < h.end_t {
                        v.need(false, || format!("nothing was recorded after run {} of cron job {}", k + 1, o.id));
                    }
                    return;
                }
            };
            retry_due = None;
            if failed && rmax.map(|m| retried < m).unwrap_or(true) {
                retried += 1;
                let wait = if exp { rms * (1i64 << (used + retried).min(30)) } else { rms };
                retry_due = Some(e.end_w / 1000 * 1000 + wait * 1000);
                v.need(st_after.v.st == QUEUED, || format!("cron job {} is {} after a failed run that is to be retried", o.id, st_name(st_after.v.st)));
            } else {
                // over if no limit allows another instant; in doubt (computed between ref_w and ref_hi) either
                let over_at = |w: i64| {
                    maxr.map(|m| regular >= m).unwrap_or(false)
                        || match next_slot(&expr, w) {
                            None => true,
                            Some(s) => end.map(|e| s > e * 1000).unwrap_or(false),
                        }
                };
                let (a, b) = (over_at(ref_w), over_at(ref_hi));
                let want = if failed { FAILED } else { FINISHED };
                if a && b {
                    over = true;
                    v.need(st_after.v.st == want, || format!("cron job {} is {} after its last allowed run ended with {:?}", o.id, st_name(st_after.v.st), e.out));
                } else if !a && !b {
                    v.need(st_after.v.st == QUEUED, || format!("cron job {} is {} after run {} although its schedule goes on", o.id, st_name(st_after.v.st), k + 1));
                } else {
                    over = st_after.v.st != QUEUED;
                }
            }
            let _ = data;
        }
        // still going on?
        if !over && o.ok() {
            let next = match retry_due {
                Some(d) => Some(d + (ref_hi - ref_w).max(0)),
                None => next_slot(&expr, ref_hi),
            };
            if let Some(s) = next {
                let t = h.when_wall(ref_seq, s);
                let stopped_by_end = end.map(|e| h.wall_at(t.saturating_add(h.grace(t, h.ticks()))) > e * 1000).unwrap_or(false);
                if !stopped_by_end && t + h.grace(t, h.ticks()) < h.end_t {
                    v.need(false, || format!("cron job {} did not run again: its instant passed {} before the end", o.id, ms(h.end_t - t)));
                }
            }
        }
    }
}

/// Cancelling.
fn cancels(h: &H, v: &mut V) {
    for o in &h.ops {
        if !matches!(o.op, Op::Cancel { .. }) || o.ret == INF {
            continue;
        }
        let before = h.at(&o.id, o.inv);
        let inside: Vec<&St> = h.st(&o.id).iter().filter(|s| s.seq > o.inv && s.seq < o.ret).collect();
        let other: bool = h.ops_of(&o.id).any(|x| x.n != o.n && (x.activating() || matches!(x.op, Op::Cancel { .. })) && x.inv < o.ret && x.eff > o.inv);
        match before.map(|s| s.v.st) {
            Some(QUEUED) if o.ok() && !other && inside.iter().all(|s| s.v.st == QUEUED || s.v.st == CANCELED) => {
                let now = h.at(&o.id, o.ret).map(|s| s.v.st);
                v.need(now == Some(CANCELED), || format!("cancelling the waiting job {} returned, but it is recorded as {}", o.id, now.map(st_name).unwrap_or("missing")));
            }
            Some(s) if s != QUEUED && !other && inside.iter().all(|x| x.v.st == s) => {
                // a pick that failed halfway leaves the job recorded as running; picking it again stores the new start
                let same = |x: &St| {
                    before.map_or(false, |b| {
                        let mut y = x.v.clone();
                        if s == RUNNING {
                            y.stamps[1] = b.v.stamps[1];
                        }
                        y == b.v
                    })
                };
                v.need(inside.iter().all(|x| same(x)), || format!("cancelling the {} job {} changed it", st_name(s), o.id));
            }
            None if !other => v.need(inside.is_empty(), || format!("cancelling the unknown job {} created it", o.id)),
            Some(s) if s != QUEUED && !other => {
                // it may have become waiting meanwhile; then both are fine, but a running or completed
                // job never turns into a cancelled one directly
                let mut p = s;
                for x in &inside {
                    if x.v.st == CANCELED {
                        v.need(p == QUEUED || p == CANCELED, || format!("cancelling turned job {} from {} to cancelled", o.id, st_name(p)));
                    }
                    p = x.v.st;
                }
            }
            _ => {}
        }
        if let (Op::Cancel { .. }, Some(Res::Err(e))) = (&o.op, &o.res) {
            if h.plan.faults == Faults::None && (h.in_use(o) || !e.contains("NoQueueRegister")) {
                v.need(false, || format!("cancelling {} failed: {e}", o.id));
            }
        }
    }
    // once recorded as cancelled it does not run until somebody reactivates it
    for (id, sts) in &h.stored {
        for s in sts.iter().filter(|s| s.v.st == CANCELED) {
            let back = h.ops_of(id).filter(|x| x.activating() && x.eff > s.seq).map(|x| x.inv.max(s.seq)).min().unwrap_or(INF);
            for e in h.execs_of(id) {
                v.need(!(e.start > s.seq && e.start < back), || format!("job {id} was executed at {} although it was cancelled at {}", ms(e.start_t), ms(s.t)));
            }
        }
    }
}

/// One-shot jobs: executions = submission + reactivations - cancellations (after the backlog drained).
fn conservation(h: &H, v: &mut V) {
    for id in h.job_ids() {
        let runs: Vec<&OpRec> = h.ops_of(&id).filter(|o| o.tag().is_some()).collect();
        let one_shot = runs.iter().all(|o| match &o.op {
            Op::Run { ctx, data, .. } => ctx.retry.is_none() && !matches!(ctx.when, When::Cron { .. }) && data.steps.iter().all(|s| s.out != Out::Hang),
            Op::Update { ctx, data, .. } => ctx.as_ref().map(|c| c.retry.is_none() && !matches!(c.when, When::Cron { .. })).unwrap_or(true) && data.steps.iter().all(|s| s.out != Out::Hang),
            _ => true,
        });
        if !one_shot || h.st(&id).is_empty() {
            continue;
        }
        // what reactivated it
        let mut owed = 1i64;
        let sts = h.st(&id);
        let mut why = vec!["submitted".to_string()];
        for o in h.ops_of(&id) {
            match &o.op {
                Op::Run { data, .. } | Op::Update { data, .. } => {
                    if let Some(p) = sts.iter().position(|s| s.v.tag == data.tag && s.seq > o.inv && s.seq < o.ret.min(INF - 1)) {
                        if p > 0 && done(sts[p - 1].v.st) && sts[p].v.st == QUEUED {
                            owed += 1;
                            why.push(format!("#{} re-ran it", o.n));
                        }
                    } else if let Op::Run { wait: false, .. } = &o.op {
                        // fire and forget takes effect later
                        if let Some(p) = sts.iter().position(|s| s.v.tag == data.tag) {
                            if p > 0 && done(sts[p - 1].v.st) && sts[p].v.st == QUEUED {
                                owed += 1;
                                why.push(format!("#{} re-ran it", o.n));
                            }
                        }
                    }
                }
                Op::Retry { .. } => {
                    if let Some(Res::Bool(true)) = o.res {
                        owed += 1;
                        why.push(format!("#{} retried it", o.n));
                    }
                }
                _ => {}
            }
        }
        let d = h.deduped(&id);
        let cancelled = d.iter().filter(|x| x.1 == CANCELED).count() as i64;
        // still waiting at the end (its time has not come)?
        let last = sts.last().unwrap();
        let pending = if last.v.st == QUEUED {
            match last.v.jt {
                JType::At(due) => {
                    let t = h.when_wall(last.seq, due * 1000);
                    (t.saturating_add(h.grace(t, h.ticks() * 4)) >= h.end_t) as i64
                }
                _ => (last.t + h.grace(last.t, h.ticks() * 4) >= h.end_t) as i64,
            }
        } else {
            0
        };
        let n = h.execs_of(&id).count() as i64;
        v.need(n == owed - cancelled - pending, || {
            format!("job {id} was executed {n} times; owed {} ({}; {cancelled} cancelled; {pending} pending); record ends {}", owed - cancelled - pending, why.join(", "), st_name(last.v.st))
        });
    }
}

/// Updates (and, with the same rules but a fresh context, resubmissions).
fn updates(h: &H, v: &mut V, only_update: bool) {
    for o in &h.ops {
        let (data, new_ctx) = match &o.op {
            Op::Update { data, .. } => (data, o.ctx.clone()),
            Op::Run { data, .. } if !only_update => (data, o.ctx.clone()),
            _ => continue,
        };
        if o.ret == INF {
            continue;
        }
        let first_submission = matches!(o.op, Op::Run { .. }) && h.at(&o.id, o.inv).is_none() && !h.ops_of(&o.id).any(|x| x.inv < o.inv && x.tag().is_some());
        let forget = matches!(o.op, Op::Run { wait: false, .. });
        let sts = h.st(&o.id);
        let eff = sts.iter().position(|s| s.v.tag == data.tag);
        match eff {
            Some(p) => {
                let s = &sts[p];
                v.need(s.seq > o.inv && (forget || s.seq < o.ret), || format!("call #{} took effect after it had returned", o.n));
                v.need(s.v.intact, || format!("call #{}: stored data differs from what was given", o.n));
                if p > 0 && !first_submission {
                    let prev = &sts[p - 1];
                    v.need(prev.v.st != RUNNING, || format!("call #{} changed job {} while it was running", o.n, o.id));
                    let mode = if let Op::Run { mode, .. } = &o.op { *mode } else { 0 };
                    v.need(mode != 3, || format!("submission #{} replaced job {}, which it was not to", o.n, o.id));
                    v.need(mode != 1 || done(prev.v.st), || format!("submission #{} replaced the waiting job {}, which it was not to", o.n, o.id));
                    let want = if mode == 2 && done(prev.v.st) { prev.v.st } else { QUEUED };
                    v.need(s.v.st == want, || format!("call #{} left job {} recorded as {}", o.n, o.id, st_name(s.v.st)));
                    if only_update {
                        match &new_ctx {
                            None => {
                                v.need(s.v.ctx == prev.v.ctx && s.v.rc == prev.v.rc, || {
                                    format!("update #{} without a context changed the context of {}: {} (runs {}) became {} (runs {})", o.n, o.id, prev.v.ctx, prev.v.rc, s.v.ctx, s.v.rc)
                                });
                            }
                            Some(c) => v.need(s.v.jt == c.jt, || format!("update #{} stored schedule {:?} instead of {:?}", o.n, s.v.jt, c.jt)),
                        }
                    }
                }
                // every execution begun later uses it, until the next version
                let next_version = sts[p..].iter().find(|x| x.v.tag != data.tag).map(|x| x.seq).unwrap_or(INF);
                for e in h.execs_of(&o.id) {
                    // an execution that was already picked keeps its data; it was running then
                    if e.start > s.seq && e.start < next_version {
                        v.need(e.tag == data.tag && e.intact, || format!("job {} was executed with data of version {} although #{} had replaced it", o.id, e.tag, o.n));
                    }
                }
            }
            None => {
                if o.ok() && !forget {
                    let seen = h.during(&o.id, o.inv, o.ret);
                    let excused = seen.iter().any(|s| s.v.st == RUNNING)
                        || matches!(o.op, Op::Run { mode: 3, .. })
                        || (matches!(o.op, Op::Run { mode: 1, .. }) && seen.iter().any(|s| !done(s.v.st)))
                        || (matches!(o.op, Op::Update { .. }) && h.at(&o.id, o.inv).is_none());
                    v.need(excused, || format!("call #{} on job {} returned but had no effect, and the job was not running", o.n, o.id));
                }
            }
        }
        if let Some(Res::Err(e)) = &o.res {
            let unused = matches!(o.op, Op::Update { .. }) && !h.in_use(o) && e.contains("NoQueueRegister");
            if h.plan.faults == Faults::None && h.crashes.is_empty() && !unused {
                v.need(false, || format!("call #{} on job {} failed: {e}", o.n, o.id));
            }
        }
    }
    // nobody ever sees a mixture
    for (id, sts) in &h.stored {
        for s in sts {
            v.need(s.v.intact, || format!("the record of {id} holds data nobody submitted"));
        }
    }
    for e in &h.execs {
        v.need(e.intact, || format!("job {} was executed with data nobody submitted", e.id));
    }
    for o in &h.ops {
        if let Some(Res::Job(Some(g))) = &o.res {
            v.need(g.intact, || format!("query #{} returned data nobody submitted", o.n));
        }
    }
}

fn manual_retries(h: &H, v: &mut V) {
    for o in &h.ops {
        if !matches!(o.op, Op::Retry { .. }) || o.ret == INF {
            continue;
        }
        match &o.res {
            Some(Res::Bool(b)) => {
                let before = h.at(&o.id, o.inv);
                let inside: Vec<&St> = h.st(&o.id).iter().filter(|s| s.seq > o.inv && s.seq < o.ret).collect();
                let rivals = h.ops_of(&o.id).any(|x| x.n != o.n && (x.activating() || matches!(x.op, Op::Cancel { .. })) && x.inv < o.ret && x.eff > o.inv);
                let was_done = before.map(|s| done(s.v.st)).unwrap_or(false);
                if !rivals {
                    if was_done {
                        v.need(*b, || format!("manual retry #{} of the {} job {} reported false", o.n, st_name(before.unwrap().v.st), o.id));
                        if *b {
                            v.need(inside.iter().any(|s| s.v.st == QUEUED), || format!("manual retry #{} reported true but job {} was not queued again", o.n, o.id));
                        }
                    } else if inside.is_empty() {
                        v.need(!*b, || format!("manual retry #{} of job {} reported true although it was {}", o.n, o.id, before.map(|s| st_name(s.v.st)).unwrap_or("unknown")));
                    } else if *b {
                        // it must have been completed at some instant of the call
                        v.need(inside.iter().any(|s| done(s.v.st)), || format!("manual retry #{} of job {} reported true although it was never completed", o.n, o.id));
                    }
                }
                if *b {
                    // its data and counters are kept
                    if let Some(p) = h.st(&o.id).iter().position(|s| s.seq > o.inv && s.seq < o.ret && s.v.st == QUEUED) {
                        let sts = h.st(&o.id);
                        if p > 0 && !rivals {
                            v.need(sts[p].v.tag == sts[p - 1].v.tag && sts[p].v.intact, || format!("manual retry #{} changed the data of {}", o.n, o.id));
                            v.need(sts[p].v.rc == sts[p - 1].v.rc, || format!("manual retry #{} changed the run count of {} from {} to {}", o.n, o.id, sts[p - 1].v.rc, sts[p].v.rc));
                        }
                    }
                }
            }
            Some(Res::Err(e)) => {
                if h.plan.faults == Faults::None && (h.in_use(o) || !e.contains("NoQueueRegister")) {
                    v.need(false, || format!("manual retry #{} of {} failed: {e}", o.n, o.id));
                }
            }
            _ => {}
        }
    }
}

fn truthful(h: &H, v: &mut V) {
    for (id, sts) in &h.stored {
        let d = h.deduped(id);
        v.need(d.first().map(|x| x.1) == Some(QUEUED), || format!("job {id} was first recorded as {}", st_name(d[0].1)));
        for w2 in d.windows(2) {
            let (a, b) = (w2[0].1, w2[1].1);
            let ok = matches!((a, b), (QUEUED, RUNNING) | (RUNNING, FINISHED) | (RUNNING, FAILED) | (RUNNING, QUEUED) | (QUEUED, CANCELED)) || (done(a) && b == QUEUED);
            v.need(ok, || format!("job {id} went from {} to {}", st_name(a), st_name(b)));
        }
        // run counts
        for i in 0..sts.len() {
            let s = &sts[i];
            v.need(s.v.intact, || format!("the record of {id} holds data nobody submitted"));
            let prev = if i > 0 { sts[i - 1].v.rc } else { 0 };
            let ended = i > 0 && h.execs_of(id).any(|e| e.end > sts[i - 1].seq && e.end < s.seq);
            // the first record of a new submission or update, which brings its own context
            let fresh = s.v.st == QUEUED
                && sts[..i].iter().all(|x| x.v.tag != s.v.tag)
                && h.ops_of(id).any(|o| o.tag() == Some(s.v.tag) && o.ctx.as_ref().map(|c| c.rc) == Some(s.v.rc));
            // when it happened
            let changed = i == 0 || sts[i - 1].v.st != s.v.st;
            if changed && h.jumps.is_empty() {
                let k = match s.v.st {
                    QUEUED => 0,
                    RUNNING => 1,
                    CANCELED => 3,
                    _ => 2,
                };
                let now = s.w / 1_000_000;
                v.need(s.v.stamps[k].map(|t| t <= now && t >= now - 5).unwrap_or(false), || format!("job {id} was recorded as {} at {now}, its timestamp for that says {:?}", st_name(s.v.st), s.v.stamps[k]));
            }
            let want = prev + ended as u64;
            v.need(s.v.rc == want || fresh, || format!("the record of {id} counts {} runs, expected {want}", s.v.rc));
        }
    }
    for e in &h.execs {
        let sts = h.st(&e.id);
        let at = h.at(&e.id, e.start);
        v.need(at.map(|s| s.v.st) == Some(RUNNING), || format!("job {} executes while it is recorded as {}", e.id, at.map(|s| st_name(s.v.st)).unwrap_or("missing")));
        if let Some(a) = at {
            v.need(a.v.tag == e.tag, || format!("job {} executes other data than recorded", e.id));
            v.need(e.rc == a.v.rc + 1, || format!("job {} sees run count {} in its execution number {}", e.id, e.rc, a.v.rc + 1));
        }
        for s in sts.iter().filter(|s| s.seq > e.start && s.seq < e.end) {
            v.need(s.v.st == RUNNING, || format!("job {} was recorded as {} while it was executing", e.id, st_name(s.v.st)));
        }
        if e.end != INF {
            if let Some(n) = sts.iter().find(|s| s.seq > e.end) {
                let failed = e.out.as_ref().map(|o| o.failed()).unwrap_or(false);
                let again = match &n.v.jt {
                    JType::Cron(..) => true,
                    _ => n.v.retried.is_some() && (failed || matches!(e.out, Some(Out::Again(_)))),
                };
                let ok = match n.v.st {
                    FINISHED => !failed,
                    FAILED => failed,
                    QUEUED => again,
                    _ => false,
                };
                v.need(ok, || format!("job {} is recorded as {} after its execution ended with {:?}", e.id, st_name(n.v.st), e.out));
            } else {
                v.need(e.end_t + h.grace(e.end_t, h.ticks()) >= h.end_t, || format!("nothing was recorded after job {} ended", e.id));
            }
        }
    }
    for o in &h.ops {
        if let (Op::Get { .. }, Some(Res::Job(g))) = (&o.op, &o.res) {
            let can: Vec<&St> = h.during(&o.id, o.inv, o.ret);
            match g {
                None => v.need(h.at(&o.id, o.inv).is_none(), || format!("query #{} did not find job {}", o.n, o.id)),
                Some(g) => v.need(can.iter().any(|s| s.v == *g), || format!("query #{} of {} returned {:?}, recorded was {:?}", o.n, o.id, g, can.last().map(|s| &s.v))),
            }
        }
    }
    for o in h.ops.iter().filter(|o| matches!(o.op, Op::Run { wait: true, .. }) && o.ok()) {
        v.need(h.at(&o.id, o.ret).is_some(), || format!("job {} was accepted but not recorded", o.id));
        if let Some(f) = h.finals.get(&o.id) {
            let last = h.st(&o.id).last().map(|s| s.v.clone());
            v.need(*f == last, || format!("the final query of {} returned {f:?}, recorded was {last:?}", o.id));
        }
    }
}

fn hooks(h: &H, v: &mut V) {
    let mut regs: Vec<(usize, u64)> = vec![];
    for (seq, n) in &h.notes {
        if let Some(r) = n.strip_prefix("plugin ") {
            let (p, ok) = r.split_once(" registered: ").unwrap();
            v.need(ok == "true", || format!("registering plugin {p} failed"));
            regs.push((p.parse().unwrap(), *seq));
        }
    }
    for (p, reg) in regs {
        for id in h.job_ids() {
            let first = h.ops_of(&id).map(|o| o.inv).min().unwrap_or(0);
            if first < reg {
                continue;
            }
            let hk = |kind: u8, end: bool| -> Vec<&Ev> { h.evs.iter().filter(|e| matches!(&e.k, K::Hook { p: q, kind: k, id: i, end: en, .. } if *q == p && *k == kind && *i == id && *en == end)).collect() };
            let (b0, b1, a0, a1) = (hk(0, false), hk(0, true), hk(1, false), hk(1, true));
            let ex: Vec<&Exec> = h.execs_of(&id).collect();
            v.need(b1.len() == ex.len() && b0.len() == ex.len(), || format!("plugin {p}: before-run was called {} times for the {} executions of {id}", b0.len(), ex.len()));
            let ended = ex.iter().filter(|e| e.end != INF).count();
            v.need(a0.len() == ended && a1.len() == ended, || format!("plugin {p}: after-run was called {} times for the {ended} executions of {id}", a0.len()));
            for (k, e) in ex.iter().enumerate() {
                if let Some(b) = b1.get(k) {
                    // an execution begins with its pre-execution step and ends with its post-execution step
                    v.need(b.seq < e.start, || format!("plugin {p}: before-run of {id} had not completed when execution {} began", k + 1));
                    if k > 0 {
                        if let Some(a) = a1.get(k - 1) {
                            v.need(a.seq < b0[k].seq, || format!("plugin {p}: before-run {} of {id} was called before after-run {k} completed", k + 1));
                        }
                    }
                }
                if let Some(a) = a0.get(k) {
                    v.need(a.seq > e.end, || format!("plugin {p}: after-run of {id} was called before execution {} ended", k + 1));
                }
            }
            // announcements
            let mut want: BTreeMap<u8, i64> = BTreeMap::new();
            for (_, s) in h.deduped(&id) {
                *want.entry(s).or_insert(0) += 1;
            }
            let mut got: BTreeMap<u8, i64> = BTreeMap::new();
            for e in hk(2, true) {
                if let K::Hook { st, .. } = e.k {
                    *got.entry(st).or_insert(0) += 1;
                }
            }
            v.need(want == got, || {
                let f = |m: &BTreeMap<u8, i64>| m.iter().map(|(k, v)| format!("{} x{v}", st_name(*k))).collect::<Vec<_>>().join(", ");
                format!("plugin {p}: status changes of {id} announced as [{}], recorded were [{}]", f(&got), f(&want))
            });
        }
    }
}

/// Backend errors (calls that fail without effect) for a while, then none.
fn faulty(h: &H, v: &mut V) {
    let stop = match &h.plan.faults {
        Faults::Random { until_ms, .. } => *until_ms * MS,
        Faults::Explicit(_) => h.evs.iter().filter(|e| matches!(e.k, K::Fault { .. })).map(|e| e.t).max().unwrap_or(0),
        Faults::None => 0,
    };
    let stop = stop.max(h.evs.iter().filter(|e| matches!(e.k, K::Fault { .. })).map(|e| e.t).max().unwrap_or(0));
    cancels(h, v);
    manual_retries(h, v);
    for id in h.job_ids() {
        let subs: Vec<&OpRec> = h.ops_of(&id).filter(|o| matches!(o.op, Op::Run { .. })).collect();
        let versions = subs.iter().filter_map(|o| o.tag()).collect::<std::collections::BTreeSet<_>>().len();
        let touched = versions > 1 || h.ops_of(&id).any(|o| matches!(o.op, Op::Cancel { .. } | Op::Update { .. } | Op::Retry { .. }));
        let acked = subs.iter().any(|o| matches!(o.op, Op::Run { wait: true, .. }) && o.ok());
        let n = h.execs_of(&id).count();
        for o in subs.iter().filter(|o| matches!(o.op, Op::Run { wait: true, .. }) && o.ok()) {
            v.need(h.at(&id, o.ret).is_some(), || format!("submission of {id} reported success but nothing was recorded"));
        }
        for e in h.execs_of(&id) {
            v.need(e.intact, || format!("job {id} was executed with data nobody submitted"));
        }
        // nothing recorded as waiting or running is forgotten
        if let Some(f) = h.finals.get(&id).cloned().flatten() {
            let endless = h.ops_of(&id).any(|o| match &o.op {
                Op::Run { ctx, .. } | Op::Update { ctx: Some(ctx), .. } => matches!(ctx.when, When::Cron { .. }) || ctx.retry.is_some(),
                _ => false,
            });
            let hangs = h.execs_of(&id).any(|e| e.end == INF);
            let due = match f.jt {
                JType::At(due) => h.when_wall(0, due * 1000).max(stop),
                _ => stop,
            };
            let enough = due.saturating_add(h.grace(due, h.ticks() * 4)) < h.end_t;
            if !endless && !hangs && enough && (f.st == QUEUED || f.st == RUNNING) {
                let last = h.st(&id).last().map(|s| s.t).unwrap_or(0).max(stop);
                v.need(last.saturating_add(h.grace(last, h.ticks() * 4)) >= h.end_t, || format!("job {id} stays {} for ever after the faults", st_name(f.st)));
            }
        }
        if !touched {
            v.need(n <= 1, || format!("one-shot job {id} was executed {n} times"));
            if acked {
                let f = h.finals.get(&id).cloned().flatten();
                v.need(n == 1, || format!("acknowledged job {id} was executed {n} times; reported {:?}", f.as_ref().map(|f| st_name(f.st))));
                if n == 1 {
                    let e = h.execs_of(&id).next().unwrap();
                    if e.end != INF {
                        let want = if e.out.as_ref().map(|o| o.failed()).unwrap_or(false) { FAILED } else { FINISHED };
                        v.need(f.as_ref().map(|f| f.st) == Some(want), || format!("job {id} is reported {:?} after it ended with {:?}", f.as_ref().map(|f| st_name(f.st)), e.out));
                    }
                }
            }
        } else {
            // with other calls: an upper bound only
            let mut owed = versions;
            for o in h.ops_of(&id).filter(|o| o.activating()) {
                owed += matches!(o.op, Op::Update { .. } | Op::Retry { .. }) as usize;
            }
            v.need(n <= owed, || format!("job {id} was executed {n} times, at most {owed} were asked for"));
        }
    }
    for o in &h.ops {
        // an update reported as done is in effect
        if let (Op::Update { data, .. }, true) = (&o.op, o.ok()) {
            let known = h.at(&o.id, o.inv).is_some();
            let seen = h.during(&o.id, o.inv, o.ret);
            if known && seen.iter().all(|s| s.v.st != RUNNING) {
                v.need(seen.iter().any(|s| s.v.tag == data.tag), || format!("update #{} of {} reported success without effect", o.n, o.id));
            }
        }
    }
    // no capacity is lost: after the faults the queue is work-conserving again
    for ty in 0..4 {
        work_conserving(h, v, ty, stop + h.grace(stop, h.ticks()));
    }
    limit(h, v);
}

fn survive(h: &H, v: &mut V) {
    if h.crashes.is_empty() {
        return;
    }
    // nothing is acknowledged without being done
    for o in h.ops.iter().filter(|o| o.ok() && o.inv > h.crashes[0].0) {
        let met = h.during(&o.id, o.inv, o.ret);
        let waits = !met.is_empty() && met.iter().all(|s| s.v.st == QUEUED);
        match &o.op {
            Op::Update { data, .. } => v.need(!waits || met.iter().any(|s| s.v.tag == data.tag), || format!("update #{} of the waiting job {} reported success after the restart, but changed nothing", o.n, o.id)),
            Op::Cancel { .. } => v.need(!waits, || format!("cancellation #{} of the waiting job {} reported success after the restart, but changed nothing", o.n, o.id)),
            _ => {}
        }
    }
    for id in h.job_ids() {
        let sub = h.ops_of(&id).find(|o| matches!(o.op, Op::Run { .. })).unwrap();
        let (data, ctx) = match &sub.op {
            Op::Run { data, ctx, .. } => (data, ctx),
            _ => unreachable!(),
        };
        let touched = h.ops_of(&id).any(|o| matches!(o.op, Op::Cancel { .. } | Op::Update { .. } | Op::Retry { .. }));
        let again = h.ops_of(&id).filter(|o| matches!(o.op, Op::Run { .. })).count() > 1;
        let at_crash: Vec<Option<u8>> = h.crashes.iter().map(|c| h.at(&id, c.0).map(|s| s.v.st)).collect();
        let ran_at_crash = at_crash.iter().any(|s| *s == Some(RUNNING));
        let ex: Vec<&Exec> = h.execs_of(&id).collect();
        for e in &ex {
            v.need(e.intact, || format!("job {id} was executed with data nobody submitted"));
        }
        // completed or cancelled before a crash: not executed after it
        for (i, c) in h.crashes.iter().enumerate() {
            if at_crash[i].map(done).unwrap_or(false) {
                let back = h.ops_of(&id).filter(|o| o.activating() && o.inv > c.0).map(|o| o.inv).min().unwrap_or(INF);
                v.need(!ex.iter().any(|e| e.start > c.0 && e.start < back), || format!("job {id} was {} before the crash and executed again after it", st_name(at_crash[i].unwrap())));
            }
        }
        // the schedule survived
        if let JType::At(due) = sub.ctx.as_ref().unwrap().jt {
            if let Some(e) = ex.first() {
                if !touched && !again {
                    v.need(h.max_wall(sub.inv, e.start) >= due * 1000, || format!("job {id} started before its time after a crash"));
                }
            }
        }
        // "as soon as its queue is in use again"
        let last_crash = h.crashes.iter().map(|c| c.0).max().unwrap();
        let ty = sub.op.ty();
        let in_use = h.ops.iter().any(|o| matches!(o.op, Op::Run { wait: true, .. }) && o.ok() && o.inv > last_crash && o.op.ty() == ty);
        if ran_at_crash || !in_use {
            // not claimed: executing when the process died.
            continue;
        }
        if touched || again {
            // whatever was asked for, it does not stay waiting for ever, and is not lost
            let any_ack = h.ops_of(&id).any(|o| matches!(o.op, Op::Run { wait: true, .. }) && o.ok());
            let endless = h.ops_of(&id).any(|o| match &o.op {
                Op::Run { ctx, .. } | Op::Update { ctx: Some(ctx), .. } => matches!(ctx.when, When::Cron { max_repeat: None, .. }) || matches!(&ctx.retry, Some(RetrySpec::Interval { max: None, .. }) | Some(RetrySpec::Exp { max: None, .. })),
                _ => false,
            });
            if any_ack && !endless {
                let f = h.finals.get(&id).cloned().flatten().map(|f| f.st);
                v.need(f.map(done) == Some(true), || format!("job {id} is {} after everything drained", f.map(st_name).unwrap_or("missing")));
            }
            continue;
        }
        let acked = sub.ok() && sub.ret != INF && (matches!(sub.op, Op::Run { wait: true, .. }) || at_crash[0].is_some());
        if matches!(ctx.when, When::Cron { .. }) {
            if let (Some(m), true) = (sub.ctx.as_ref().map(|c| if let JType::Cron(_, _, _, m, _) = &c.jt { *m } else { None }).unwrap_or(None), ctx.retry.is_none()) {
                v.need(ex.len() as i64 <= m, || format!("cron job {id} ran {} times across the crash, its maximum is {m}", ex.len()));
                let f = h.finals.get(&id).cloned().flatten().map(|f| f.st);
                if acked {
                    v.need(ex.len() as i64 == m && f.map(done) == Some(true), || format!("cron job {id} ran {} of {m} times across the crash and is {:?}", ex.len(), f.map(st_name)));
                }
            }
            continue;
        }
        let max = match &ctx.retry {
            None => Some(0),
            Some(RetrySpec::Interval { max, .. }) | Some(RetrySpec::Exp { max, .. }) => max.map(|m| m as i64),
        };
        if let Some(n) = expected_attempts(data, ctx.retry.is_some(), max) {
            v.need(ex.len() <= n, || format!("job {id} was executed {} times across the crash, expected {n}", ex.len()));
            if acked {
                v.need(ex.len() == n, || format!("acknowledged job {id} (at the crash: {}) was executed {} times across the crash, expected {n}", at_crash.iter().map(|s| s.map(st_name).unwrap_or("not recorded")).collect::<Vec<_>>().join(", "), ex.len()));
                let f = h.finals.get(&id).cloned().flatten().map(|f| f.st);
                v.need(f.map(done) == Some(true), || format!("job {id} is {} after everything drained", f.map(st_name).unwrap_or("missing")));
            }
        }
        // retries keep their distance across the crash
        if let Some(RetrySpec::Interval { ms: d, .. }) = &ctx.retry {
            for p in ex.windows(2) {
                if p[0].end != INF {
                    v.need(h.max_wall(p[0].end, p[1].start) >= p[0].end_w / 1000 * 1000 + retry_us(*d) * 1000, || format!("retry of {id} began too early after a crash"));
                }
            }
        }
    }
}

fn isolated(h: &H, v: &mut V) {
    accepted(h, v);
    limit(h, v);
    for id in h.job_ids() {
        let o = h.ops_of(&id).find(|o| matches!(o.op, Op::Run { .. })).unwrap();
        let (ty, data) = match &o.op {
            Op::Run { ty, data, .. } => (*ty, data),
            _ => unreachable!(),
        };
        let ex: Vec<&Exec> = h.execs_of(&id).collect();
        for e in &ex {
            v.need(e.ty == ty && e.tag == data.tag && e.intact, || format!("job {id} was executed by another type's queue or with other data"));
        }
        let retry = if let Op::Run { ctx, .. } = &o.op { ctx.retry.clone() } else { None };
        let max = match &retry {
            None => Some(0),
            Some(RetrySpec::Interval { max, .. } | RetrySpec::Exp { max, .. }) => max.map(|m| m as i64),
        };
        let manual: Vec<&OpRec> = h.ops_of(&id).filter(|x| matches!(x.op, Op::Retry { .. })).collect();
        let by_hand = manual.iter().filter(|x| x.res == Some(Res::Bool(true))).count();
        // was there time for everything after the last call?
        let last = h.evs.len() as u64 - 1;
        let load: u64 = h.ops.iter().map(|x| match &x.op {
            Op::Run { ty: t, data, ctx, .. } if *t == ty => {
                let wait = match &ctx.retry {
                    None => 0,
                    Some(RetrySpec::Interval { max, ms }) => max.unwrap_or(0).max(0) as u64 * (retry_us(*ms).max(0) as u64),
                    Some(RetrySpec::Exp { max, ms }) => (retry_us(*ms).max(0) as u64) << (max.unwrap_or(0).max(0) + retry_used(*ms) + 1).min(20),
                };
                data.steps.iter().map(|s| step_ms(data.tag, s) * MS + h.ticks()).sum::<u64>() + wait * 1000
            }
            Op::Retry { ty: t, .. } if *t == ty => 3 * (200 * MS + h.ticks()),
            _ => 0,
        }).sum();
        let calm = h.ops.iter().map(|x| if x.ret == INF { INF } else { h.evs[x.ret as usize].t }).max().unwrap_or(0);
        let calm = match o.ctx.as_ref().map(|c| c.jt.clone()) {
            Some(JType::At(d)) => calm.max(h.when_wall(o.inv, d * 1000)),
            _ => calm,
        };
        let stuck = h.execs.iter().any(|e| e.ty == ty && e.end == INF)
            || h.caps(ty, last, last).0 == 0
            || calm == INF
            || calm.saturating_add(h.grace(calm, load)) >= h.end_t;
        let mut settled = true;
        if retry.is_none() {
            v.need(ex.len() <= 1 + by_hand, || format!("job {id} was executed {} times, allowed are {}", ex.len(), 1 + by_hand));
            settled = ex.len() == 1 + by_hand;
            // a retry by hand that was accepted is carried out
            if by_hand > 0 && !stuck {
                v.need(settled, || format!("job {id} was executed {} times although {by_hand} retries by hand were accepted", ex.len()));
            }
        } else if by_hand == 0 {
            if let Some(n) = expected_attempts(data, true, max) {
                v.need(ex.len() <= n, || format!("job {id} was executed {} times, its policy allows {n}", ex.len()));
                settled = ex.len() == n;
                v.need(settled || stuck, || format!("job {id} was executed {} times, its policy calls for {n}", ex.len()));
            }
        } else {
            // the budget goes on from where it was
            settled = ex.last().map_or(false, |l| manual.iter().all(|m| m.ret < l.start) && l.out.as_ref().map_or(false, |x| x.panics() || !x.failed() && !matches!(x, Out::Again(_))));
        }
        if let Some(e) = ex.last().filter(|_| settled) {
            if e.end != INF {
                let want = if e.out.as_ref().map(|x| x.failed()).unwrap_or(false) { FAILED } else { FINISHED };
                let f = h.finals.get(&id).cloned().flatten().map(|f| f.st);
                v.need(f == Some(want), || format!("job {id} ended with {:?} and is recorded as {}", e.out, f.map(st_name).unwrap_or("missing")));
            }
        }
    }
    for ty in 0..4 {
        work_conserving(h, v, ty, 0);
    }
    all_started(h, v);
    for o in &h.ops {
        if let (Op::Get { .. }, Some(Res::Job(g))) = (&o.op, &o.res) {
            if let Some(s) = h.at(&o.id, o.inv) {
                v.need(g.is_some(), || format!("query #{} did not find job {} recorded as {}", o.n, o.id, st_name(s.v.st)));
            }
        }
    }
}

fn macros(h: &H, v: &mut V) {
    let runs: Vec<(&Ev, &MacroArgs)> = h.evs.iter().filter_map(|e| if let K::MacroRun { args } = &e.k { Some((e, args)) } else { None }).collect();
    let mut used = vec![false; runs.len()];
    for o in &h.ops {
        if let Op::Macro { args, ctx, .. } = &o.op {
            if let Some(Res::Err(e)) = &o.res {
                v.need(false, || format!("call #{} of a declared job failed: {e}", o.n));
                continue;
            }
            let mine: Vec<usize> = (0..runs.len()).filter(|i| runs[*i].1 == args).collect();
            let cron = matches!(ctx.as_ref().map(|c| &c.when), Some(When::Cron { .. }));
            let want = match ctx.as_ref().map(|c| &c.when) {
                Some(When::Cron { max_repeat: Some(m), .. }) => *m as usize,
                _ => 1,
            };
            v.need(mine.len() == want, || format!("declared job called with {args:?} was executed {} times with these arguments, expected {want}", mine.len()));
            for i in mine {
                used[i] = true;
                if let Some(c) = &o.ctx {
                    if let JType::At(due) = c.jt {
                        v.need(h.max_wall(o.inv, runs[i].0.seq) >= due * 1000, || format!("declared job {args:?} ran before the time of its context"));
                    }
                    if let JType::Cron(_, slot, ..) = c.jt {
                        v.need(runs[i].0.w >= slot * 1000, || format!("declared job {args:?} ran before its first instant"));
                    }
                }
            }
            if let (Some(c), Some(res)) = (&o.ctx, &o.res) {
                let id = match res {
                    Res::Id(id) => id,
                    _ => &o.id,
                };
                v.need(*id == o.id, || format!("declared job was given context id {} and returned {id}", o.id));
                let f = h.finals.get(id).cloned().flatten();
                v.need(f.is_some(), || format!("declared job {id} was not found"));
                if let Some(f) = f {
                    if let (JType::Cron(e, _, _, m, end), JType::Cron(fe, _, _, fm, fend)) = (&c.jt, &f.jt) {
                        v.need((e, m, end) == (fe, fm, fend), || format!("declared job {id} stored schedule {:?}, given was {:?}", f.jt, c.jt));
                    }
                    v.need(cron || f.jt == c.jt, || format!("declared job {id} stored schedule {:?}, given was {:?}", f.jt, c.jt));
                    v.need(f.retried.is_some() == c.retried.is_some(), || format!("declared job {id} lost or gained a retry policy"));
                }
            }
        }
    }
    v.need(used.iter().all(|u| *u), || "a declared job was executed with arguments nobody passed".to_string());
}
