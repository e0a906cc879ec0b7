//! Indexed view of a recorded history.
use crate::plan::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub const MS: u64 = 1_000_000;
pub const INF: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub struct OpRec {
    pub n: usize,
    pub c: usize,
    pub op: Op,
    pub id: String,
    pub ctx: Option<View>,
    pub inv: u64,
    pub inv_t: u64,
    pub inv_w: i64,
    pub inc: u32,
    /// INF if it never returned
    pub ret: u64,
    pub ret_t: u64,
    /// from here on the call can have no further effect (later than its return if fire-and-forget)
    pub eff: u64,
    pub res: Option<Res>,
}
impl OpRec {
    pub fn tag(&self) -> Option<u64> {
        match &self.op {
            Op::Run { data, .. } | Op::Update { data, .. } => Some(data.tag),
            _ => None,
        }
    }
    pub fn ok(&self) -> bool {
        !matches!(self.res, None | Some(Res::Err(_)))
    }
    pub fn activating(&self) -> bool {
        matches!(self.op, Op::Run { .. } | Op::Update { .. } | Op::Retry { .. })
    }
}

#[derive(Clone, Debug)]
pub struct Exec {
    pub x: usize,
    pub id: String,
    pub ty: u8,
    pub tag: u64,
    pub intact: bool,
    pub rc: u64,
    pub kth: usize,
    /// the body alone
    pub body: u64,
    pub done: u64,
    /// with the steps before and after it
    pub start: u64,
    pub start_t: u64,
    pub start_w: i64,
    pub end: u64,
    pub end_t: u64,
    pub end_w: i64,
    pub out: Option<Out>,
    pub inc: u32,
}

#[derive(Clone, Debug)]
pub struct St {
    pub seq: u64,
    pub t: u64,
    pub w: i64,
    pub inc: u32,
    pub v: View,
}

pub struct H<'a> {
    pub plan: &'a Plan,
    pub evs: &'a [Ev],
    pub ops: Vec<OpRec>,
    pub execs: Vec<Exec>,
    pub stored: BTreeMap<String, Vec<St>>,
    pub finals: BTreeMap<String, Option<View>>,
    pub stalls: Vec<(u64, u64)>,
    pub jumps: Vec<(u64, u64, i64, i64)>,
    pub crashes: Vec<(u64, u64)>,
    pub end_t: u64,
    pub aborted: Option<String>,
    pub tick_ms: u64,
    pub notes: Vec<(u64, String)>,
}

impl<'a> H<'a> {
    pub fn new(plan: &'a Plan, world: &'a World, aborted: Option<&str>) -> Self {
        let mut ops: Vec<OpRec> = vec![];
        let mut execs: Vec<Exec> = vec![];
        let mut stored: BTreeMap<String, Vec<St>> = BTreeMap::new();
        let mut finals = BTreeMap::new();
        let mut pre: BTreeMap<String, &Ev> = BTreeMap::new();
        let (mut stalls, mut jumps, mut crashes, mut notes) = (vec![], vec![], vec![], vec![]);
        for e in &world.evs {
            match &e.k {
                K::Inv { n, c, op, id, ctx } => ops.push(OpRec {
                    n: *n, c: *c, op: op.clone(), id: id.clone(), ctx: ctx.clone(),
                    inv: e.seq, inv_t: e.t, inv_w: e.w, inc: e.inc, ret: INF, ret_t: INF, eff: INF, res: None,
                }),
                K::Ret { n, r } => {
                    if let Some(o) = ops.iter_mut().rev().find(|o| o.n == *n) {
                        o.ret = e.seq;
                        o.ret_t = e.t;
                        o.eff = e.seq;
                        o.res = Some(r.clone());
                    }
                }
                K::Pre { id } => {
                    pre.insert(id.clone(), e);
                }
                K::Start { x, id, ty, tag, intact, rc, kth } => {
                    let b = pre.remove(id).filter(|p| p.inc == e.inc).unwrap_or(e);
                    execs.push(Exec {
                        x: *x, id: id.clone(), ty: *ty, tag: *tag, intact: *intact, rc: *rc, kth: *kth, body: e.seq, done: INF,
                        start: b.seq, start_t: b.t, start_w: b.w, end: INF, end_t: INF, end_w: i64::MAX, out: None, inc: e.inc,
                    });
                }
                K::End { x, out, .. } => {
                    if let Some(r) = execs.iter_mut().rev().find(|r| r.x == *x) {
                        r.done = e.seq;
                        r.out = Some(out.clone());
                        if *out == Out::Panic {
                            (r.end, r.end_t, r.end_w) = (e.seq, e.t, e.w);
                        }
                    }
                }
                K::Post { id } => {
                    if let Some(r) = execs.iter_mut().find(|r| r.id == *id && r.inc == e.inc && r.done != INF && r.end == INF) {
                        (r.end, r.end_t, r.end_w) = (e.seq, e.t, e.w);
                    }
                }
                K::Stored { id, v, .. } => stored.entry(id.clone()).or_default().push(St { seq: e.seq, t: e.t, w: e.w, inc: e.inc, v: v.clone() }),
                K::Final { id, v } => {
                    finals.insert(id.clone(), v.clone());
                }
                K::Stall { ms, .. } => stalls.push((e.t, ms * MS)),
                K::Jump { ms, before } => jumps.push((e.seq, e.t, *before, *ms)),
                K::Crash { .. } => crashes.push((e.seq, e.t)),
                K::Note(s) => notes.push((e.seq, s.clone())),
                _ => {}
            }
        }
        let mut tick_ms = 100;
        for c in plan.clients.iter().chain(plan.after.iter().flatten()) {
            for o in &c.ops {
                if let Op::Config { tick_ms: t, .. } = o {
                    tick_ms = tick_ms.max(*t);
                }
            }
        }
        let mut h = H {
            plan, evs: &world.evs, ops, execs, stored, finals, stalls, jumps, crashes,
            end_t: world.evs.last().map(|e| e.t).unwrap_or(0),
            aborted: aborted.map(|s| s.to_string()), tick_ms, notes,
        };
        for i in 0..h.ops.len() {
            let o = &h.ops[i];
            if let Op::Run { wait: false, data, .. } = &o.op {
                let seen = h.st(&o.id).iter().find(|s| s.v.tag == data.tag && s.seq > o.inv).map(|s| s.seq);
                let late = || {
                    // lost with the process, perhaps
                    if h.crashes.iter().any(|c| c.0 > o.inv) {
                        return INF;
                    }
                    let t = o.inv_t + h.grace(o.inv_t, h.ticks());
                    h.evs.iter().find(|e| e.t > t).map(|e| e.seq).unwrap_or(INF)
                };
                let eff = seen.unwrap_or_else(late);
                h.ops[i].eff = eff;
            }
        }
        h
    }
    /// the wall clock at simulated time `t` (at its end, if it jumps then)
    pub fn wall_at(&self, t: u64) -> i64 {
        let e = match self.evs.iter().rev().find(|e| e.t <= t) {
            Some(e) => e,
            None => return 0,
        };
        let mut w = e.w + (t - e.t) as i64;
        if let K::Jump { ms, before } = &e.k {
            w = before + ms * MS as i64 + (t - e.t) as i64;
        }
        w
    }

    pub fn execs_of<'b>(&'b self, id: &'b str) -> impl Iterator<Item = &'b Exec> + 'b {
        self.execs.iter().filter(move |e| e.id == id)
    }
    pub fn ops_of<'b>(&'b self, id: &'b str) -> impl Iterator<Item = &'b OpRec> + 'b {
        self.ops.iter().filter(move |o| o.id == id)
    }
    /// Was the queue of the operation's type in use when it was called: an awaited submission to it returned before?
    pub fn in_use(&self, o: &OpRec) -> bool {
        self.ops.iter().any(|x| matches!(x.op, Op::Run { wait: true, .. }) && x.op.ty() == o.op.ty() && x.inc == o.inc && x.ok() && x.ret < o.inv)
    }
    pub fn job_ids(&self) -> BTreeSet<String> {
        self.ops.iter().filter(|o| matches!(o.op, Op::Run { .. })).map(|o| o.id.clone()).collect()
    }
    pub fn st(&self, id: &str) -> &[St] {
        self.stored.get(id).map(|v| v.as_slice()).unwrap_or(&[])
    }
    /// state recorded just before event `seq`
    pub fn at(&self, id: &str, seq: u64) -> Option<&St> {
        self.st(id).iter().rev().find(|s| s.seq < seq)
    }
    /// all states the record had at some instant in [a, b]
    pub fn during(&self, id: &str, a: u64, b: u64) -> Vec<&St> {
        let mut v: Vec<&St> = self.at(id, a).into_iter().collect();
        v.extend(self.st(id).iter().filter(|s| s.seq >= a && s.seq <= b));
        v
    }

    /// `base` plus the stalls that fall into the time waited
    pub fn grace(&self, t0: u64, base: u64) -> u64 {
        let mut g = base;
        let mut s = self.stalls.clone();
        s.sort();
        for (t, d) in s {
            if t + d > t0 && t <= t0.saturating_add(g) {
                g += d;
            }
        }
        g
    }
    /// "a few ticks"
    pub fn ticks(&self) -> u64 {
        (3 * self.tick_ms + 60) * MS
    }
    /// "a few ticks" of the length in force for this type from `t` on (the one in force before may still have to pass)
    pub fn ticks_from(&self, ty: u8, t: u64) -> u64 {
        let most = self.grace(t.saturating_sub(self.tick_ms * MS), self.tick_ms * MS);
        let (from, to) = (t.saturating_sub(2 * most), t.saturating_add(4 * most));
        let cfg: Vec<(&OpRec, u64)> = self
            .ops
            .iter()
            .filter_map(|o| match o.op {
                Op::Config { ty: t, tick_ms, .. } if t == ty && !matches!(o.res, Some(Res::Err(_))) => Some((o, tick_ms)),
                _ => None,
            })
            .collect();
        let past: Vec<_> = cfg.iter().filter(|(o, _)| o.ret_t < from && o.inc == self.evs.last().map_or(0, |e| e.inc)).collect();
        let mut m = if past.is_empty() { 100 } else { 0 };
        for (o, tick) in &past {
            if !past.iter().any(|(y, _)| y.inv > o.ret) {
                m = m.max(*tick);
            }
        }
        for (o, tick) in &cfg {
            if o.ret_t >= from && o.inv_t <= to {
                m = m.max(*tick);
            }
        }
        (3 * m + 60) * MS
    }
    /// highest wall-clock reading in the event range
    pub fn max_wall(&self, a: u64, b: u64) -> i64 {
        let mut m = i64::MIN;
        for e in &self.evs[a as usize..=(b as usize).min(self.evs.len() - 1)] {
            m = m.max(e.w);
            if let K::Jump { before, .. } = e.k {
                m = m.max(before);
            }
        }
        m
    }
    /// simulated time at which the wall clock first reads >= `wall`, from event `seq` on
    pub fn when_wall(&self, seq: u64, wall: i64) -> u64 {
        let e = &self.evs[seq as usize];
        let (mut t, mut w) = (e.t, e.w);
        if w >= wall {
            return t;
        }
        for (js, jt, before, ms) in &self.jumps {
            if *js < seq {
                continue;
            }
            if *before >= wall {
                return t + (wall - w) as u64;
            }
            t = *jt;
            w = *before + ms * MS as i64;
            if w >= wall {
                return t;
            }
        }
        t + (wall - w) as u64
    }

    /// (lowest, highest) limit that may be in force somewhere in the event range
    pub fn caps(&self, ty: u8, a: u64, b: u64) -> (usize, usize) {
        let cfg: Vec<(&OpRec, usize)> = self
            .ops
            .iter()
            .filter_map(|o| match o.op {
                Op::Config { ty: t, cap, .. } if t == ty && !matches!(o.res, Some(Res::Err(_))) => Some((o, cap)),
                _ => None,
            })
            .collect();
        let mut set = vec![];
        let past: Vec<_> = cfg.iter().filter(|(o, _)| o.ret < a).collect();
        for (o, cap) in &past {
            if !past.iter().any(|(y, _)| y.inv > o.ret) {
                set.push(*cap);
            }
        }
        if past.is_empty() {
            set.push(20);
        }
        for (o, cap) in &cfg {
            if o.ret >= a && o.inv <= b {
                set.push(*cap);
            }
        }
        (*set.iter().min().unwrap(), *set.iter().max().unwrap())
    }

    pub fn deduped(&self, id: &str) -> Vec<(u64, u8)> {
        let mut v: Vec<(u64, u8)> = vec![];
        for s in self.st(id) {
            if v.last().map(|x| x.1) != Some(s.v.st) {
                v.push((s.seq, s.v.st));
            }
        }
        v
    }
}
