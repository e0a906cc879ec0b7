//! C15: the Redis backend alone, operation by operation, against a model of lists and maps, with
//! network faults inside the operations and a rival client's commands between its commands.
use crate::plan::*;
use crate::redis_sim as net;
use crate::world::*;
use aj::backend::types::{Backend, QueueDirection};
use detsim::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum BeOp {
    Push { q: u8, item: String },
    /// directions: true = front
    Move { from: u8, to: u8, n: usize, fd: bool, td: bool },
    Remove { q: u8, item: String },
    Get { q: u8, n: usize, d: bool },
    Count { q: u8 },
    Upsert { h: u8, k: String, v: String },
    Read { h: u8, k: String },
    /// the server closes every connection that is still open (a restart that keeps its data)
    DropConns,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct BeStep {
    pub client: u8,
    pub op: BeOp,
    pub fault: Option<Fault>,
    /// index, among the commands of the operation, at which a cut or an error reply happens
    pub at: u32,
    /// another client's operation, executed by the server before the command with that index
    pub rival: Option<(u32, BeOp)>,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Model {
    lists: BTreeMap<String, VecDeque<String>>,
    maps: BTreeMap<String, BTreeMap<String, String>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum BeRes {
    Unit,
    Items(Vec<String>),
    Num(usize),
    Val(Option<String>),
    Err(String),
}

const QUEUES: [&str; 4] = ["jobs:queue:Queued", "jobs:queue:Running", "a b\u{e9}\u{4e2d}", "jobs:queue"];
const HASHES: [&str; 2] = ["aj_storage", "other storage"];

fn dir(front: bool) -> QueueDirection {
    if front { QueueDirection::Front } else { QueueDirection::Back }
}

impl Model {
    fn take(&mut self, q: &str, front: bool) -> Option<String> {
        let l = self.lists.get_mut(q)?;
        let x = if front { l.pop_front() } else { l.pop_back() };
        if l.is_empty() {
            self.lists.remove(q);
        }
        x
    }
    fn put(&mut self, q: &str, front: bool, x: String) {
        let l = self.lists.entry(q.into()).or_default();
        if front { l.push_front(x) } else { l.push_back(x) }
    }
    /// one indivisible step; a move of n items is n of them
    fn micro(&mut self, op: &BeOp, res: &mut BeRes) {
        match op {
            BeOp::Push { q, item } => {
                self.put(QUEUES[*q as usize], true, item.clone());
                *res = BeRes::Unit;
            }
            BeOp::Move { from, to, fd, td, .. } => {
                if let Some(x) = self.take(QUEUES[*from as usize], *fd) {
                    self.put(QUEUES[*to as usize], *td, x.clone());
                    if let BeRes::Items(v) = res {
                        v.push(x);
                    }
                }
            }
            BeOp::Remove { q, item } => {
                let q = QUEUES[*q as usize];
                if let Some(l) = self.lists.get_mut(q) {
                    l.retain(|x| x != item);
                    if l.is_empty() {
                        self.lists.remove(q);
                    }
                }
                *res = BeRes::Unit;
            }
            BeOp::Get { q, n, d } => {
                let l: Vec<String> = self.lists.get(QUEUES[*q as usize]).map(|l| l.iter().cloned().collect()).unwrap_or_default();
                let v = if *d { l.into_iter().take(*n).collect() } else { l.into_iter().rev().take(*n).collect() };
                *res = BeRes::Items(v);
            }
            BeOp::Count { q } => *res = BeRes::Num(self.lists.get(QUEUES[*q as usize]).map(|l| l.len()).unwrap_or(0)),
            BeOp::Upsert { h, k, v } => {
                self.maps.entry(HASHES[*h as usize].into()).or_default().insert(k.clone(), v.clone());
                *res = BeRes::Unit;
            }
            BeOp::Read { h, k } => *res = BeRes::Val(self.maps.get(HASHES[*h as usize]).and_then(|m| m.get(k)).cloned()),
            BeOp::DropConns => {}
        }
    }
    fn whole(&mut self, op: &BeOp) -> BeRes {
        let mut r = start(op);
        for _ in 0..micros(op) {
            self.micro(op, &mut r);
        }
        r
    }
}
fn micros(op: &BeOp) -> usize {
    match op {
        BeOp::Move { n, .. } => *n,
        BeOp::DropConns => 0,
        _ => 1,
    }
}
fn start(op: &BeOp) -> BeRes {
    match op {
        BeOp::Move { .. } => BeRes::Items(vec![]),
        _ => BeRes::Unit,
    }
}

/// Every (state, result) the operation may lead to: `upto` micro steps, the rival anywhere between.
fn outcomes(m: &Model, op: &BeOp, rival: Option<&BeOp>, all: bool) -> Vec<(Model, BeRes)> {
    let n = micros(op);
    let mut out = vec![];
    for steps in if all { n..=n } else { 0..=n } {
        for pos in 0..=(if rival.is_some() { steps } else { 0 }) {
            let mut s = m.clone();
            let mut r = start(op);
            for i in 0..=steps {
                if let (true, Some(x)) = (i == pos, rival) {
                    s.whole(x);
                }
                if i < steps {
                    s.micro(op, &mut r);
                }
            }
            if !out.contains(&(s.clone(), r.clone())) {
                out.push((s, r));
            }
        }
    }
    out
}

fn call(b: &dyn Backend, op: &BeOp) -> BeRes {
    let e = |e: aj::Error| BeRes::Err(format!("{e:?}"));
    match op {
        BeOp::Push { q, item } => b.queue_push(QUEUES[*q as usize], item).map(|_| BeRes::Unit).unwrap_or_else(e),
        BeOp::Move { from, to, n, fd, td } => b.queue_move(QUEUES[*from as usize], QUEUES[*to as usize], *n, dir(*fd), dir(*td)).map(BeRes::Items).unwrap_or_else(e),
        BeOp::Remove { q, item } => b.queue_remove(QUEUES[*q as usize], item).map(|_| BeRes::Unit).unwrap_or_else(e),
        BeOp::Get { q, n, d } => b.queue_get(QUEUES[*q as usize], *n, dir(*d)).map(BeRes::Items).unwrap_or_else(e),
        BeOp::Count { q } => b.queue_count(QUEUES[*q as usize]).map(BeRes::Num).unwrap_or_else(e),
        BeOp::Upsert { h, k, v } => b.storage_upsert(HASHES[*h as usize], k, v.clone()).map(|_| BeRes::Unit).unwrap_or_else(e),
        BeOp::Read { h, k } => b.storage_get(HASHES[*h as usize], k).map(BeRes::Val).unwrap_or_else(e),
        BeOp::DropConns => BeRes::Unit,
    }
}

/// The commands of a rival, as the server would get them.
fn rival_cmds(op: &BeOp) -> Vec<Vec<Vec<u8>>> {
    let b = |s: &str| s.as_bytes().to_vec();
    let d = |f: bool| b(if f { "LEFT" } else { "RIGHT" });
    match op {
        BeOp::Push { q, item } => vec![vec![b("LPUSH"), b(QUEUES[*q as usize]), b(item)]],
        BeOp::Move { from, to, n, fd, td } => (0..*n).map(|_| vec![b("LMOVE"), b(QUEUES[*from as usize]), b(QUEUES[*to as usize]), d(*fd), d(*td)]).collect(),
        BeOp::Remove { q, item } => vec![vec![b("LREM"), b(QUEUES[*q as usize]), b("0"), b(item)]],
        BeOp::Upsert { h, k, v } => vec![vec![b("HSET"), b(HASHES[*h as usize]), b(k), b(v)]],
        _ => vec![],
    }
}

fn server_state() -> Model {
    let mut m = Model::default();
    let s = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    net::with(|sv| {
        for (k, l) in &sv.lists {
            if !l.is_empty() {
                m.lists.insert(s(k), l.iter().map(|x| s(x)).collect());
            }
        }
        for (k, h) in &sv.hashes {
            m.maps.insert(s(k), h.iter().map(|(a, b)| (s(a), s(b))).collect());
        }
    });
    m
}

pub fn drive(plan: &Plan) {
    let clients = [net::client(), net::client()];
    let clients = [clients[0].clone(), clients[0].clone(), clients[1].clone()];
    let mut model = Model::default();
    for (i, st) in plan.be.iter().enumerate() {
        detsim::tick(1_000_000);
        if st.op == BeOp::DropConns {
            net::drop_conns();
            log(K::Note(format!("step {i}: the server closes all connections")));
            continue;
        }
        if let Some(f) = st.fault {
            log(K::Fault { call: i as u64, f, what: format!("{:?}", st.op).chars().take(80).collect() });
        }
        net::arm_at(st.fault, st.at);
        net::set_rival(st.rival.as_ref().map(|(at, op)| (*at, rival_cmds(op))));
        let b = &clients[st.client as usize % 3];
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(b, &st.op))) {
            Ok(r) => r,
            Err(_) => {
                log(K::Note(format!("violation: step {i} {:?} panicked", st.op)));
                return;
            }
        };
        let rival_ran = net::rival_ran();
        net::set_rival(None);
        net::disarm();
        let now = server_state();
        log(K::Note(format!("step {i}: {} -> {}", short(&format!("{:?}", st.op)), short(&format!("{r:?}")))));
        let rival = st.rival.as_ref().filter(|_| rival_ran).map(|x| &x.1);
        let harmless = matches!(st.fault, None | Some(Fault::Frag(_)) | Some(Fault::Intr));
        let bad = match &r {
            BeRes::Err(e) if harmless => Some(format!("failed on a working network: {e}")),
            BeRes::Err(_) => {
                let ok = outcomes(&model, &st.op, rival, false).iter().any(|o| o.0 == now);
                (!ok).then(|| "reported an error and left a state that no part of it explains".to_string())
            }
            _ => {
                let o = outcomes(&model, &st.op, rival, true);
                if o.iter().any(|o| o.0 == now && o.1 == r) {
                    None
                } else if o.iter().any(|o| o.0 == now) {
                    Some(format!("returned {} instead of {}", short(&format!("{r:?}")), short(&format!("{:?}", o[0].1))))
                } else {
                    Some("reported success without exactly its effect".to_string())
                }
            }
        };
        if let Some(b) = bad {
            log(K::Note(format!("violation: {} {b}", name(&st.op))));
            log(K::Note(format!("step {i} {}: before {}; after {}", short(&format!("{:?}", st.op)), short(&format!("{model:?}")), short(&format!("{now:?}")))));
            return;
        }
        model = now;
    }
}

fn name(op: &BeOp) -> &'static str {
    match op {
        BeOp::Push { .. } => "queue_push",
        BeOp::Move { .. } => "queue_move",
        BeOp::Remove { .. } => "queue_remove",
        BeOp::Get { .. } => "queue_get",
        BeOp::Count { .. } => "queue_count",
        BeOp::Upsert { .. } => "storage_upsert",
        BeOp::Read { .. } => "storage_get",
        BeOp::DropConns => "drop",
    }
}
fn short(s: &str) -> String {
    if s.chars().count() <= 240 { s.to_string() } else { s.chars().take(240).collect::<String>() + "..." }
}

// ------------------------------------------------------------------ generator

pub fn generate(r: &mut Rng, heavy: bool) -> Vec<BeStep> {
    let n = 4 + r.below(if heavy { 60 } else { 24 });
    let nq = 1 + r.below(4);
    let fault_pc = *r.pick(&[0u64, 10, 25, 50]);
    let rival_pc = *r.pick(&[0u64, 0, 20, 40]);
    let big = r.pct(8);
    let deep = r.pct(2); // a long list
    let many: &[usize] = if deep { &[1, 5, 40, 99, 100, 127, 128, 129, 255, 256, 257, 1000] } else { &[0, 1, 1, 1, 2, 3, 5, 40] };
    let mut fresh = 0u32;
    let mut item = |r: &mut Rng, fresh: &mut u32| -> String {
        match r.below(12) {
            0 => String::new(),
            1 => "line\r\nbreak\r\n".into(),
            2 => "\u{0}\u{1}".into(),
            3 => "\u{4e2d}\u{6587} \u{1f600}".into(),
            4 => "$5\r\nhello\r\n".into(),
            5 if big => "x".repeat(20_000 + r.below(60_000) as usize),
            6 | 7 => format!("dup{}", r.below(3)),
            _ => {
                *fresh += 1;
                format!("item-{fresh}")
            }
        }
    };
    let mut known: Vec<String> = vec!["nothing".into()];
    let mut out = vec![];
    let mut mk = |r: &mut Rng, rival: bool, fresh: &mut u32, known: &mut Vec<String>| -> BeOp {
        let q = r.below(nq) as u8;
        match r.below(if rival { 12 } else { 20 }) {
            0..=4 => {
                let i = item(r, fresh);
                known.push(i.clone());
                BeOp::Push { q, item: i }
            }
            5..=8 => {
                let to = r.below(nq) as u8;
                let n = if rival || to == q { r.below(2) as usize } else { *r.pick(many) };
                BeOp::Move { from: q, to, n, fd: r.pct(50), td: r.pct(50) }
            }
            9 | 10 => BeOp::Remove { q, item: r.pick(known).clone() },
            11 => {
                let v = if r.pct(30) { String::new() } else { item(r, fresh) };
                BeOp::Upsert { h: r.below(2) as u8, k: format!("k{}", r.below(3)), v }
            }
            12 | 13 => BeOp::Upsert { h: r.below(2) as u8, k: if r.pct(15) { String::new() } else { format!("k{}", r.below(3)) }, v: item(r, fresh) },
            14 => BeOp::Count { q },
            15..=17 => BeOp::Get { q, n: if deep { *r.pick(many) } else { *r.pick(&[0usize, 1, 2, 3, 20, 1000]) }, d: r.pct(50) },
            _ => BeOp::Read { h: r.below(2) as u8, k: if r.pct(15) { String::new() } else { format!("k{}", r.below(4)) } },
        }
    };
    if deep {
        for _ in 0..100 + r.below(250) {
            let i = item(r, &mut fresh);
            out.push(BeStep { client: r.below(3) as u8, op: BeOp::Push { q: 0, item: i }, fault: None, at: 0, rival: None });
        }
    }
    for _ in 0..n {
        if r.pct(4) {
            out.push(BeStep { client: 0, op: BeOp::DropConns, fault: None, at: 0, rival: None });
            continue;
        }
        let op = mk(r, false, &mut fresh, &mut known);
        let one = deep && out.iter().any(|s: &BeStep| s.fault.is_some());
        let fault = if r.pct(fault_pc) && !one {
            Some(match r.below(9) {
                0 => Fault::Refused,
                1 => Fault::CutBefore,
                2 | 3 => Fault::CutAfter,
                4 => Fault::CutMid,
                5 => Fault::Intr,
                6 => Fault::ErrReply,
                _ => Fault::Frag(1 + r.below(9) as u8),
            })
        } else {
            None
        };
        let span = 3 + micros(&op) as u64;
        let at = r.below(span) as u32;
        let rival = if r.pct(rival_pc) && !deep { Some((r.below(span) as u32, mk(r, true, &mut fresh, &mut known))) } else { None };
        out.push(BeStep { client: r.below(3) as u8, op, fault, at, rival });
    }
    out
}
