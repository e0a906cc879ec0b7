//! C14: threads calling one InMemory backend; is there an order that explains every result?
use crate::*;
use aj::export::core::types::{Backend, QueueDirection};
use aj::export::core::mem::InMemory;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Push(u8, u8),
    /// from, to, count, take from the front, put at the front
    Move(u8, u8, usize, bool, bool),
    Remove(u8, u8),
    /// queue, count, from the front
    Get(u8, usize, bool),
    Count(u8),
    Upsert(u8, u8, u8),
    Read(u8, u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Unit,
    Items(Vec<String>),
    N(usize),
    Val(Option<String>),
    Err,
}

fn dir(front: bool) -> QueueDirection {
    if front { QueueDirection::Front } else { QueueDirection::Back }
}
fn q(i: u8) -> String { format!("q{i}") }
fn it(i: u8) -> String { format!("i{i}") }

fn call(b: &dyn Backend, o: &Op) -> Res {
    fn r<T>(x: Result<T, aj::export::core::Error>, f: impl FnOnce(T) -> Res) -> Res {
        match x { Ok(v) => f(v), Err(_) => Res::Err }
    }
    match o {
        Op::Push(a, i) => r(b.queue_push(&q(*a), &it(*i)), |_| Res::Unit),
        Op::Move(a, z, n, f, t) => r(b.queue_move(&q(*a), &q(*z), *n, dir(*f), dir(*t)), Res::Items),
        Op::Remove(a, i) => r(b.queue_remove(&q(*a), &it(*i)), |_| Res::Unit),
        Op::Get(a, n, f) => r(b.queue_get(&q(*a), *n, dir(*f)), Res::Items),
        Op::Count(a) => r(b.queue_count(&q(*a)), Res::N),
        Op::Upsert(h, k, v) => r(b.storage_upsert(&format!("h{h}"), &format!("k{k}"), format!("v{v}")), |_| Res::Unit),
        Op::Read(h, k) => r(b.storage_get(&format!("h{h}"), &format!("k{k}")), Res::Val),
    }
}

#[derive(Clone, Default, Hash, PartialEq, Eq)]
struct Model {
    l: BTreeMap<u8, VecDeque<u8>>,
    m: BTreeMap<(u8, u8), u8>,
}
impl Model {
    fn apply(&mut self, o: &Op) -> Res {
        match o {
            Op::Push(a, i) => { self.l.entry(*a).or_default().push_front(*i); Res::Unit }
            Op::Move(a, z, n, f, t) => {
                let mut moved = vec![];
                for _ in 0..*n {
                    let x = self.l.get_mut(a).and_then(|l| if *f { l.pop_front() } else { l.pop_back() });
                    let Some(x) = x else { break };
                    moved.push(x);
                }
                for x in &moved {
                    let l = self.l.entry(*z).or_default();
                    if *t { l.push_front(*x) } else { l.push_back(*x) }
                }
                Res::Items(moved.into_iter().map(it).collect())
            }
            Op::Remove(a, i) => { if let Some(l) = self.l.get_mut(a) { l.retain(|x| x != i) } Res::Unit }
            Op::Get(a, n, f) => {
                let v: Vec<u8> = self.l.get(a).map(|l| l.iter().copied().collect()).unwrap_or_default();
                Res::Items(if *f { v.into_iter().take(*n).map(it).collect() } else { v.into_iter().rev().take(*n).map(it).collect() })
            }
            Op::Count(a) => Res::N(self.l.get(a).map(|l| l.len()).unwrap_or(0)),
            Op::Upsert(h, k, v) => { self.m.insert((*h, *k), *v); Res::Unit }
            Op::Read(h, k) => Res::Val(self.m.get(&(*h, *k)).map(|v| format!("v{v}"))),
        }
    }
    fn norm(&self) -> Model {
        Model { l: self.l.iter().filter(|(_, l)| !l.is_empty()).map(|(k, l)| (*k, l.clone())).collect(), m: self.m.clone() }
    }
}

pub struct Call {
    th: usize,
    op: Op,
    inv: u64,
    ret: u64,
    res: Res,
}

/// Is there an order of the calls, consistent with which ended before which began, that the model explains?
fn linearizable(c: &[Call]) -> bool {
    fn go(c: &[Call], done: u64, m: &Model, seen: &mut HashSet<(u64, Model)>) -> bool {
        if done.count_ones() as usize == c.len() {
            return true;
        }
        if !seen.insert((done, m.norm())) {
            return false;
        }
        let first_end = c.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, x)| x.ret).min().unwrap();
        for (i, x) in c.iter().enumerate() {
            if done >> i & 1 == 1 || x.inv > first_end {
                continue;
            }
            let mut n = m.clone();
            if n.apply(&x.op) == x.res && go(c, done | 1 << i, &n, seen) {
                return true;
            }
        }
        false
    }
    go(c, 0, &Model::default(), &mut HashSet::new())
}

struct Shared(*mut Vec<Call>);
unsafe impl Send for Shared {}
impl Shared {
    fn add(&self, c: Call) {
        unsafe { (*self.0).push(c) }
    }
}

pub fn run(threads: &[Vec<Op>]) {
    let b: Arc<InMemory> = Arc::new(InMemory::default());
    let calls: *mut Vec<Call> = Box::into_raw(Box::default());
    let mut hs = vec![];
    // the first list of operations builds the initial content
    for (n, ops) in threads.iter().enumerate() {
        let one = |n: usize, b: &InMemory, sh: &Shared, o: &Op| {
            let inv = stamp();
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(b, o)));
            let ret = stamp();
            match res {
                Ok(res) => {
                    log(format!("thread {n}: {o:?} = {res:?} [{inv}..{ret}]"));
                    sh.add(Call { th: n, op: o.clone(), inv, ret, res });
                }
                Err(_) => bad(format!("thread {n}: {o:?} panicked")),
            }
        };
        if n == 0 {
            let sh = Shared(calls);
            for o in ops {
                one(0, &b, &sh, o);
            }
            continue;
        }
        let (b, ops, sh) = (b.clone(), ops.clone(), Shared(calls));
        hs.push(std::thread::spawn(move || {
            let sh = sh;
            for o in &ops {
                one(n, &b, &sh, o);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    // the final content
    let sh = Shared(calls);
    let mut fin = vec![];
    for x in 0..3u8 {
        fin.push(Op::Get(x, 100, true));
        fin.push(Op::Count(x));
    }
    for h in 0..2 {
        for k in 0..2 {
            fin.push(Op::Read(h, k));
        }
    }
    for o in fin {
        let inv = stamp();
        let res = call(&*b, &o);
        let ret = stamp();
        log(format!("at the end: {o:?} = {res:?}"));
        sh.add(Call { th: 0, op: o, inv, ret, res });
    }
    unsafe { ts_end() };
    let c = unsafe { &*calls };
    for x in c.iter() {
        count(match x.op { Op::Push(..) => "push", Op::Move(..) => "move", Op::Remove(..) => "remove", Op::Get(..) => "get", Op::Count(..) => "count", Op::Upsert(..) => "upsert", Op::Read(..) => "read" });
        if x.res == Res::Err {
            bad(format!("thread {}: {:?} failed", x.th, x.op));
        }
        for y in c.iter() {
            if x.th != y.th && x.inv < y.ret && y.inv < x.ret && x.inv < y.inv {
                count("overlapping pairs of calls");
            }
        }
    }
    if !linearizable(c) {
        bad("no order of the calls explains their results and the final content".into());
    }
}

pub fn gen(r: &mut Rng) -> Vec<Vec<Op>> {
    let nt = 2 + r.below(3);
    let nq = 1 + r.below(3) as u8;
    let ni = 1 + r.below(5) as u8;
    let mut kinds: Vec<u8> = (0..8).filter(|_| r.chance(1, 2)).collect();
    if kinds.is_empty() || kinds.iter().all(|k| *k >= 3 && *k != 6) {
        kinds.push(r.of(&[1, 1, 6]));
    }
    let op = |r: &mut Rng| match r.of(&kinds) {
        0 => Op::Push(r.below(nq as u64) as u8, r.below(ni as u64) as u8),
        1 | 2 => {
            let (a, z) = (r.below(nq as u64) as u8, r.below(nq as u64) as u8);
            let n = if a == z { r.below(2) } else { r.below(5) } as usize;
            Op::Move(a, z, n, r.chance(1, 2), r.chance(1, 2))
        }
        3 => Op::Remove(r.below(nq as u64) as u8, r.below(ni as u64) as u8),
        4 => Op::Get(r.below(nq as u64) as u8, r.below(6) as usize, r.chance(1, 2)),
        5 => Op::Count(r.below(nq as u64) as u8),
        6 => Op::Upsert(r.below(2) as u8, r.below(2) as u8, r.below(4) as u8),
        _ => Op::Read(r.below(2) as u8, r.below(2) as u8),
    };
    let mut v = vec![];
    let mut pre = vec![];
    for _ in 0..r.below(6) {
        pre.push(if r.chance(4, 5) { Op::Push(r.below(nq as u64) as u8, r.below(ni as u64) as u8) } else { Op::Upsert(r.below(2) as u8, r.below(2) as u8, r.below(4) as u8) });
    }
    v.push(pre);
    for _ in 0..nt {
        let n = 1 + r.below(4);
        v.push((0..n).map(|_| op(r)).collect());
    }
    v
}
