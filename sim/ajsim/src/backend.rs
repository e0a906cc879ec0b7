//! The fault-injecting storage seam: AJ's own `Backend` trait, with the real in-memory or Redis
//! implementation behind it.
use crate::jobs;
use crate::plan::*;
use crate::world::*;
use aj::backend::types::{Backend, QueueDirection};
use aj::Error;
use detsim::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub enum Inner {
    Mem(aj::mem::InMemory),
    Redis(aj::redis::Redis),
}

pub struct FaultState {
    pub plan: Faults,
    pub rng: Rng,
    pub burst_left: u32,
    pub injected: u32,
    pub crash: Option<CrashAt>,
    pub status_seen: BTreeMap<u8, u32>,
    pub calls: u64,
    pub step_calls: u64,
    pub last_step: u64,
}
pub static FS: Mutex<Option<FaultState>> = Mutex::new(None);

pub struct Proxy {
    inner: Arc<Inner>,
}

fn fault_error() -> Error {
    Error::Redis(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, "injected").into())
}

#[derive(Clone, Copy, PartialEq)]
pub enum CallKind {
    Push,
    Move,
    Remove,
    Get,
    Count,
    Upsert,
    Read,
}

/// Calls that finish an execution: a failing one is a recorded finding (see KNOWN_FINDINGS), so the
/// random search does not fail them; the dedicated scenarios do.
fn is_completion(kind: CallKind, q: &str, item: &str, st: Option<u8>) -> bool {
    let completing = w(|w| w.last_status.get(item).copied() == Some(RUNNING) && w.running.get(item).copied().unwrap_or(0) == 0 && w.ended.get(item).copied().unwrap_or(0) > 0);
    match kind {
        CallKind::Remove => q.ends_with(":queue:Running") || completing,
        CallKind::Upsert => matches!(st, Some(FINISHED) | Some(FAILED)) || (completing && st == Some(QUEUED)),
        CallKind::Push => q.ends_with(":queue:Finished") || q.ends_with(":queue:Failed") || completing,
        _ => false,
    }
}

/// Decide what happens to this call. Returns Some(fault) to inject.
fn before(kind: CallKind, q: &str, item: &str, st: Option<u8>) -> (u64, Option<Fault>) {
    let mut g = FS.lock().unwrap_or_else(|e| e.into_inner());
    let fs = match g.as_mut() {
        Some(f) => f,
        None => return (0, None),
    };
    fs.calls += 1;
    let call = fs.calls;
    let step = actix_rt::sim::steps();
    if step != fs.last_step {
        fs.last_step = step;
        fs.step_calls = 0;
    }
    fs.step_calls += 1;
    if fs.step_calls > 100_000 {
        drop(g);
        crate::run::abort_run("livelock: 100000 backend calls in one scheduling step");
    }
    let crash = match fs.crash {
        Some(CrashAt::Call(n, 0)) if n == call => true,
        Some(CrashAt::Status(s, n, when)) if kind == CallKind::Upsert && st == Some(s) => {
            let c = fs.status_seen.entry(s).or_insert(0);
            *c += 1;
            *c == n && when == 0
        }
        _ => false,
    };
    if crash {
        drop(g);
        crate::run::crash_now(call);
    }
    let inc = w(|w| w.inc);
    let f = match &fs.plan {
        Faults::None => None,
        Faults::Explicit(v) => v.iter().find(|(i, c, _)| *i == inc && *c == call).map(|x| x.2),
        Faults::Random { err_pm, slow_pm, net_pm, from_ms, until_ms, burst, max, .. } => {
            let (err_pm, slow_pm, net_pm, burst) = (*err_pm as u64, *slow_pm as u64, *net_pm as u64, *burst);
            let now = now_t() / 1_000_000;
            let inside = now >= *from_ms && now < *until_ms;
            let r = fs.rng.below(1000);
            let r2 = fs.rng.next();
            if !inside || is_completion(kind, q, item, st) || (*max > 0 && fs.injected >= *max) {
                None
            } else if fs.burst_left > 0 {
                fs.burst_left -= 1;
                Some(Fault::Err)
            } else if r < err_pm {
                if burst > 0 && r2 % 3 == 0 {
                    fs.burst_left = (r2 >> 8) as u32 % burst;
                }
                Some(Fault::Err)
            } else if r < err_pm + slow_pm {
                Some(Fault::Slow(1 + (r2 % 150) as u32))
            } else if r < err_pm + slow_pm + net_pm {
                Some(match r2 % 8 {
                    0 => Fault::Refused,
                    1 => Fault::CutBefore,
                    2 => Fault::CutAfter,
                    3 => Fault::CutMid,
                    4 => Fault::Intr,
                    _ => Fault::Frag(1 + ((r2 >> 8) % 7) as u8),
                })
            } else {
                None
            }
        }
    };
    if f.is_some() {
        fs.injected += 1;
    }
    drop(g);
    if let Some(f) = f {
        w(|w| {
            w.fired.push((inc, call, f));
            w.log(K::Fault { call, f, what: format!("{} {} {}", name(kind), q, item) });
        });
    }
    (call, f)
}

pub fn name(k: CallKind) -> &'static str {
    match k {
        CallKind::Push => "push",
        CallKind::Move => "move",
        CallKind::Remove => "remove",
        CallKind::Get => "get",
        CallKind::Count => "count",
        CallKind::Upsert => "upsert",
        CallKind::Read => "read",
    }
}

fn after(call: u64, kind: CallKind, st: Option<u8>) {
    let crash = {
        let g = FS.lock().unwrap_or_else(|e| e.into_inner());
        match g.as_ref() {
            Some(fs) => match fs.crash {
                Some(CrashAt::Call(n, 1)) => n == call,
                Some(CrashAt::Status(s, n, 1)) => kind == CallKind::Upsert && st == Some(s) && fs.status_seen.get(&s) == Some(&n),
                _ => false,
            },
            None => false,
        }
    };
    if crash {
        crate::run::crash_now(call);
    }
}

/// Something was durably recorded for a job (called from the in-memory proxy and the Redis stand-in).
pub fn on_stored(value: &str, call: u64) {
    if let Some((id, v)) = jobs::parse_record(value) {
        w(|w| {
            w.last_status.insert(id.clone(), v.st);
            w.log(K::Stored { id, v, call });
        });
    }
}

pub fn on_stored_bytes(v: &[u8], call: u64) {
    if let Ok(s) = std::str::from_utf8(v) {
        on_stored(s, call);
    }
}

impl Proxy {
    fn call<R>(&self, kind: CallKind, q: &str, item: &str, st: Option<u8>, f: impl FnOnce(&dyn Backend) -> Result<R, Error>) -> Result<R, Error> {
        let (call, fault) = before(kind, q, item, st);
        let net = match fault {
            Some(Fault::Err) => return Err(fault_error()),
            Some(Fault::Slow(ms)) => {
                if let Some(n) = actix_rt::sim::current_node() {
                    actix_rt::sim::stall(n, ms as u64 * 1_000_000);
                    log(K::Stall { node: n, ms: ms as u64 });
                }
                None
            }
            other => other,
        };
        let r = match &*self.inner {
            Inner::Mem(m) => f(m),
            Inner::Redis(r) => {
                crate::redis_sim::arm(net, call);
                let x = f(r);
                crate::redis_sim::disarm();
                x
            }
        };
        after(call, kind, st);
        r
    }
}

impl Backend for Proxy {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        seen_list(q);
        self.call(CallKind::Push, q, item, None, |b| b.queue_push(q, item))
    }
    fn queue_move(&self, from: &str, to: &str, count: usize, fd: QueueDirection, td: QueueDirection) -> Result<Vec<String>, Error> {
        seen_list(from);
        seen_list(to);
        self.call(CallKind::Move, from, "", None, |b| b.queue_move(from, to, count, fd, td))
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.call(CallKind::Remove, q, item, None, |b| b.queue_remove(q, item))
    }
    fn queue_get(&self, q: &str, count: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.call(CallKind::Get, q, "", None, |b| b.queue_get(q, count, d))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.call(CallKind::Count, q, "", None, |b| b.queue_count(q))
    }
    fn storage_upsert(&self, hash: &str, key: &str, value: String) -> Result<(), Error> {
        seen_key(hash, key);
        let st = jobs::parse_record(&value).map(|(_, v)| v.st);
        let is_mem = matches!(&*self.inner, Inner::Mem(_));
        let copy = value.clone();
        self.call(CallKind::Upsert, hash, key, st, move |b| {
            let r = b.storage_upsert(hash, key, value);
            if is_mem && r.is_ok() {
                on_stored(&copy, 0);
            }
            r
        })
    }
    fn storage_get(&self, hash: &str, key: &str) -> Result<Option<String>, Error> {
        self.call(CallKind::Read, hash, key, None, |b| b.storage_get(hash, key))
    }
}

// ------------------------------------------------------------------ durable state

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, Default)]
pub struct Durable {
    pub lists: BTreeMap<String, Vec<String>>,
    pub hashes: BTreeMap<String, BTreeMap<String, String>>,
}

/// The names the engine has used, so that the durable state can be read through the trait.
static SEEN: Mutex<(BTreeSet<String>, BTreeSet<(String, String)>)> = Mutex::new((BTreeSet::new(), BTreeSet::new()));
static STORE: Mutex<Option<Arc<Inner>>> = Mutex::new(None);

fn seen_list(q: &str) {
    SEEN.lock().unwrap_or_else(|e| e.into_inner()).0.insert(q.to_string());
}
fn seen_key(h: &str, k: &str) {
    SEEN.lock().unwrap_or_else(|e| e.into_inner()).1.insert((h.to_string(), k.to_string()));
}

impl Inner {
    fn be(&self) -> &dyn Backend {
        match self {
            Inner::Mem(m) => m,
            Inner::Redis(r) => r,
        }
    }
}

/// The backend of this incarnation, holding `d`.
pub fn open(store: Store, d: &Durable) -> Proxy {
    let inner = match store {
        Store::Mem => Inner::Mem(aj::mem::InMemory::default()),
        Store::Redis => Inner::Redis(crate::redis_sim::client()),
    };
    if store == Store::Redis {
        crate::redis_sim::load(d);
    }
    let b = inner.be();
    for (k, v) in &d.lists {
        seen_list(k);
        if store == Store::Mem {
            for item in v.iter().rev() {
                b.queue_push(k, item).expect("restore");
            }
        }
    }
    for (h, m) in &d.hashes {
        for (k, v) in m {
            seen_key(h, k);
            if store == Store::Mem {
                b.storage_upsert(h, k, v.clone()).expect("restore");
            }
        }
    }
    let inner = Arc::new(inner);
    *STORE.lock().unwrap() = Some(inner.clone());
    Proxy { inner }
}

/// What survives a crash.
pub fn snapshot() -> Durable {
    crate::redis_sim::disarm();
    let mut d = Durable::default();
    let g = STORE.lock().unwrap_or_else(|e| e.into_inner());
    let (lists, keys) = SEEN.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if let Some(i) = g.as_ref() {
        let b = i.be();
        for q in lists {
            let n = b.queue_count(&q).unwrap_or(0);
            if n > 0 {
                d.lists.insert(q.clone(), b.queue_get(&q, n, QueueDirection::Front).unwrap_or_default());
            }
        }
        for (h, k) in keys {
            if let Ok(Some(v)) = b.storage_get(&h, &k) {
                d.hashes.entry(h).or_default().insert(k, v);
            }
        }
    }
    d
}

/// Something in the store that cannot be read as a job, listed in `list`.
pub fn spoil(list: &str, n: u32, kind: u8) {
    let id = format!("spoiled-{n}");
    let g = STORE.lock().unwrap_or_else(|e| e.into_inner());
    let (lists, keys) = SEEN.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let Some(b) = g.as_ref().map(|i| i.be()) else { return };
    let Some((hash, key)) = keys.iter().nth(n as usize % keys.len().max(1)) else { return };
    if !lists.contains(list) {
        return;
    }
    let other = b.storage_get(hash, key).ok().flatten().and_then(|v| serde_json::from_str::<serde_json::Value>(&v).ok());
    let rec = match (kind % 6, other) {
        (0, _) => String::new(),
        (1, _) => "null".into(),
        (2, _) => "{}".into(),
        (3, Some(mut v)) => {
            v["data"] = serde_json::json!({ "renamed": 7 });
            v.to_string()
        }
        (4, Some(mut v)) => {
            v["context"]["job_status"] = "Paused".into();
            v.to_string()
        }
        (5, Some(v)) => {
            let s = v.to_string();
            s.chars().take(s.chars().count() / 2).collect()
        }
        _ => "{\"".into(),
    };
    seen_key(hash, &id);
    let _ = b.storage_upsert(hash, &id, rec);
    let _ = b.queue_push(list, &id);
    probe("fault: unreadable record");
}
