//! The recorded history and everything the harness itself remembers during a run.
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const QUEUED: u8 = 0;
pub const RUNNING: u8 = 1;
pub const FINISHED: u8 = 2;
pub const FAILED: u8 = 3;
pub const CANCELED: u8 = 4;
pub fn done(st: u8) -> bool {
    st >= FINISHED && st <= CANCELED
}
pub fn st_name(st: u8) -> &'static str {
    ["queued", "running", "finished", "failed", "cancelled", "?"][st.min(5) as usize]
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct View {
    pub st: u8,
    pub tag: u64,
    pub rc: u64,
    /// the data equals the submitted version with this tag
    pub intact: bool,
    /// schedule, retry state and creation time, as stored
    pub ctx: String,
    pub jt: JType,
    /// enqueued, run, completed, cancelled at (ms)
    pub stamps: [Option<i64>; 4],
    pub retried: Option<i64>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum JType {
    Normal,
    At(i64),
    /// next slot (µs), total repeats, max, end (µs)
    Cron(String, i64, i64, Option<i64>, Option<i64>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Res {
    Id(String),
    Unit,
    Bool(bool),
    Job(Option<View>),
    Err(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum K {
    Inv { n: usize, c: usize, op: Op, id: String, ctx: Option<View> },
    Ret { n: usize, r: Res },
    Stored { id: String, v: View, call: u64 },
    Pre { id: String },
    Start { x: usize, id: String, ty: u8, tag: u64, intact: bool, rc: u64, kth: usize },
    End { x: usize, id: String, out: Out },
    Post { id: String },
    Hook { p: usize, kind: u8, id: String, st: u8, end: bool },
    Fault { call: u64, f: Fault, what: String },
    Jump { ms: i64, before: i64 },
    Stall { node: usize, ms: u64 },
    MacroRun { args: MacroArgs },
    Crash { call: u64 },
    Restart,
    ClientDone { c: usize },
    ClientsDone,
    Final { id: String, v: Option<View> },
    Note(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ev {
    pub seq: u64,
    /// simulated ns since the beginning
    pub t: u64,
    /// wall clock, ns
    pub w: i64,
    pub inc: u32,
    pub k: K,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct World {
    pub evs: Vec<Ev>,
    pub t_base: u64,
    pub inc: u32,
    pub ops: usize,
    pub execs: usize,
    pub per_tag: BTreeMap<u64, usize>,
    pub versions: BTreeMap<u64, Data>,
    /// slot -> (id, type)
    pub ids: BTreeMap<u32, (String, u8)>,
    pub running: BTreeMap<String, usize>,
    pub ended: BTreeMap<String, usize>,
    pub last_status: BTreeMap<String, u8>,
    pub fired: Vec<(u32, u64, Fault)>,
    pub calls: u64,
    pub probes: BTreeMap<String, u64>,
    pub plugins: usize,
    pub wall_ns: i64,
}

pub static W: Mutex<Option<World>> = Mutex::new(None);

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(World::default))
}

pub fn now_t() -> u64 {
    w(|w| w.t_base) + detsim::elapsed_ns()
}

impl World {
    pub fn log(&mut self, k: K) {
        let seq = self.evs.len() as u64;
        let t = self.t_base + detsim::elapsed_ns();
        self.evs.push(Ev { seq, t, w: detsim::wall_ns(), inc: self.inc, k });
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_insert(0) += 1;
    }
    /// what happened how often, for the evidence
    pub fn count_events(&mut self) {
        let evs = std::mem::take(&mut self.evs);
        for e in &evs {
            let n = match &e.k {
                K::Fault { f, .. } => match f {
                    Fault::Err => "fault: backend call fails",
                    Fault::Slow(_) => "fault: backend call slow",
                    Fault::Refused => "fault: connection refused",
                    Fault::ErrReply => "fault: error reply",
                    Fault::CutBefore => "fault: connection cut before the command",
                    Fault::CutAfter => "fault: connection cut after the command",
                    Fault::CutMid => "fault: connection cut inside the reply",
                    Fault::Frag(_) => "fault: fragmented I/O",
                    Fault::Intr => "fault: interrupted system call",
                },
                K::Jump { ms, .. } if *ms < 0 => "fault: wall clock jumps back",
                K::Jump { .. } => "fault: wall clock jumps forward",
                K::Stall { .. } => "fault: thread stalled",
                K::Crash { .. } => "fault: process crash",
                K::End { out, .. } if out.panics() => "fault: job panics",
                K::Start { .. } => "executions",
                K::Inv { .. } => "client calls",
                _ => continue,
            };
            *self.probes.entry(n.to_string()).or_insert(0) += 1;
        }
        self.evs = evs;
    }
    pub fn intact(&mut self, d: &Data) -> bool {
        self.versions.get(&d.tag).map(|v| v == d).unwrap_or(false)
    }
}

pub fn log(k: K) {
    w(|w| w.log(k));
}
pub fn probe(name: &str) {
    w(|w| w.probe(name));
}

pub fn hash_events(evs: &[Ev]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for e in evs {
        for b in serde_json::to_string(e).unwrap().bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    h
}
