//! A plan is one simulated run, written out: workload, environment, faults and schedule.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Fail,
    /// `execute` succeeds, `post_execute` turns the output into a failure
    PostFail,
    /// `execute` fails, `post_execute` turns the output into a success
    PostOk,
    Panic,
    /// panics in `post_execute`
    PanicPost,
    /// panics in `is_failed_output`
    PanicCheck,
    Hang,
    /// not a failure, but the job type itself asks to be run again in so many ms (type TC only)
    Again(u32),
}
impl Out {
    pub fn failed(&self) -> bool {
        matches!(self, Out::Fail | Out::PostFail) || self.panics()
    }
    pub fn panics(&self) -> bool {
        matches!(self, Out::Panic | Out::PanicPost | Out::PanicCheck)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub ms: u32,
    pub yields: u8,
    pub out: Out,
}

/// What a job carries. `tag` is unique per submitted version.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Data {
    pub tag: u64,
    pub pay: String,
    pub list: Vec<i64>,
    pub opt: Option<bool>,
    /// the k-th execution of this version behaves as `steps[k]` (the last one repeats)
    pub steps: Vec<Step>,
}

/// the payload of data that cannot be written as JSON
pub const UNSTORABLE: &str = "cannot be stored";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum When {
    Now,
    DelayMs(i64),
    /// absolute, relative to the wall clock at the start of the run (µs)
    AtUs(i64),
    Cron { expr: String, max_repeat: Option<i32>, end_in_ms: Option<i64> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RetrySpec {
    Interval { max: Option<i32>, ms: i64 },
    Exp { max: Option<i32>, ms: i64 },
}

/// the interval or initial backoff (µs): not a whole number of ms; -1: one µs
pub fn retry_us(ms: i64) -> i64 {
    if ms < 0 {
        return 1;
    }
    ms * 1000 + ms * 37 % 1000
}
/// retries the policy says have been used up already when the job is submitted (`Retry::new`)
pub fn retry_used(ms: i64) -> i32 {
    if ms % 10 == 7 { 2 } else { 0 }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Ctx {
    pub when: When,
    pub retry: Option<RetrySpec>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum MacroArgs {
    Add(i64, i64, i64),
    Swap(String, String),
    Mixed(u8, Option<String>, Vec<i32>, bool),
    One(String),
    NoArg,
    Named([String; 4], [i64; 4]),
    Many([u64; 7]),
    Tup((i32, String), std::collections::BTreeMap<String, f64>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// `wait`: `run().await`, else `just_run()`. `auto`: the id is the generated one.
    /// `tries`: how often the call is repeated while it reports an error. `mode`: 0 plain, else
    /// `AJ::enqueue_job` with 1 re-run but keep the data, 2 skip if finished, 3 neither; 4: plain,
    /// but the job is the one queried just before with other data and schedule
    Run { ty: u8, id: u32, auto: bool, wait: bool, data: Data, ctx: Ctx, tries: u8, #[serde(default)] mode: u8 },
    Cancel { ty: u8, id: u32 },
    Get { ty: u8, id: u32 },
    /// `how`: the new context is 0 a new one, 1 the one queried just before with another schedule,
    /// 2 a new one that names another id
    Update { ty: u8, id: u32, data: Data, ctx: Option<Ctx>, #[serde(default)] how: u8 },
    Retry { ty: u8, id: u32 },
    Config { ty: u8, cap: usize, tick_ms: u64 },
    Plugin { spec: PluginSpec },
    Macro { n: u32, args: MacroArgs, wait: bool, ctx: Option<Ctx> },
    Sleep { ms: u64 },
    /// wait (harness side) until the job has begun / ended an execution, at most `ms`
    WaitStart { id: u32, ms: u64 },
    WaitEnd { id: u32, ms: u64 },
    /// a further call of AJ::start
    Start,
    /// an entry of the type's queue whose record is none of a job of this type (any more)
    Spoil { ty: u8, n: u32, kind: u8 },
}

impl Op {
    pub fn ty(&self) -> Option<u8> {
        match self {
            Op::Run { ty, .. } | Op::Cancel { ty, .. } | Op::Get { ty, .. } | Op::Update { ty, .. } | Op::Retry { ty, .. } | Op::Config { ty, .. } => Some(*ty),
            _ => None,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PluginSpec {
    pub before_ms: u32,
    pub after_ms: u32,
    pub status_ms: u32,
    /// one in so many calls panics
    #[serde(default)]
    pub panics: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Client {
    /// a thread of its own, or a task of the main thread
    pub thread: bool,
    pub ops: Vec<Op>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Chaos {
    Stall { at_ms: u64, node: u32, ms: u64 },
    Jump { at_ms: u64, ms: i64 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Copy)]
pub enum Fault {
    /// the backend call fails without effect
    Err,
    /// the call takes `ms`
    Slow(u32),
    // network faults (Redis): see redis_sim
    Refused,
    CutBefore,
    CutAfter,
    CutMid,
    Frag(u8),
    Intr,
    /// the server answers with an error and does nothing
    ErrReply,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Faults {
    None,
    /// percent per backend call, drawn from `seed`, while from_ms <= now < until_ms; at most `max` of them unless 0
    Random { seed: u64, err_pm: u32, slow_pm: u32, net_pm: u32, from_ms: u64, until_ms: u64, burst: u32, #[serde(default)] max: u32 },
    /// (incarnation, call number, fault)
    Explicit(Vec<(u32, u64, Fault)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CrashAt {
    /// before (0) or after (1) the n-th backend call of the incarnation
    Call(u64, u8),
    /// before the n-th backend call that writes a record with this status, before (0) or after (1)
    Status(u8, u32, u8),
    Step(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sched {
    Uniform,
    MostlyFifo(u64),
    Priority(u64),
    /// per incarnation
    Trace(Vec<Vec<u32>>),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Store {
    Mem,
    Redis,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    pub wall_base_us: i64,
    pub actix: bool,
    pub store: Store,
    pub plugins: Vec<PluginSpec>,
    pub clients: Vec<Client>,
    /// what the clients do after the k-th restart (restarts = crashes.len())
    pub after: Vec<Vec<Client>>,
    pub chaos: Vec<Chaos>,
    pub faults: Faults,
    pub crashes: Vec<CrashAt>,
    /// quiet time after the clients are done
    pub settle_ms: u64,
    pub sched: Sched,
    pub max_steps: u64,
    /// how custom job ids look (see `custom_id`)
    #[serde(default)]
    pub ids: u8,
    /// C15: operations of the Redis backend alone
    #[serde(default)]
    pub be: Vec<crate::be::BeStep>,
}

pub fn ty_name(ty: u8) -> &'static str {
    ["TA", "TAB", "TB", "TC"][ty as usize]
}

/// A custom id: unique per slot, but alike under trimming, case folding, truncation and the like.
pub fn custom_id(style: u8, slot: u32) -> String {
    let k = slot / 2;
    let odd = slot % 2 == 1;
    match style {
        0 => format!("job-{slot}"),
        1 => if odd { format!(" item {k} ") } else { format!("item {k}") },
        2 => if odd { format!("Item-{k}") } else { format!("item-{k}") },
        3 => format!("{}{slot}", "same long prefix ".repeat(20)),
        4 => if odd { format!("0{k}") } else { format!("{k}") },
        5 => if odd { format!("a:{k}:queue:Running") } else { format!("TA:queue:Queued:{k}") },
        6 => format!("ünï \"{k}\" \\ 漢 🦀{}", if odd { "\r\n" } else { "" }),
        7 => if odd { format!("{k}/x") } else { format!("{k}/x/y") },
        _ => "z".repeat(slot as usize),
    }
}

/// Now and then the step before or after the body takes its time.
pub fn pre_ms(tag: u64) -> u64 {
    if tag % 7 == 3 { 15 } else { 0 }
}
pub fn post_ms(tag: u64) -> u64 {
    if tag % 5 == 2 { 25 } else { 0 }
}
/// how long an execution takes, all steps together
pub fn step_ms(tag: u64, s: &Step) -> u64 {
    s.ms as u64 + pre_ms(tag) + post_ms(tag)
}
