//! Job types driven by the plan.
use crate::plan::*;
use crate::world::*;
use aj::export::core::chrono::{DateTime, TimeZone, Utc};
use aj::job::{CronContext, JobContext, JobStatus, JobType, Retry, RetryStrategy};
use aj::{async_trait, BackgroundJob, Executable, Job};
use serde::{Deserialize, Serialize};
use std::time::Duration;

pub type JobOut = Result<u64, String>;

/// The steps before and after the body work on the same value, which is not stored.
fn step(note: &mut u64, d: &Data, c: &JobContext, was: u64, is: u64) {
    if is > 1 && *note != d.tag * 4 + was {
        log(K::Note(format!("broken: a step of {} did not see what the one before it left in the job", c.job_id)));
    }
    *note = d.tag * 4 + is;
}
fn begins(c: &JobContext) {
    w(|w| {
        *w.running.entry(c.job_id.clone()).or_insert(0) += 1;
        w.log(K::Pre { id: c.job_id.clone() });
    });
}
fn ends(c: &JobContext) {
    w(|w| {
        *w.running.entry(c.job_id.clone()).or_insert(1) -= 1;
        *w.ended.entry(c.job_id.clone()).or_insert(0) += 1;
    });
}
async fn pause(ms: u64) {
    if ms > 0 {
        actix_rt::time::sleep(Duration::from_millis(ms)).await;
    }
}

async fn run_steps(ty: u8, d: &Data, c: &JobContext) -> JobOut {
    let (x, step) = w(|w| {
        let intact = w.intact(d);
        let x = w.execs;
        w.execs += 1;
        let k = w.per_tag.entry(d.tag).or_insert(0);
        let kth = *k;
        *k += 1;
        let step = d.steps.get(kth.min(d.steps.len().max(1) - 1)).cloned().unwrap_or(Step { ms: 0, yields: 0, out: Out::Ok });
        w.log(K::Start { x, id: c.job_id.clone(), ty, tag: d.tag, intact, rc: c.run_count as u64, kth });
        (x, step)
    });
    for _ in 0..step.yields {
        tokio::task::yield_now().await;
    }
    if step.ms > 0 {
        actix_rt::time::sleep(Duration::from_millis(step.ms as u64)).await;
    }
    if step.out == Out::Hang {
        std::future::pending::<()>().await;
    }
    log(K::End { x, id: c.job_id.clone(), out: step.out.clone() });
    if step.out == Out::Panic {
        ends(c);
    }
    match step.out {
        Out::Ok => Ok(d.tag),
        Out::PostFail => Ok(u64::MAX),
        Out::Fail => Err("no".into()),
        Out::PostOk => Err("post".into()),
        Out::Panic => panic!("injected panic"),
        Out::PanicPost => Err("panic in post".into()),
        Out::PanicCheck => Err("panic in check".into()),
        Out::Again(ms) => Err(format!("again {ms}")),
        Out::Hang => unreachable!(),
    }
}
/// what TC's own retry decision says
fn again(out: &JobOut) -> Option<i64> {
    out.as_ref().err()?.strip_prefix("again ")?.parse().ok()
}

fn encode<S: serde::Serializer>(d: &Data, s: S) -> Result<S::Ok, S::Error> {
    if d.pay == UNSTORABLE {
        return Err(serde::ser::Error::custom("key must be a string"));
    }
    d.serialize(s)
}

macro_rules! job_type {
    ($T:ident, $n:expr $(, $more:item)?) => {
        #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
        pub struct $T {
            #[serde(serialize_with = "encode")]
            pub d: Data,
            #[serde(skip)]
            note: u64,
        }
        #[async_trait]
        impl Executable for $T {
            type Output = JobOut;
            async fn pre_execute(&mut self, c: &JobContext) {
                begins(c);
                pause(pre_ms(self.d.tag)).await;
                step(&mut self.note, &self.d, c, 0, 1);
            }
            async fn execute(&mut self, c: &JobContext) -> JobOut {
                step(&mut self.note, &self.d, c, 1, 2);
                run_steps($n, &self.d, c).await
            }
            async fn post_execute(&mut self, out: JobOut, c: &JobContext) -> JobOut {
                step(&mut self.note, &self.d, c, 2, 3);
                pause(post_ms(self.d.tag)).await;
                log(K::Post { id: c.job_id.clone() });
                ends(c);
                match out {
                    Err(s) if s == "panic in post" => panic!("injected panic"),
                    Ok(u64::MAX) => Err("post".into()),
                    Err(s) if s == "post" => Ok(0),
                    o => o,
                }
            }
            async fn is_failed_output(&self, out: &JobOut) -> bool {
                if out.as_ref().err().is_some_and(|s| s == "panic in check") {
                    panic!("injected panic");
                }
                out.is_err() && again(out).is_none()
            }
            $($more)?
        }
        impl $T {
            pub fn make(d: Data) -> Self {
                $T { d, note: 0 }
            }
        }
    };
}
// Types whose names are alike: a prefix of another, equal but for case or punctuation, long.
job_type!(MailTheWeeklyNewsletterToEachCustomer, 0);
job_type!(MailTheWeeklyNewsletterToEachCustomerAgain, 1);
job_type!(Mailtheweeklynewslettertoeachcustomer, 2);
pub use MailTheWeeklyNewsletterToEachCustomer as TA;
pub use MailTheWeeklyNewsletterToEachCustomerAgain as TAB;
pub use Mailtheweeklynewslettertoeachcustomer as TB;
#[allow(non_camel_case_types)]
mod tc {
use super::*;
// decides about its retries itself
job_type!(Mail_TheWeekly_NewsletterToEach_Customer, 3,
    async fn retry_at(&self, retry: &mut Retry, out: JobOut) -> Option<DateTime<Utc>> {
        if let Some(ms) = again(&out) {
            return Some(Utc::now() + chrono::Duration::milliseconds(ms));
        }
        (self.is_failed_output(&out).await && retry.should_retry()).then(|| retry.retry_at(None))
    }
);
}
pub use tc::Mail_TheWeekly_NewsletterToEach_Customer as TC;

pub fn make_context(id: &str, c: &Ctx, base_us: i64) -> Result<JobContext, String> {
    let mut ctx = JobContext::new(id.to_string());
    ctx.job_type = match &c.when {
        When::Now => JobType::Normal,
        // what Job::delay does
        When::DelayMs(ms) => JobType::new_schedule(Utc::now() + chrono::Duration::milliseconds(*ms)),
        When::AtUs(us) => JobType::new_schedule(at_us(base_us + us)),
        When::Cron { expr, max_repeat, end_in_ms } => {
            let mut cc = CronContext::default();
            cc.max_repeat = *max_repeat;
            cc.end_at = end_in_ms.map(|ms| at_us(Utc::now().timestamp_micros() + ms * 1000));
            JobType::new_cron(expr, cc).map_err(|e| format!("{e:?}"))?
        }
    };
    ctx.retry = c.retry.as_ref().map(make_retry);
    Ok(ctx)
}

fn make_retry(r: &RetrySpec) -> Retry {
    let (RetrySpec::Interval { max, ms } | RetrySpec::Exp { max, ms }) = r;
    let d = chrono::Duration::microseconds(retry_us(*ms));
    let used = retry_used(*ms);
    match r {
        RetrySpec::Interval { .. } if used > 0 => Retry::new(used, max.map(|m| m.saturating_add(used)), RetryStrategy::Interval(d)),
        RetrySpec::Exp { .. } if used > 0 => Retry::new(used, max.map(|m| m.saturating_add(used)), RetryStrategy::ExponentialBackoff(d)),
        RetrySpec::Interval { max, .. } => Retry::new_interval_retry(*max, d),
        RetrySpec::Exp { max, .. } => Retry::new_exponential_backoff(*max, d),
    }
}

/// Apply through the public builder methods, as a user would.
pub fn build<M>(data: M, id: Option<&str>, c: &Ctx, base_us: i64, way: u64) -> Job<M>
where
    M: BackgroundJob + Executable + Clone,
{
    // the other ways to the same job
    match way % 8 {
        1 => {
            let job = Job::new(data);
            let id = id.unwrap_or(job.id()).to_string();
            return job.set_context(make_context(&id, c, base_us).expect("context"));
        }
        2 => {
            let ctx = make_context("to be replaced", c, base_us).expect("context");
            let mut job = Job::new(data);
            if let Some(r) = ctx.retry {
                job = job.set_retry(r);
            }
            job = job.set_job_type(ctx.job_type);
            return match id {
                Some(id) => job.set_id(id.to_string()),
                None => job,
            };
        }
        3 => {
            let job = data.job();
            let id = id.unwrap_or(job.id()).to_string();
            return job.context(make_context(&id, c, base_us).expect("context"));
        }
        _ => {}
    }
    let mut job = data.job();
    if let Some(id) = id {
        job = job.set_id(id.to_string());
    }
    // what is set last counts
    if c.when != When::Now && way % 8 == 5 {
        job = job.cron("0 0 4 * * *");
    }
    if let (Some(_), 5 | 6) = (&c.retry, way % 8) {
        job = job.retry(Retry::new_interval_retry(None, chrono::Duration::seconds(7)));
    }
    if c.when != When::Now && way % 8 == 6 {
        job = job.schedule_at(at_us(base_us));
    }
    job = match &c.when {
        When::Now => job,
        When::DelayMs(ms) => job.delay(chrono::Duration::milliseconds(*ms)),
        When::AtUs(us) => job.schedule_at(at_us(base_us + us)),
        When::Cron { expr, max_repeat: None, end_in_ms: None } => job.cron(expr),
        When::Cron { .. } => {
            let jt = make_context("x", c, base_us).expect("cron expression").job_type;
            job.job_type(jt)
        }
    };
    if let Some(r) = &c.retry {
        job = job.retry(make_retry(r));
    }
    job
}

/// The schedule asked for by `c` between two readings of the clock: the one the job carries if that is it, else what it should carry.
pub fn asked(c: &Ctx, base_us: i64, t: (i64, i64), built: &JType) -> JType {
    let (t0, t1) = (t.0.min(t.1), t.0.max(t.1));
    let within = |x: i64, us: i64| t0 + us <= x && x <= t1 + us;
    match (&c.when, built) {
        (When::Now, _) => JType::Normal,
        (When::DelayMs(ms), JType::At(x)) if within(*x, ms * 1000) => built.clone(),
        (When::DelayMs(ms), _) => JType::At(t0 + ms * 1000),
        (When::AtUs(us), _) => JType::At(base_us + us),
        (When::Cron { expr, max_repeat, end_in_ms }, _) => {
            let slot = |t: i64| {
                let next = expr.parse::<aj::export::core::cron::Schedule>().ok().and_then(|s| s.after(&at_us(t)).next());
                next.map(|n| n.timestamp_micros()).unwrap_or(t)
            };
            let max = max_repeat.map(|m| m as i64);
            if let JType::Cron(e, next, 1, m, end) = built {
                let same_end = match (end, end_in_ms) {
                    (None, None) => true,
                    (Some(x), Some(ms)) => within(*x, ms * 1000),
                    _ => false,
                };
                if e == expr && (slot(t0)..=slot(t1)).contains(next) && *m == max && same_end {
                    return built.clone();
                }
            }
            JType::Cron(expr.clone(), slot(t0), 1, max, end_in_ms.map(|ms| t0 + ms * 1000))
        }
    }
}

pub fn at_us(us: i64) -> DateTime<Utc> {
    Utc.timestamp_micros(us).single().expect("time")
}

pub fn status_u8(s: JobStatus) -> u8 {
    match s {
        JobStatus::Queued => QUEUED,
        JobStatus::Running => RUNNING,
        JobStatus::Finished => FINISHED,
        JobStatus::Failed => FAILED,
        JobStatus::Canceled => CANCELED,
    }
}

pub fn view(c: &JobContext, d: Option<&Data>) -> View {
    let jt = match &c.job_type {
        JobType::Normal => JType::Normal,
        JobType::ScheduledAt(t) => JType::At(t.timestamp_micros()),
        JobType::Cron(e, next, total, cc) => JType::Cron(
            e.clone(),
            next.timestamp_micros(),
            *total as i64,
            cc.max_repeat.map(|m| m as i64),
            cc.end_at.map(|t| t.timestamp_micros()),
        ),
    };
    let retry = c.retry.as_ref().map(|r| serde_json::to_value(r).unwrap_or_default());
    let retried = retry.as_ref().map(|r| r.get("retried_times").and_then(|v| v.as_i64()).unwrap_or(0));
    View {
        st: status_u8(c.job_status),
        tag: d.map(|d| d.tag).unwrap_or(0),
        rc: c.run_count as u64,
        intact: d.map(|d| w(|w| w.intact(d))).unwrap_or(true),
        ctx: format!("{jt:?}|{:?}|{}", c.retry, c.created_at),
        stamps: [c.enqueue_at, c.run_at, c.complete_at, c.cancel_at],
        jt,
        retried,
    }
}

/// Parse a stored record with the crate's own types.
pub fn parse_record(s: &str) -> Option<(String, View)> {
    let j: Job<TA> = serde_json::from_str(s).ok()?;
    Some((j.context.job_id.clone(), view(&j.context, Some(&j.data.d))))
}

// ------------------------------------------------------------------ macro jobs (C19)

#[cfg(not(feature = "macros"))]
pub mod mj {
    use super::*;
    pub async fn call(_: MacroArgs, _: bool, _: Option<JobContext>) -> Res {
        Res::Unit
    }
    pub async fn get(_: &MacroArgs, _: &str) -> Option<View> {
        None
    }
}

#[cfg(feature = "macros")]
pub mod mj {
    use super::*;
    use aj::job;

    #[job]
    pub fn add_three(to: i64, from: i64, amount: i64) {
        log(K::MacroRun { args: MacroArgs::Add(to, from, amount) });
    }
    #[job]
    pub async fn swap_two(second: String, first: String) -> usize {
        tokio::task::yield_now().await;
        let n = second.len();
        log(K::MacroRun { args: MacroArgs::Swap(second, first) });
        n
    }
    #[job]
    pub fn one_arg(text: String) -> String {
        log(K::MacroRun { args: MacroArgs::One(text.clone()) });
        text
    }
    #[job]
    pub async fn many(z: u64, m: u64, a: u64, b: u64, y: u64, k: u64, c: u64) -> Vec<u64> {
        log(K::MacroRun { args: MacroArgs::Many([z, m, a, b, y, k, c]) });
        vec![z, m]
    }
    #[cfg(feature = "mixed")]
    pub mod mx {
        use super::*;
        use std::collections::BTreeMap;
        #[job]
        pub async fn mixed(n: u8, name: Option<String>, list: Vec<i32>, flag: bool) -> Result<(), String> {
            actix_rt::time::sleep(Duration::from_millis(n as u64)).await;
            log(K::MacroRun { args: MacroArgs::Mixed(n, name, list, flag) });
            Ok(())
        }
        /// names that code around the call might use itself
        #[job]
        #[allow(clippy::too_many_arguments)]
        pub(crate) async fn named(msg: String, job_id: String, id: String, name: String, data: i64, job: i64, result: i64, args: i64) -> Result<String, i64> {
            log(K::MacroRun { args: MacroArgs::Named([msg, job_id, id, name], [data, job, result, args]) });
            Err(data)
        }
        #[job]
        pub fn tup(pair: (i32, String), map: BTreeMap<String, f64>) {
            log(K::MacroRun { args: MacroArgs::Tup(pair, map) });
        }
    }
    #[cfg(feature = "mixed")]
    use mx::{mixed, named, tup};

    pub async fn call(args: MacroArgs, wait: bool, ctx: Option<JobContext>) -> Res {
        macro_rules! go {
            ($m:ident, $($a:expr),*) => {
                match (wait, ctx) {
                    (true, None) => conv($m::run($($a),*).await),
                    (true, Some(c)) => conv($m::run_with_context($($a),*, c).await),
                    (false, None) => { let _ = $m::just_run($($a),*); Res::Unit }
                    (false, Some(c)) => { let _ = $m::just_run_with_context($($a),*, c); Res::Unit }
                }
            };
        }
        match args {
            MacroArgs::Add(a, b, c) => go!(add_three, a, b, c),
            MacroArgs::Swap(a, b) => go!(swap_two, a, b),
            MacroArgs::One(a) => go!(one_arg, a),
            MacroArgs::Many(v) => go!(many, v[0], v[1], v[2], v[3], v[4], v[5], v[6]),
            #[cfg(feature = "mixed")]
            MacroArgs::Mixed(a, b, c, d) => go!(mixed, a, b, c, d),
            #[cfg(feature = "mixed")]
            MacroArgs::Named([a, b, c, d], [e, f, g, h]) => go!(named, a, b, c, d, e, f, g, h),
            #[cfg(feature = "mixed")]
            MacroArgs::Tup(a, b) => go!(tup, a, b),
            _ => Res::Unit,
        }
    }
    fn conv(r: Result<String, aj::Error>) -> Res {
        match r {
            Ok(id) => Res::Id(id),
            Err(e) => Res::Err(format!("{e:?}")),
        }
    }
    pub async fn get(args: &MacroArgs, id: &str) -> Option<View> {
        use aj::AJ;
        macro_rules! g {
            ($t:ty) => {
                AJ::get_job::<$t>(id).await.map(|j| view(&j.context, None))
            };
        }
        match args {
            MacroArgs::Add(..) => g!(add_three::JobAddThree),
            MacroArgs::Swap(..) => g!(swap_two::JobSwapTwo),
            MacroArgs::One(..) => g!(one_arg::JobOneArg),
            MacroArgs::Many(..) => g!(many::JobMany),
            #[cfg(feature = "mixed")]
            MacroArgs::Mixed(..) => g!(mixed::JobMixed),
            #[cfg(feature = "mixed")]
            MacroArgs::Named(..) => g!(named::JobNamed),
            #[cfg(feature = "mixed")]
            MacroArgs::Tup(..) => g!(tup::JobTup),
            _ => None,
        }
    }
}
