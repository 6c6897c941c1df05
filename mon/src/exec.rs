//! Scripted executors: the job's data says what each execution does, and every execution logs to
//! the run it belongs to.
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use rexecutor::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub type TJob = Job<Payload, Meta>;
pub type BJob = rexecutor::backend::Job;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Outcome {
    Done,
    Cancel(String),
    SnoozeMs(i64),
    Error(u8, String),
    /// 0: &str, 1: String, 2: other payload
    Panic(u8, String),
    /// Never returns by itself (needs a timeout).
    Hang,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Step {
    /// Time the execution takes, in slices, each followed by a progress event.
    pub slices_ms: Vec<u64>,
    pub outcome: Outcome,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Payload {
    pub run: u64,
    pub key: u64,
    /// Changed by updates and replacements.
    pub version: u64,
    /// Indexed by the number of previous executions of the job; the last entry repeats.
    pub steps: Vec<Step>,
    /// Indexed by attempt - 1; the last entry repeats.
    pub backoffs_ms: Vec<i64>,
    pub timeouts_ms: Vec<Option<u64>>,
}

impl Payload {
    pub fn backoff(&self, attempt: u16) -> TimeDelta {
        let i = (attempt.max(1) - 1) as usize;
        self.backoffs_ms.get(i).or(self.backoffs_ms.last()).map_or(TimeDelta::zero(), |ms| delta_ms(*ms))
    }
    pub fn timeout(&self, attempt: u16) -> Option<std::time::Duration> {
        let i = (attempt.max(1) - 1) as usize;
        self.timeouts_ms
            .get(i)
            .or(self.timeouts_ms.last())
            .copied()
            .flatten()
            .map(std::time::Duration::from_millis)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Meta {
    pub note: String,
    pub n: i64,
}

pub struct Cfg {
    pub name: &'static str,
    pub max_attempts: u16,
    pub max_concurrency: Option<usize>,
    pub blocking: bool,
}

const fn cfg(name: &'static str, max_attempts: u16, max_concurrency: Option<usize>, blocking: bool) -> Cfg {
    Cfg { name, max_attempts, max_concurrency, blocking }
}

pub const NEX: usize = 11;
pub const CFGS: [Cfg; NEX] = [
    cfg("alpha", 3, None, false),
    cfg("alpha_serial", 4, Some(1), false),
    cfg("beta_pair", 2, Some(2), false),
    cfg("gamma_five", 5, Some(5), false),
    cfg("block_free", 3, None, true),
    cfg("block_serial", 3, Some(1), true),
    cfg("one_shot", 1, None, false),
    cfg("block_pair", 2, Some(2), true),
    cfg("delta_twelve", 2, Some(12), false),
    cfg("eps_forty", 3, Some(40), false),
    cfg("block_nine", 2, Some(9), true),
];

pub struct Ex<const N: usize>;

pub const ERR_TYPES: [&str; 4] = ["network", "validation", "Panic", "time out"];

#[derive(Debug)]
pub struct ScriptError(u8, String);
impl std::fmt::Display for ScriptError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.1)
    }
}
impl std::error::Error for ScriptError {}
impl ExecutionError for ScriptError {
    fn error_type(&self) -> &'static str {
        ERR_TYPES[self.0 as usize % ERR_TYPES.len()]
    }
}

#[derive(Debug, Clone)]
pub enum Ev {
    /// An instance enqueued a job (cron); `job.id` is the id it was given.
    Called { inst: usize, job: BJob, key: Option<i64>, ok: bool },
    /// A ready-job stream of an instance yielded a job.
    Claim { inst: usize, job: BJob },
    StreamErr { inst: usize },
    Start { job: Box<TJob>, ordinal: usize },
    Slice { id: i32, ordinal: usize, n: usize },
    End { id: i32, ordinal: usize, outcome: Outcome },
    /// The future of an execution was dropped before it ended.
    Dropped { id: i32, ordinal: usize },
    /// Backend call by an instance (not by the harness).
    Call { inst: usize, what: String, id: Option<i32>, ok: bool },
    /// Operation by the harness with its result and, for reruns, the job right afterwards.
    Op { op: Box<crate::model::Op>, res: crate::model::Res, after: Option<Box<BJob>> },
    Up { inst: usize, execs: Vec<usize> },
    Down { inst: usize },
    Wake,
    /// A job received by an executor of the typed workloads.
    Typed { name: &'static str, job: Box<BJob> },
    /// The log reached its limit: something is repeated without end.
    Runaway,
    /// Complete table at a quiescent point.
    Table { jobs: Vec<BJob> },
}

#[derive(Debug, Clone)]
pub struct Event {
    pub t: DateTime<Utc>,
    pub ev: Ev,
}

#[derive(Default)]
pub struct RunLog {
    pub events: Mutex<Vec<Event>>,
    pub ordinals: Mutex<HashMap<i32, usize>>,
    pub closed: std::sync::atomic::AtomicBool,
    entries: std::sync::atomic::AtomicUsize,
}

pub const LOG_LIMIT: usize = 30_000;
/// Error entries in all the copies of jobs that were logged.
const ENTRY_LIMIT: usize = 1_000_000;

impl RunLog {
    pub fn full(&self) -> bool {
        self.events.lock().unwrap().len() >= LOG_LIMIT || self.entries.load(Ordering::SeqCst) >= ENTRY_LIMIT
    }
    pub fn push(&self, ev: Ev) {
        if !self.closed.load(Ordering::SeqCst) {
            let t = Utc::now();
            let n = match &ev {
                Ev::Start { job, .. } => job.errors.len(),
                Ev::Table { jobs } => jobs.iter().map(|j| j.errors.len()).sum(),
                Ev::Claim { job, .. } => job.errors.len(),
                _ => 0,
            };
            let before = self.entries.fetch_add(n, Ordering::SeqCst);
            let mut events = self.events.lock().unwrap();
            if events.len() < LOG_LIMIT && before < ENTRY_LIMIT {
                events.push(Event { t, ev });
            } else if !matches!(events.last(), Some(Event { ev: Ev::Runaway, .. })) {
                events.push(Event { t, ev: Ev::Runaway });
            }
        }
    }
}

static RUNS: Mutex<Option<HashMap<u64, Arc<RunLog>>>> = Mutex::new(None);
static NEXT_RUN: AtomicU64 = AtomicU64::new(1);

pub struct Run {
    pub id: u64,
    pub log: Arc<RunLog>,
}

impl Run {
    pub fn new() -> Self {
        let id = NEXT_RUN.fetch_add(1, Ordering::SeqCst);
        let log = Arc::new(RunLog::default());
        RUNS.lock().unwrap().get_or_insert_default().insert(id, log.clone());
        Self { id, log }
    }
}

impl Default for Run {
    fn default() -> Self {
        Self::new()
    }
}

impl Drop for Run {
    fn drop(&mut self) {
        self.log.closed.store(true, Ordering::SeqCst);
        if let Some(m) = RUNS.lock().unwrap().as_mut() {
            m.remove(&self.id);
        }
    }
}

pub fn run_log(id: u64) -> Option<Arc<RunLog>> {
    RUNS.lock().unwrap().as_ref().and_then(|m| m.get(&id).cloned())
}

struct DropLog {
    log: Arc<RunLog>,
    id: i32,
    ordinal: usize,
    armed: bool,
}
impl Drop for DropLog {
    fn drop(&mut self) {
        if self.armed {
            self.log.push(Ev::Dropped { id: self.id, ordinal: self.ordinal });
        }
    }
}

pub fn step_of(p: &Payload, ordinal: usize) -> Option<&Step> {
    p.steps.get(ordinal).or(p.steps.last())
}

pub async fn run_script(job: TJob, blocking: bool) -> ExecutionResult {
    let Some(log) = run_log(job.data.run) else {
        return ExecutionResult::Done;
    };
    let id: i32 = job.id.into();
    let ordinal = {
        let mut o = log.ordinals.lock().unwrap();
        let e = o.entry(id).or_default();
        let r = *e;
        *e += 1;
        r
    };
    let step = step_of(&job.data, ordinal).cloned();
    log.push(Ev::Start { job: Box::new(job), ordinal });
    let Some(step) = step else {
        log.push(Ev::End { id, ordinal, outcome: Outcome::Done });
        return ExecutionResult::Done;
    };
    let mut guard = DropLog { log: log.clone(), id, ordinal, armed: true };
    for (n, ms) in step.slices_ms.iter().enumerate() {
        if blocking {
            std::thread::sleep(std::time::Duration::from_millis(*ms));
        } else {
            tokio::time::sleep(std::time::Duration::from_millis(*ms)).await;
        }
        log.push(Ev::Slice { id, ordinal, n });
    }
    if step.outcome == Outcome::Hang {
        if blocking {
            // cooperative: wake up every millisecond of real time and yield to the timeout
            loop {
                std::thread::sleep(std::time::Duration::from_millis(1));
                tokio::task::yield_now().await;
            }
        }
        futures::future::pending::<()>().await;
    }
    guard.armed = false;
    log.push(Ev::End { id, ordinal, outcome: step.outcome.clone() });
    drop(log);
    match step.outcome {
        Outcome::Done => ExecutionResult::Done,
        Outcome::Cancel(reason) => ExecutionResult::Cancel { reason: Box::new(reason) },
        Outcome::SnoozeMs(ms) => ExecutionResult::Snooze { delay: delta_ms(ms) },
        Outcome::Error(k, m) => ScriptError(k, m).into(),
        Outcome::Panic(0, m) => {
            // a &'static str payload
            let s: &'static str = Box::leak(m.into_boxed_str());
            std::panic::panic_any(s)
        }
        Outcome::Panic(1, m) => std::panic::panic_any(m),
        Outcome::Panic(..) => std::panic::panic_any(42_u64),
        Outcome::Hang => unreachable!(),
    }
}

/// i64::MAX / i64::MIN stand for the extreme deltas.
pub fn delta_ms(ms: i64) -> TimeDelta {
    match ms {
        i64::MAX => TimeDelta::MAX,
        i64::MIN => TimeDelta::MIN,
        _ => TimeDelta::milliseconds(ms),
    }
}

#[async_trait]
impl<const N: usize> Executor for Ex<N> {
    type Data = Payload;
    type Metadata = Meta;
    const NAME: &'static str = CFGS[N].name;
    const MAX_ATTEMPTS: u16 = CFGS[N].max_attempts;
    const MAX_CONCURRENCY: Option<usize> = CFGS[N].max_concurrency;
    const BLOCKING: bool = CFGS[N].blocking;

    async fn execute(job: TJob) -> ExecutionResult {
        run_script(job, CFGS[N].blocking).await
    }
    fn backoff(job: &TJob) -> TimeDelta {
        job.data.backoff(job.attempt)
    }
    fn timeout(job: &TJob) -> Option<std::time::Duration> {
        job.data.timeout(job.attempt)
    }
}

/// Calls the body with `E` bound to the executor with the given index.
#[macro_export]
macro_rules! with_ex {
    ($n:expr, $E:ident => $body:expr) => {
        match $n {
            0 => { type $E = $crate::exec::Ex<0>; $body }
            1 => { type $E = $crate::exec::Ex<1>; $body }
            2 => { type $E = $crate::exec::Ex<2>; $body }
            3 => { type $E = $crate::exec::Ex<3>; $body }
            4 => { type $E = $crate::exec::Ex<4>; $body }
            5 => { type $E = $crate::exec::Ex<5>; $body }
            6 => { type $E = $crate::exec::Ex<6>; $body }
            7 => { type $E = $crate::exec::Ex<7>; $body }
            8 => { type $E = $crate::exec::Ex<8>; $body }
            9 => { type $E = $crate::exec::Ex<9>; $body }
            _ => { type $E = $crate::exec::Ex<10>; $body }
        }
    };
}

/// Untyped view of a typed job, independent of the crate's own conversion.
pub fn to_b<D: Serialize, M: Serialize>(j: &Job<D, M>) -> BJob {
    BJob {
        id: j.id.into(),
        status: j.status,
        executor: j.executor.clone(),
        data: serde_json::to_value(&j.data).unwrap(),
        metadata: serde_json::to_value(&j.metadata).unwrap(),
        attempt: j.attempt.into(),
        max_attempts: j.max_attempts.into(),
        priority: j.priority.into(),
        tags: j.tags.clone(),
        errors: j.errors.clone(),
        inserted_at: j.inserted_at,
        scheduled_at: j.scheduled_at,
        attempted_at: j.attempted_at,
        completed_at: j.completed_at,
        cancelled_at: j.cancelled_at,
        discarded_at: j.discarded_at,
    }
}
