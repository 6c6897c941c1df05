//! Reference model of a backend: a table of jobs and what each operation does to it, written from
//! the documented behaviour. Owned descriptions of operations, so that they can be generated,
//! logged and replayed.
use crate::exec::BJob;
use crate::rng::Rng;
use chrono::{DateTime, TimeDelta, Utc};
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Query};
use rexecutor::job::uniqueness_criteria::{Replace, UniquenessCriteria};
use rexecutor::job::{ErrorType, JobError, JobId, JobStatus};
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use std::collections::BTreeMap;

pub type T = DateTime<Utc>;

/// How much earlier than its scheduled time a job may be handed out.
pub const EARLY: TimeDelta = TimeDelta::milliseconds(100);

pub fn new_job(id: i32, now: T) -> BJob {
    BJob {
        id,
        status: JobStatus::Scheduled,
        executor: String::new(),
        data: serde_json::Value::Null,
        metadata: serde_json::Value::Null,
        attempt: 0,
        max_attempts: 0,
        priority: 0,
        tags: vec![],
        errors: vec![],
        inserted_at: now,
        scheduled_at: now,
        attempted_at: None,
        completed_at: None,
        cancelled_at: None,
        discarded_at: None,
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct New {
    pub executor: String,
    pub data: serde_json::Value,
    pub metadata: serde_json::Value,
    pub max_attempts: u16,
    pub scheduled_at: T,
    pub tags: Vec<String>,
    pub priority: u16,
    pub crit: Option<Crit>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Crit {
    pub key: Option<u64>,
    pub executor: bool,
    pub within: Option<TimeDelta>,
    pub statuses: Vec<JobStatus>,
    pub replace: Option<Rep>,
    /// Order in which the builder calls are made.
    pub shape: u64,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Rep {
    pub scheduled_at: bool,
    pub data: bool,
    pub metadata: bool,
    pub priority: bool,
    pub max_attempts: bool,
    pub statuses: Vec<JobStatus>,
}

impl Rep {
    pub fn build(&self) -> Replace<'_> {
        // start from one of the flagged constructors, then add the others
        let mut fs: Vec<u8> = vec![];
        for (i, f) in [self.scheduled_at, self.data, self.metadata, self.priority, self.max_attempts].iter().enumerate() {
            if *f {
                fs.push(i as u8);
            }
        }
        let mut r = match fs.first() {
            None => return Replace { for_statuses: &self.statuses, ..Default::default() },
            Some(0) => Replace::scheduled_at(),
            Some(1) => Replace::data(),
            Some(2) => Replace::metadata(),
            Some(3) => Replace::priority(),
            Some(_) => Replace::max_attempts(),
        };
        for f in &fs[1..] {
            r = match f {
                0 => r.and_scheduled_at(),
                1 => r.and_data(),
                2 => r.and_metadata(),
                3 => r.and_priority(),
                _ => r.and_max_attempts(),
            };
        }
        if self.statuses == [JobStatus::Scheduled] && fs.len() % 2 == 1 {
            // the documented default
            return r;
        }
        r.for_statuses(&self.statuses)
    }
}

impl Crit {
    /// Through the public constructors, in an order that depends on `shape`. All orders mean the same.
    pub fn build(&self) -> UniquenessCriteria<'_> {
        let mut parts: Vec<u8> = vec![];
        if self.key.is_some() {
            parts.push(0);
        }
        if self.executor {
            parts.push(1);
        }
        if self.within.is_some() {
            parts.push(3);
        }
        // waiting to be run for the first time is the documented default
        if parts.is_empty() || self.statuses != [JobStatus::Scheduled] || self.shape & 2 == 0 {
            parts.push(2);
        }
        Rng::new(self.shape).shuffle(&mut parts);
        let mut c: Option<UniquenessCriteria<'_>> = None;
        for p in parts {
            c = Some(match (c, p) {
                (None, 0) => UniquenessCriteria::by_key(&self.key.unwrap()),
                (None, 1) => UniquenessCriteria::by_executor(),
                (None, 2) => UniquenessCriteria::by_statuses(&self.statuses),
                (None, _) => UniquenessCriteria::within(self.within.unwrap()),
                (Some(c), 0) => c.and_key(&self.key.unwrap()),
                (Some(c), 1) => c.and_executor(),
                (Some(c), 2) => c.and_statuses(&self.statuses),
                (Some(c), _) => c.and_within(self.within.unwrap()),
            });
        }
        let c = c.unwrap();
        match &self.replace {
            Some(r) => c.on_conflict(r.build()),
            None if self.shape % 2 == 0 => c.on_conflict_do_nothing(),
            None => c,
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Q {
    Not(Box<Q>),
    And(Vec<Q>),
    Or(Vec<Q>),
    Executor(String),
    Data(serde_json::Value),
    Metadata(serde_json::Value),
    Id(i32),
    IdIn(Vec<i32>),
    Status(JobStatus),
    TagsAll(Vec<String>),
    TagsAny(Vec<String>),
    Before(T),
    After(T),
    At(T),
}

impl Q {
    pub fn matches(&self, j: &BJob) -> bool {
        match self {
            Q::Not(q) => !q.matches(j),
            Q::And(qs) => qs.iter().all(|q| q.matches(j)),
            Q::Or(qs) => qs.iter().any(|q| q.matches(j)),
            Q::Executor(e) => j.executor == *e,
            Q::Data(d) => j.data == *d,
            Q::Metadata(d) => j.metadata == *d,
            Q::Id(i) => j.id == *i,
            Q::IdIn(is) => is.contains(&j.id),
            Q::Status(s) => j.status == *s,
            Q::TagsAll(ts) => ts.iter().all(|t| j.tags.contains(t)),
            Q::TagsAny(ts) => ts.iter().any(|t| j.tags.contains(t)),
            Q::Before(t) => j.scheduled_at < *t,
            Q::After(t) => j.scheduled_at > *t,
            Q::At(t) => j.scheduled_at == *t,
        }
    }
    /// Depth of the tree.
    pub fn depth(&self) -> usize {
        match self {
            Q::Not(q) => 1 + q.depth(),
            Q::And(qs) | Q::Or(qs) => 1 + qs.iter().map(|q| q.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// Runs `f` with the borrowed query type of the crate.
    pub fn arena(&self) -> QArena {
        let mut a = QArena::default();
        a.collect(self);
        a
    }
}

/// Storage for the slices that the crate's query type borrows.
#[derive(Default)]
pub struct QArena {
    ids: Vec<Vec<JobId>>,
    tags: Vec<Vec<String>>,
}
impl QArena {
    fn collect(&mut self, q: &Q) {
        match q {
            Q::Not(q) => self.collect(q),
            Q::And(qs) | Q::Or(qs) => qs.iter().for_each(|q| self.collect(q)),
            Q::IdIn(is) => self.ids.push(is.iter().map(|i| JobId::from(*i)).collect()),
            Q::TagsAll(ts) | Q::TagsAny(ts) => self.tags.push(ts.clone()),
            _ => {}
        }
    }
    pub fn tag_refs(&self) -> Vec<Vec<&str>> {
        self.tags.iter().map(|ts| ts.iter().map(String::as_str).collect()).collect()
    }
    pub fn build<'a>(&'a self, q: &'a Q, tags: &'a [Vec<&'a str>]) -> Query<'a> {
        let mut i = 0;
        let mut t = 0;
        self.go(q, tags, &mut i, &mut t)
    }
    fn go<'a>(&'a self, q: &'a Q, tags: &'a [Vec<&'a str>], i: &mut usize, t: &mut usize) -> Query<'a> {
        match q {
            Q::Not(q) => Query::Not(Box::new(self.go(q, tags, i, t))),
            Q::And(qs) => Query::And(qs.iter().map(|q| self.go(q, tags, i, t)).collect()),
            Q::Or(qs) => Query::Or(qs.iter().map(|q| self.go(q, tags, i, t)).collect()),
            Q::Executor(e) => Query::ExecutorEqual(e),
            Q::Data(d) => Query::DataEquals(d.clone()),
            Q::Metadata(d) => Query::MetadataEquals(d.clone()),
            Q::Id(i) => Query::IdEquals((*i).into()),
            Q::IdIn(_) => {
                *i += 1;
                Query::IdIn(&self.ids[*i - 1])
            }
            Q::Status(s) => Query::StatusEqual(*s),
            Q::TagsAll(_) => {
                *t += 1;
                Query::TagsAllOf(&tags[*t - 1])
            }
            Q::TagsAny(_) => {
                *t += 1;
                Query::TagsOneOf(&tags[*t - 1])
            }
            Q::Before(d) => Query::ScheduledAtBefore(*d),
            Q::After(d) => Query::ScheduledAtAfter(*d),
            Q::At(d) => Query::ScheduledAtEqual(*d),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Enqueue(New),
    Complete(i32),
    Retry(i32, T, ErrorType, String),
    Discard(i32, ErrorType, String),
    Cancel(i32, ErrorType, String),
    Snooze(i32, T),
    Rerun(i32),
    Update(BJob),
    Prune(PruneSpec),
    Query(Q),
    /// Next ready job of the executor, if there is one now.
    Claim(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Id(i32),
    Ok,
    NotFound(String),
    Jobs(Vec<BJob>),
    Claimed(Option<BJob>),
    Err(String),
}

fn res<V>(r: Result<V, BackendError>, f: impl FnOnce(V) -> Res) -> Res {
    match r {
        Ok(v) => f(v),
        Err(BackendError::JobNotFound(id)) => Res::NotFound(format!("{}", i32::from(id))),
        Err(e) => Res::Err(format!("{e:?}")),
    }
}

/// Performs an operation (not claims) on the real backend.
pub async fn perform<B: Backend + ?Sized + Sync>(b: &B, op: &Op) -> Res {
    let ee = |e: &ErrorType, m: &str| ExecutionError { error_type: e.clone(), message: m.to_owned() };
    match op {
        Op::Enqueue(n) => {
            let j = EnqueuableJob {
                executor: n.executor.clone(),
                data: n.data.clone(),
                metadata: n.metadata.clone(),
                max_attempts: n.max_attempts,
                scheduled_at: n.scheduled_at,
                tags: n.tags.clone(),
                priority: n.priority,
                uniqueness_criteria: n.crit.as_ref().map(|c| c.build()),
            };
            res(b.enqueue(j).await, |id| Res::Id(id.into()))
        }
        Op::Complete(id) => res(b.mark_job_complete((*id).into()).await, |_| Res::Ok),
        Op::Retry(id, at, e, m) => res(b.mark_job_retryable((*id).into(), *at, ee(e, m)).await, |_| Res::Ok),
        Op::Discard(id, e, m) => res(b.mark_job_discarded((*id).into(), ee(e, m)).await, |_| Res::Ok),
        Op::Cancel(id, e, m) => res(b.mark_job_cancelled((*id).into(), ee(e, m)).await, |_| Res::Ok),
        Op::Snooze(id, at) => res(b.mark_job_snoozed((*id).into(), *at).await, |_| Res::Ok),
        Op::Rerun(id) => res(b.rerun_job((*id).into()).await, |_| Res::Ok),
        Op::Update(j) => res(b.update_job(j.clone()).await, |_| Res::Ok),
        Op::Prune(s) => res(b.prune_jobs(s).await, |_| Res::Ok),
        Op::Query(q) => {
            let a = q.arena();
            let t = a.tag_refs();
            res(b.query(a.build(q, &t)).await, Res::Jobs)
        }
        Op::Claim(_) => unreachable!("claims go through a stream"),
    }
}

/// All jobs of the backend.
pub async fn table<B: Backend + ?Sized + Sync>(b: &B) -> Result<Vec<BJob>, BackendError> {
    b.query(Query::And(vec![])).await
}

#[derive(Debug, Clone)]
pub struct Row {
    pub job: BJob,
    pub key: Option<u64>,
}

#[derive(Debug, Clone, Default)]
pub struct Model {
    pub rows: BTreeMap<i32, Row>,
    /// How far apart clocks may be (0 under virtual time).
    pub tol: TimeDelta,
    /// Ids handed out so far, pruned ones included.
    pub used: std::collections::BTreeSet<i32>,
    /// Whether `within` is compared with the new job's schedule only (Postgres) or with both
    /// readings (in memory).
    pub within_scheduled_only: bool,
    /// Do not tell the two waiting statuses apart (where the specification leaves the choice open).
    pub lenient_waiting: bool,
}

pub fn waiting(s: JobStatus) -> bool {
    matches!(s, JobStatus::Scheduled | JobStatus::Retryable)
}
pub fn terminal(s: JobStatus) -> bool {
    matches!(s, JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Tri {
    Yes,
    No,
    Unknown,
}

fn close(a: T, b: T, tol: TimeDelta) -> bool {
    a.signed_duration_since(b).abs() <= tol
}
fn close_opt(a: Option<T>, b: Option<T>, tol: TimeDelta) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => close(a, b, tol),
        _ => false,
    }
}

/// Field names in which the job differs from what is expected.
pub fn diff(actual: &BJob, want: &BJob, tol: TimeDelta) -> Vec<&'static str> {
    let mut d = vec![];
    if actual.id != want.id {
        d.push("id");
    }
    if actual.status != want.status {
        d.push("status");
    }
    if actual.executor != want.executor {
        d.push("executor");
    }
    if actual.data != want.data {
        d.push("data");
    }
    if actual.metadata != want.metadata {
        d.push("metadata");
    }
    if actual.attempt != want.attempt {
        d.push("attempt");
    }
    if actual.max_attempts != want.max_attempts {
        d.push("max_attempts");
    }
    if actual.priority != want.priority {
        d.push("priority");
    }
    if actual.tags != want.tags {
        d.push("tags");
    }
    if actual.errors.len() != want.errors.len()
        || actual.errors.iter().zip(&want.errors).any(|(a, w)| {
            a.attempt != w.attempt
                || a.error_type != w.error_type
                || !details_match(&a.details, &w.details)
                || !close(a.recorded_at, w.recorded_at, tol)
        })
    {
        d.push("errors");
    }
    if !close(actual.inserted_at, want.inserted_at, tol) {
        d.push("inserted_at");
    }
    if !close(actual.scheduled_at, want.scheduled_at, tol) {
        d.push("scheduled_at");
    }
    if !close_opt(actual.attempted_at, want.attempted_at, tol) {
        d.push("attempted_at");
    }
    if !close_opt(actual.completed_at, want.completed_at, tol) {
        d.push("completed_at");
    }
    if !close_opt(actual.cancelled_at, want.cancelled_at, tol) {
        d.push("cancelled_at");
    }
    if !close_opt(actual.discarded_at, want.discarded_at, tol) {
        d.push("discarded_at");
    }
    d
}

/// Marks an error entry whose exact text is not specified (only its presence).
pub const ANY_TEXT: &str = "\u{0}any";

fn details_match(a: &str, w: &str) -> bool {
    w == ANY_TEXT || a == w
}

pub fn show(actual: &BJob, want: &BJob, d: &[&str]) -> String {
    let mut s = String::new();
    for f in d {
        macro_rules! f {
            ($($n:ident),*) => { match *f { $(stringify!($n) => s += &format!(" {}={:?} (expected {:?})", f, actual.$n, want.$n),)* _ => {} } };
        }
        f!(id, status, executor, data, metadata, attempt, max_attempts, priority, tags, errors, inserted_at,
           scheduled_at, attempted_at, completed_at, cancelled_at, discarded_at);
    }
    s
}

impl Model {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get(&self, id: i32) -> Option<&BJob> {
        self.rows.get(&id).map(|r| &r.job)
    }
    pub fn get_mut(&mut self, id: i32) -> Option<&mut BJob> {
        self.rows.get_mut(&id).map(|r| &mut r.job)
    }

    fn crit_matches(&self, n: &New, c: &Crit, row: &Row, now: T) -> Tri {
        let j = &row.job;
        if c.key.is_some() && c.key != row.key {
            return Tri::No;
        }
        if c.executor && n.executor != j.executor {
            return Tri::No;
        }
        if !c.statuses.contains(&j.status) {
            return Tri::No;
        }
        if let Some(w) = c.within {
            let reading = |x: T| {
                let d = (j.scheduled_at - x).abs();
                if (d - w).abs() <= self.tol { Tri::Unknown } else if d < w { Tri::Yes } else { Tri::No }
            };
            if self.within_scheduled_only {
                return if (j.scheduled_at - n.scheduled_at).abs() <= w { Tri::Yes } else { Tri::No };
            }
            let (a, b) = (reading(now), reading(n.scheduled_at));
            return if a == b { a } else { Tri::Unknown };
        }
        Tri::Yes
    }

    pub fn insert(&mut self, id: i32, n: &New, now: T) {
        let mut j = new_job(id, now);
        j.executor = n.executor.clone();
        j.data = n.data.clone();
        j.metadata = n.metadata.clone();
        j.max_attempts = n.max_attempts.into();
        j.priority = n.priority.into();
        j.scheduled_at = n.scheduled_at;
        j.tags = n.tags.clone();
        self.used.insert(id);
        self.rows.insert(id, Row { job: j, key: n.crit.as_ref().and_then(|c| c.key) });
    }

    fn record(job: &mut BJob, e: &ErrorType, m: &str, now: T) {
        job.errors.push(JobError {
            attempt: job.attempt as u16,
            error_type: e.clone(),
            details: m.to_owned(),
            recorded_at: now,
        });
    }

    pub fn claimable(&self, executor: &str, now: T) -> impl Iterator<Item = &BJob> {
        let executor = executor.to_owned();
        self.rows
            .values()
            .map(|r| &r.job)
            .filter(move |j| j.executor == executor && waiting(j.status) && j.scheduled_at <= now)
    }

    /// What is wrong with handing out this job at `now`, if anything: (property, what).
    pub fn claim_errors(&self, got: &BJob, executor: &str, now: T) -> Vec<(&'static str, String)> {
        let mut out = vec![];
        let Some(row) = self.get(got.id) else {
            out.push(("C20", format!("unknown job {} handed out", got.id)));
            return out;
        };
        if row.executor != executor {
            out.push(("C20", format!("job {} of executor {} handed to {executor}", got.id, row.executor)));
        }
        if !waiting(row.status) {
            let p = if row.status == JobStatus::Executing { "C01" } else { "C07" };
            out.push((p, format!("job {} handed out while {:?}", got.id, row.status)));
        }
        if row.scheduled_at.signed_duration_since(now) > EARLY + self.tol {
            out.push(("C03", format!("job {} handed out at {now}, scheduled for {}", got.id, row.scheduled_at)));
        }
        if let Some(better) = self.rows.values().map(|r| &r.job).find(|j| {
            j.executor == row.executor
                && waiting(j.status)
                && j.id != got.id
                && j.scheduled_at == row.scheduled_at
                && j.priority < row.priority
        }) {
            out.push((
                "C04",
                format!(
                    "job {} (priority {}) handed out before job {} (priority {}), both scheduled for {}",
                    got.id, row.priority, better.id, better.priority, row.scheduled_at
                ),
            ));
        }
        out
    }

    pub fn claim(&mut self, id: i32, now: T) {
        if let Some(j) = self.get_mut(id) {
            j.status = JobStatus::Executing;
            j.attempt += 1;
            j.attempted_at = Some(now);
        }
    }

    /// Jobs a prune must remove; `Err` jobs are undetermined (ties at the boundary).
    pub fn pruned(&self, s: &PruneSpec, now: T) -> (Vec<i32>, Vec<i32>, usize) {
        let hit = |j: &BJob| {
            j.status == s.status
                && match &s.executors {
                    Spec::Except(es) => !es.iter().any(|e| *e == j.executor),
                    Spec::Only(es) => es.iter().any(|e| *e == j.executor),
                }
        };
        let cands: Vec<&BJob> = self.rows.values().map(|r| &r.job).filter(|j| hit(j)).collect();
        let past = terminal(s.status);
        match s.prune_by {
            PruneBy::MaxAge(age) => {
                let mut must = vec![];
                let mut may = vec![];
                for j in cands {
                    // how far beyond the limit
                    let over = if past {
                        now.signed_duration_since(j.scheduled_at) - age
                    } else {
                        j.scheduled_at.signed_duration_since(now) - age
                    };
                    if over.abs() <= self.tol {
                        may.push(j.id);
                    } else if over > TimeDelta::zero() {
                        must.push(j.id);
                    }
                }
                let n = must.len();
                (must, may, n)
            }
            PruneBy::MaxLength(len) => {
                let n = cands.len().saturating_sub(len as usize);
                let mut ts: Vec<(T, i32)> = cands.iter().map(|j| (j.scheduled_at, j.id)).collect();
                ts.sort();
                if !past {
                    ts.reverse();
                }
                if n == 0 || n == ts.len() {
                    return (if n == 0 { vec![] } else { ts.iter().map(|x| x.1).collect() }, vec![], n);
                }
                // ties around the cut are free
                let cut_in = ts[n - 1].0;
                let cut_out = ts[n].0;
                if cut_in != cut_out {
                    return (ts[..n].iter().map(|x| x.1).collect(), vec![], n);
                }
                let must: Vec<i32> = ts[..n].iter().filter(|x| x.0 != cut_in).map(|x| x.1).collect();
                let may: Vec<i32> = ts.iter().filter(|x| x.0 == cut_in).map(|x| x.1).collect();
                (must, may, n)
            }
        }
    }

    /// Applies an operation with its observed result and the table observed afterwards (used only
    /// to resolve choices the specification leaves open). Returns what the result refutes.
    pub fn apply(&mut self, op: &Op, r: &Res, after: Option<&[BJob]>, now: T) -> Vec<(&'static str, String)> {
        let mut bad = vec![];
        let target = match op {
            Op::Complete(id) | Op::Retry(id, ..) | Op::Discard(id, ..) | Op::Cancel(id, ..) | Op::Snooze(id, _)
            | Op::Rerun(id) => Some(*id),
            Op::Update(j) => Some(j.id),
            _ => None,
        };
        if let Some(id) = target {
            let exists = self.rows.contains_key(&id);
            match (exists, r) {
                (true, Res::Ok) => {}
                (false, Res::NotFound(x)) if *x == id.to_string() => return bad,
                _ => {
                    bad.push(("C21", format!("{op:?} on {} job returned {r:?}", if exists { "an existing" } else { "an unknown" })));
                    return bad;
                }
            }
        }
        match op {
            Op::Enqueue(n) => {
                let Res::Id(id) = r else {
                    bad.push(("C20", format!("enqueue failed: {r:?}")));
                    return bad;
                };
                let Some(c) = &n.crit else {
                    if self.used.contains(id) {
                        bad.push(("C14", format!("enqueue returned the id {id}, which is already taken")));
                    }
                    self.insert(*id, n, now);
                    return bad;
                };
                let yes: Vec<i32> = self.rows.values().filter(|row| self.crit_matches(n, c, row, now) == Tri::Yes).map(|r| r.job.id).collect();
                let maybe: Vec<i32> =
                    self.rows.values().filter(|row| self.crit_matches(n, c, row, now) == Tri::Unknown).map(|r| r.job.id).collect();
                if yes.contains(id) || maybe.contains(id) {
                    if let Some(rep) = &c.replace {
                        let j = self.get_mut(*id).unwrap();
                        if rep.statuses.contains(&j.status) {
                            if rep.scheduled_at {
                                j.scheduled_at = n.scheduled_at;
                            }
                            if rep.data {
                                j.data = n.data.clone();
                            }
                            if rep.metadata {
                                j.metadata = n.metadata.clone();
                            }
                            if rep.priority {
                                j.priority = n.priority.into();
                            }
                            if rep.max_attempts {
                                j.max_attempts = n.max_attempts.into();
                            }
                        }
                    }
                } else if self.used.contains(id) {
                    bad.push(("C12", format!("unique enqueue returned job {id}, which does not match {c:?} (matching: {yes:?})")));
                } else {
                    if !yes.is_empty() {
                        bad.push(("C12", format!("unique enqueue added job {id} although {yes:?} match {c:?}")));
                    }
                    self.insert(*id, n, now);
                }
            }
            Op::Complete(id) => {
                let j = self.get_mut(*id).unwrap();
                j.status = JobStatus::Complete;
                j.completed_at = Some(now);
            }
            Op::Retry(id, at, e, m) => {
                let j = self.get_mut(*id).unwrap();
                j.status = JobStatus::Retryable;
                j.scheduled_at = *at;
                Self::record(j, e, m, now);
            }
            Op::Discard(id, e, m) => {
                let j = self.get_mut(*id).unwrap();
                j.status = JobStatus::Discarded;
                j.discarded_at = Some(now);
                Self::record(j, e, m, now);
            }
            Op::Cancel(id, e, m) => {
                let j = self.get_mut(*id).unwrap();
                j.status = JobStatus::Cancelled;
                j.cancelled_at = Some(now);
                Self::record(j, e, m, now);
            }
            Op::Snooze(id, at) => {
                let j = self.get_mut(*id).unwrap();
                j.scheduled_at = *at;
                j.attempt -= 1;
                j.status = if j.attempt == 0 { JobStatus::Scheduled } else { JobStatus::Retryable };
            }
            Op::Rerun(id) => {
                // which of the two waiting statuses it gets is not specified
                let seen = after.and_then(|t| t.iter().find(|j| j.id == *id)).map(|j| j.status).filter(|s| waiting(*s));
                let j = self.get_mut(*id).unwrap();
                j.status = seen.unwrap_or(if j.attempt == 1 { JobStatus::Scheduled } else { JobStatus::Retryable });
                j.max_attempts += 1;
                j.scheduled_at = now;
                j.completed_at = None;
                j.cancelled_at = None;
                j.discarded_at = None;
            }
            Op::Update(u) => {
                let j = self.get_mut(u.id).unwrap();
                j.data = u.data.clone();
                j.metadata = u.metadata.clone();
                j.tags = u.tags.clone();
                j.priority = u.priority;
                j.max_attempts = u.max_attempts;
                j.scheduled_at = u.scheduled_at;
            }
            Op::Prune(s) => {
                if *r != Res::Ok {
                    bad.push(("C16", format!("prune failed: {r:?}")));
                    return bad;
                }
                let (must, may, n) = self.pruned(s, now);
                let gone: Vec<i32> = match after {
                    Some(t) => self.rows.keys().filter(|id| !t.iter().any(|j| j.id == **id)).copied().collect(),
                    None => must.clone(),
                };
                let kept: Vec<_> = must.iter().filter(|id| !gone.contains(id)).collect();
                if !kept.is_empty() {
                    bad.push(("C16", format!("{s:?} at {now} kept the jobs {kept:?}, which it must remove")));
                }
                let wrong: Vec<_> = gone.iter().filter(|id| !must.contains(id) && !may.contains(id)).collect();
                if !wrong.is_empty() {
                    bad.push(("C16", format!("{s:?} at {now} removed the jobs {wrong:?}, which it must keep")));
                }
                if matches!(s.prune_by, PruneBy::MaxLength(_)) && bad.is_empty() && gone.len() != n {
                    bad.push(("C16", format!("{s:?} removed {} jobs instead of {n}", gone.len())));
                }
                for id in gone {
                    self.rows.remove(&id);
                }
            }
            Op::Query(q) => match r {
                Res::Jobs(js) => {
                    let mut got: Vec<i32> = js.iter().map(|j| j.id).collect();
                    got.sort();
                    let want: Vec<i32> = self.rows.values().filter(|r| q.matches(&r.job)).map(|r| r.job.id).collect();
                    if got != want {
                        bad.push(("C15", format!("{q:?} returned {got:?}, expected {want:?}")));
                    }
                    for j in js {
                        if let Some(w) = self.get(j.id) {
                            let d = self.diff(j, w);
                            if !d.is_empty() && want.contains(&j.id) {
                                bad.push(("C15", format!("{q:?} returned job {} with{}", j.id, show(j, w, &d))));
                            }
                        }
                    }
                }
                _ => bad.push(("C15", format!("{q:?} failed: {r:?}"))),
            },
            Op::Claim(e) => match r {
                Res::Claimed(None) => {
                    if let Some(j) = self.claimable(e, now - self.tol).next() {
                        bad.push(("C02", format!("no job handed out at {now} although job {} is due since {}", j.id, j.scheduled_at)));
                    }
                }
                Res::Claimed(Some(got)) => {
                    bad.extend(self.claim_errors(got, e, now));
                    self.claim(got.id, now);
                    if let Some(w) = self.get(got.id) {
                        let d = self.diff(got, w);
                        if !d.is_empty() {
                            bad.push(("C20", format!("job {} handed out with{}", got.id, show(got, w, &d))));
                        }
                    }
                }
                _ => bad.push(("C02", format!("stream failed: {r:?}"))),
            },
        }
        bad
    }

    fn diff(&self, actual: &BJob, want: &BJob) -> Vec<&'static str> {
        let mut d = diff(actual, want, self.tol);
        if self.lenient_waiting && waiting(actual.status) && waiting(want.status) {
            d.retain(|f| *f != "status");
        }
        d
    }

    /// Differences between the whole table and the model: (job id, fields, description).
    pub fn compare(&self, t: &[BJob]) -> Vec<(i32, Vec<&'static str>, String)> {
        let mut out = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for j in t {
            if !seen.insert(j.id) {
                out.push((j.id, vec!["duplicate"], format!("job {} is there twice", j.id)));
                continue;
            }
            match self.get(j.id) {
                None => out.push((j.id, vec!["extra"], format!("unexpected job {j:?}"))),
                Some(w) => {
                    let d = self.diff(j, w);
                    if !d.is_empty() {
                        let s = show(j, w, &d);
                        out.push((j.id, d, format!("job {} has{s}", j.id)));
                    }
                }
            }
        }
        for id in self.rows.keys() {
            if !seen.contains(id) {
                out.push((*id, vec!["missing"], format!("job {id} is gone")));
            }
        }
        out
    }
}
