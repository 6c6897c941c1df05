//! The typed API: executors with many data and metadata types, the job builder with its calls in
//! any order, typed queries, updates, cancellations and reruns, each compared with the reference
//! model, on an explicit backend or through the global one; finally all jobs are executed and what
//! the executors receive is compared with what was enqueued.
use crate::exec::{BJob, Run, run_log, to_b};
use crate::generate::{Gen, TAGS};
use crate::model::*;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use rexecutor::backend::{Backend, BackendError};
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::job::builder::JobBuilder;
use rexecutor::job::query::Where;
use rexecutor::job::{JobId, JobStatus};
use rexecutor::prelude::*;
use rexecutor::RexecutorError;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

pub trait Sample: Sized {
    fn sample(r: &mut Rng) -> Self;
}

const STRINGS: [&str; 12] =
    ["", "data", "null", "{\"a\": [1, 2]}", "ünïcode ☃ \u{1F980}", "quote ' \" \\", "line\nbreak\r\t", "\u{0}nul", " padded ", "true", "12", "\u{feff}\u{202e}x"];

thread_local! {
    /// Only values that jsonb holds unchanged: no NUL characters, no integral floats.
    pub static JSONB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn ok<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T, fits: impl Fn(&T) -> bool) -> T {
    loop {
        let v = f(r);
        if !JSONB.get() || fits(&v) {
            return v;
        }
    }
}

impl Sample for String {
    fn sample(r: &mut Rng) -> Self {
        ok(r, |r| r.pick(&STRINGS).to_string(), |s| !s.contains('\0'))
    }
}
impl Sample for () {
    fn sample(_: &mut Rng) -> Self {}
}
impl Sample for bool {
    fn sample(r: &mut Rng) -> Self {
        r.pct(50)
    }
}
impl Sample for char {
    fn sample(r: &mut Rng) -> Self {
        ok(r, |r| *r.pick(&['a', '\0', '"', '\\', 'é', '\u{10ffff}', '\u{d7ff}']), |c| *c != '\0')
    }
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Sample for $t {
        fn sample(r: &mut Rng) -> Self {
            match r.below(5) {
                0 => <$t>::MIN,
                1 => <$t>::MAX,
                2 => 0,
                3 => 1,
                _ => r.next() as $t,
            }
        }
    })* };
}
ints!(u8, i32, i64, u64, u32, i16);
impl Sample for f64 {
    fn sample(r: &mut Rng) -> Self {
        // exactly representable or the shortest form: all survive the round trip
        let all = [0.0, -0.5, 0.1, 1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, 1.0 / 3.0, 123456789.125];
        ok(r, |r| *r.pick(&all), |f| f.fract() != 0.0)
    }
}
impl<T: Sample> Sample for Option<T> {
    fn sample(r: &mut Rng) -> Self {
        r.pct(65).then(|| T::sample(r))
    }
}
impl<T: Sample> Sample for Vec<T> {
    fn sample(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| T::sample(r)).collect()
    }
}
impl<T: Sample> Sample for BTreeMap<String, T> {
    fn sample(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| (String::sample(r), T::sample(r))).collect()
    }
}
impl<T: Sample> Sample for HashMap<String, T> {
    fn sample(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| (String::sample(r), T::sample(r))).collect()
    }
}
impl<A: Sample, B: Sample, C: Sample> Sample for (A, B, C) {
    fn sample(r: &mut Rng) -> Self {
        (A::sample(r), B::sample(r), C::sample(r))
    }
}
impl Sample for DateTime<Utc> {
    fn sample(r: &mut Rng) -> Self {
        DateTime::from_timestamp(r.range(-10_000_000_000, 10_000_000_000), (r.below(1_000_000_000)) as u32).unwrap()
    }
}
impl Sample for Value {
    fn sample(r: &mut Rng) -> Self {
        let mut v = Gen::new(r.fork()).value(3);
        if JSONB.get() {
            crate::generate::exact(&mut v);
        }
        v
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    Unit,
    New(i64),
    Tuple(u8, String),
    Struct { a: Option<Box<Shape>>, b: Vec<char> },
}
impl Sample for Shape {
    fn sample(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => Shape::Unit,
            1 => Shape::New(Sample::sample(r)),
            2 => Shape::Tuple(Sample::sample(r), Sample::sample(r)),
            _ => Shape::Struct { a: r.pct(40).then(|| Box::new(Shape::sample(r))), b: Sample::sample(r) },
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind", rename_all = "kebab-case")]
pub enum Tagged {
    FirstOne { x: i64 },
    SecondOne { y: Option<String> },
}
impl Sample for Tagged {
    fn sample(r: &mut Rng) -> Self {
        if r.pct(50) { Tagged::FirstOne { x: Sample::sample(r) } } else { Tagged::SecondOne { y: Sample::sample(r) } }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Nested {
    pub id: u64,
    #[serde(rename = "type")]
    pub kind: Shape,
    #[serde(flatten)]
    pub rest: BTreeMap<String, i64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub note: Option<String>,
    pub when: DateTime<Utc>,
}
impl Sample for Nested {
    fn sample(r: &mut Rng) -> Self {
        let mut rest = BTreeMap::new();
        for _ in 0..r.below(3) {
            rest.insert(format!("extra{}", r.below(5)), i64::sample(r));
        }
        Nested { id: Sample::sample(r), kind: Sample::sample(r), rest, note: Sample::sample(r), when: Sample::sample(r) }
    }
}

pub type Enqueued = Result<JobId, RexecutorError>;

/// An executor with everything the generic driver needs to know about it.
#[async_trait]
pub trait Typed: Executor<Data: Sample + Clone + Send + Sync + 'static + std::fmt::Debug, Metadata: Sample + Clone + Send + Sync + 'static>
    + Sized
    + Send
    + Sync
    + 'static
{
    /// The executor's own uniqueness criteria, as the model describes it.
    fn default_crit() -> Option<Crit>;
    /// Enqueue without data, for types where that is allowed.
    async fn plain<B: Backend + Send + Sync>(b: JobBuilder<'static, Self>, to: To<'_, B>) -> Option<Enqueued>;
}

pub enum To<'a, B> {
    Explicit(&'a B),
    Dyn(&'a (dyn Backend + Send + Sync)),
    Global,
}
impl<B> Clone for To<'_, B> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<B> Copy for To<'_, B> {}

fn observe<D: Serialize, M: Serialize>(name: &'static str, job: &Job<D, M>) {
    let run = job.tags.iter().find_map(|t| t.strip_prefix("run:")).and_then(|t| t.parse().ok());
    if let Some(log) = run.and_then(run_log) {
        log.push(crate::exec::Ev::Typed { name, job: Box::new(to_b(job)) });
    }
}

macro_rules! typed {
    (@plain yes $b:ident $to:ident) => {
        Some(match $to {
            To::Explicit(x) => $b.enqueue_to_backend(x).await,
            To::Dyn(x) => $b.enqueue_to_backend(x).await,
            To::Global => $b.enqueue().await,
        })
    };
    (@plain no $b:ident $to:ident) => {{
        let _ = ($b, $to);
        None
    }};
    ($($id:ident $name:literal $data:ty, $meta:ty, $plain:ident, $max:expr, $conc:expr, $crit:expr, $model:expr;)*) => { $(
        pub struct $id;
        #[async_trait]
        impl Executor for $id {
            type Data = $data;
            type Metadata = $meta;
            const NAME: &'static str = $name;
            const MAX_ATTEMPTS: u16 = $max;
            const MAX_CONCURRENCY: Option<usize> = $conc;
            const UNIQUENESS_CRITERIA: Option<UniquenessCriteria<'static>> = $crit;
            async fn execute(job: Job<$data, $meta>) -> ExecutionResult {
                observe($name, &job);
                ExecutionResult::Done
            }
        }
        #[async_trait]
        impl Typed for $id {
            fn default_crit() -> Option<Crit> {
                $model
            }
            async fn plain<B: Backend + Send + Sync>(b: JobBuilder<'static, Self>, to: To<'_, B>) -> Option<Enqueued> {
                typed!(@plain $plain b to)
            }
        }
    )* };
}

const UNI: UniquenessCriteria<'static> = UniquenessCriteria::by_executor()
    .and_within(TimeDelta::seconds(300))
    .and_statuses(&[JobStatus::Scheduled, JobStatus::Retryable])
    .on_conflict(Replace::priority().and_metadata().for_statuses(&[JobStatus::Scheduled]));

fn uni() -> Option<Crit> {
    Some(Crit {
        key: None,
        executor: true,
        within: Some(TimeDelta::seconds(300)),
        statuses: vec![JobStatus::Scheduled, JobStatus::Retryable],
        replace: Some(Rep { priority: true, metadata: true, statuses: vec![JobStatus::Scheduled], ..Default::default() }),
        shape: 0,
    })
}

/// The default of the trait is used by this one.
pub struct Plain;
#[async_trait]
impl Executor for Plain {
    type Data = String;
    type Metadata = String;
    const NAME: &'static str = "plain";
    async fn execute(job: Job<String, String>) -> ExecutionResult {
        observe("plain", &job);
        ExecutionResult::Done
    }
}
#[async_trait]
impl Typed for Plain {
    fn default_crit() -> Option<Crit> {
        None
    }
    async fn plain<B: Backend + Send + Sync>(_: JobBuilder<'static, Self>, _: To<'_, B>) -> Option<Enqueued> {
        None
    }
}

typed! {
    Units "units" (), Value, yes, 7, None, None, None;
    MaybeText "maybe_text" Option<String>, i64, yes, 1, Some(1), None, None;
    MaybeNest "maybe_nested" Option<Nested>, Vec<String>, yes, 65_535, None, Some(UNI), uni();
    Ints "ints" i64, u64, no, 3, Some(3), None, None;
    Unsigned "ints_unsigned" u64, (u8, bool, char), no, 0, None, None, None;
    Floats "floats" f64, bool, no, 2, None, None, None;
    Lists "lists" Vec<Option<i32>>, Vec<f64>, no, 2, None, Some(UniquenessCriteria::by_executor()),
        Some(Crit { key: None, executor: true, within: None, statuses: vec![JobStatus::Scheduled], replace: None, shape: 0 });
    Maps "maps" HashMap<String, Vec<u32>>, BTreeMap<String, String>, no, 4, None, None, None;
    Enums "enums" Shape, Tagged, no, 4, None, None, None;
    Structs "structs" Nested, Shape, no, 5, Some(2), None, None;
    Tuples "tuples" (i16, String, Option<char>), Nested, no, 5, None, None, None;
    Raw "raw" Value, String, no, 5, None, None, None;
}

#[macro_export]
macro_rules! with_typed {
    ($n:expr, $E:ident => $body:expr) => {
        match $n {
            0 => { type $E = $crate::typed::Plain; $body }
            1 => { type $E = $crate::typed::Units; $body }
            2 => { type $E = $crate::typed::MaybeText; $body }
            3 => { type $E = $crate::typed::MaybeNest; $body }
            4 => { type $E = $crate::typed::Ints; $body }
            5 => { type $E = $crate::typed::Unsigned; $body }
            6 => { type $E = $crate::typed::Floats; $body }
            7 => { type $E = $crate::typed::Lists; $body }
            8 => { type $E = $crate::typed::Maps; $body }
            9 => { type $E = $crate::typed::Enums; $body }
            10 => { type $E = $crate::typed::Structs; $body }
            11 => { type $E = $crate::typed::Tuples; $body }
            _ => { type $E = $crate::typed::Raw; $body }
        }
    };
}
pub const N_TYPED: u64 = 13;

enum Call<D, M> {
    Data(D),
    Meta(M),
    Max(u16),
    At(T),
    In(TimeDelta),
    Tag(String),
    Tags(Vec<String>),
    Unique(Crit),
    Priority(u16),
}

macro_rules! call {
    ($b:expr, $c:expr, $data:expr) => {
        match $c {
            Call::Data(_) => $data,
            Call::Meta(m) => $b.with_metadata(m),
            Call::Max(n) => $b.with_max_attempts(n),
            Call::At(t) => $b.schedule_at(t),
            Call::In(d) => $b.schedule_in(d),
            Call::Tag(t) => $b.add_tag(t),
            Call::Tags(ts) => $b.with_tags(ts),
            Call::Unique(c) => {
                let c: &'static Crit = Box::leak(Box::new(c));
                $b.unique(c.build())
            }
            Call::Priority(p) => $b.with_priority(p),
        }
    };
}

/// A typed query and its meaning.
enum W<D, M> {
    Not(Box<W<D, M>>),
    And(Vec<W<D, M>>),
    Or(Vec<W<D, M>>),
    Data(D),
    Meta(M),
    Ids(Vec<JobId>),
    TagsAll(Vec<&'static str>),
    TagsAny(Vec<&'static str>),
    OlderThan(TimeDelta),
    WithinLast(TimeDelta),
    Leaf(Q),
}

impl<D: Serialize, M: Serialize> W<D, M> {
    fn build(&self) -> Where<'_, D, M> {
        match self {
            W::Not(w) => !w.build(),
            W::And(ws) => ws[1..].iter().fold(ws[0].build(), |a, w| a.and(w.build())),
            W::Or(ws) => ws[1..].iter().fold(ws[0].build(), |a, w| a.or(w.build())),
            W::Data(d) => Where::data_equals(d),
            W::Meta(m) => Where::metadata_equals(m),
            W::Ids(is) => Where::id_in(is),
            W::TagsAll(ts) => Where::tagged_by_all_of(ts),
            W::TagsAny(ts) => Where::tagged_by_one_of(ts),
            W::OlderThan(d) => Where::scheduled_at_older_than(*d),
            W::WithinLast(d) => Where::scheduled_at_within_the_last(*d),
            W::Leaf(Q::Id(i)) => Where::id_equals((*i).into()),
            W::Leaf(Q::Status(s)) => Where::status_equals(*s),
            W::Leaf(Q::Before(t)) => Where::scheduled_at_before(*t),
            W::Leaf(Q::After(t)) => Where::scheduled_at_after(*t),
            W::Leaf(Q::At(t)) => Where::scheduled_at_equals(*t),
            W::Leaf(_) => unreachable!(),
        }
    }
    fn meaning(&self, now: T) -> Q {
        match self {
            W::Not(w) => Q::Not(Box::new(w.meaning(now))),
            W::And(ws) => Q::And(ws.iter().map(|w| w.meaning(now)).collect()),
            W::Or(ws) => Q::Or(ws.iter().map(|w| w.meaning(now)).collect()),
            W::Data(d) => Q::Data(serde_json::to_value(d).unwrap()),
            W::Meta(m) => Q::Metadata(serde_json::to_value(m).unwrap()),
            W::Ids(is) => Q::IdIn(is.iter().map(|i| (*i).into()).collect()),
            W::TagsAll(ts) => Q::TagsAll(ts.iter().map(|t| t.to_string()).collect()),
            W::TagsAny(ts) => Q::TagsAny(ts.iter().map(|t| t.to_string()).collect()),
            W::OlderThan(d) => Q::Before(now - *d),
            W::WithinLast(d) => Q::After(now - *d),
            W::Leaf(q) => q.clone(),
        }
    }
}

pub struct World<'a, B> {
    pub backend: &'a B,
    /// Operate through the global backend (which is `backend`).
    pub global: bool,
    pub model: Model,
    pub rows: Vec<BJob>,
    pub rng: Rng,
    pub g: Gen,
    pub run: u64,
    /// (properties refuted, description)
    pub bad: Vec<(Vec<&'static str>, String)>,
    pub log: Vec<String>,
    pub kinds: Vec<u64>,
    /// On Postgres.
    pub pg: bool,
}

fn res<V>(r: Result<V, RexecutorError>, f: impl FnOnce(V) -> Res) -> Res {
    match r {
        Ok(v) => f(v),
        Err(RexecutorError::BackendError(BackendError::JobNotFound(id))) => Res::NotFound(i32::from(id).to_string()),
        Err(e) => Res::Err(format!("{e:?}")),
    }
}

impl<'a, B: Backend + Send + Sync + 'static> World<'a, B> {
    pub fn new(backend: &'a B, global: bool, mut rng: Rng, run: u64) -> Self {
        let g = Gen::new(rng.fork());
        World { backend, global, model: Model::new(), rows: vec![], g, rng, run, bad: vec![], log: vec![], kinds: vec![], pg: false }
    }

    fn to(&mut self) -> To<'a, B> {
        if self.global {
            To::Global
        } else if self.rng.pct(25) {
            To::Dyn(self.backend)
        } else {
            To::Explicit(self.backend)
        }
    }

    /// One random operation through the typed API of executor `E`.
    pub async fn step<E: Typed>(&mut self) {
        let now = Utc::now();
        let to = self.to();
        let mine: Vec<BJob> = self.rows.iter().filter(|j| j.executor == E::NAME).cloned().collect();
        let (op, r) = match self.rng.below(if mine.is_empty() { 5 } else { 12 }) {
            0..=4 => self.enqueue::<E>(to, now).await,
            5..=8 => {
                let depth = self.rng.below(4) as u32;
                let w = self.typed_query::<E>(depth, now, &mine);
                let q = Q::And(vec![Q::Executor(E::NAME.into()), w.meaning(now)]);
                let r = match to {
                    To::Explicit(b) => E::query_jobs_on_backend(w.build(), b).await,
                    To::Dyn(b) => E::query_jobs_on_backend(w.build(), b).await,
                    To::Global => E::query_jobs(w.build()).await,
                };
                (Op::Query(q), res(r, |js| Res::Jobs(js.iter().map(to_b).collect())))
            }
            9 => {
                let id = self.any_id(&mine);
                let why = self.g.text();
                let reason = Box::new(why.clone());
                let r = match to {
                    To::Explicit(b) => E::cancel_job_on_backend(id.into(), reason, b).await,
                    To::Dyn(b) => E::cancel_job_on_backend(id.into(), reason, b).await,
                    To::Global => E::cancel_job(id.into(), reason).await,
                };
                (Op::Cancel(id, rexecutor::job::ErrorType::Cancelled, why), res(r, |_| Res::Ok))
            }
            10 => {
                // (a rerun allows one more attempt, which the typed view of a job could not show past 65535)
                let fin: Vec<BJob> = mine.iter().filter(|j| terminal(j.status) && j.max_attempts < 65_535).cloned().collect();
                if fin.is_empty() {
                    return;
                }
                let id = self.any_id(&fin);
                let r = match to {
                    To::Explicit(b) => E::rerun_job_on_backend(id.into(), b).await,
                    To::Dyn(b) => E::rerun_job_on_backend(id.into(), b).await,
                    To::Global => E::rerun_job(id.into()).await,
                };
                (Op::Rerun(id), res(r, |_| Res::Ok))
            }
            _ => {
                // update a job read through the typed API
                let target = self.rng.pick(&mine).clone();
                let jobs = match to {
                    To::Global => E::query_jobs(Where::id_equals(target.id.into())).await,
                    _ => E::query_jobs_on_backend(Where::id_equals(target.id.into()), self.backend).await,
                };
                let Ok(mut jobs) = jobs else {
                    self.bad.push((self.reads(), format!("query of job {} by id failed: {:?}", target.id, jobs.err())));
                    return;
                };
                if jobs.len() != 1 || to_b(&jobs[0]) != target {
                    let got: Vec<BJob> = jobs.iter().map(to_b).collect();
                    self.bad.push((self.reads(), format!("query by id returned {got:?} instead of {target:?}")));
                    return;
                }
                let mut job = jobs.pop().unwrap();
                if self.rng.pct(60) {
                    job.data = E::Data::sample(&mut self.rng);
                }
                if self.rng.pct(60) {
                    job.metadata = self.rng.pct(75).then(|| E::Metadata::sample(&mut self.rng));
                }
                if self.rng.pct(40) {
                    job.tags = self.tags();
                }
                if self.rng.pct(40) {
                    job.priority = self.rng.wide(&[0, 1, 9, u16::MAX]);
                }
                if self.rng.pct(40) {
                    job.max_attempts = self.rng.wide(&[0, 1, 9, u16::MAX]);
                }
                if self.rng.pct(40) {
                    job.scheduled_at = self.g.time(now, &self.rows);
                }
                if self.rng.pct(5) {
                    job.id = (-5).into();
                }
                let b = to_b(&job);
                let r = match to {
                    To::Explicit(x) => E::update_job_on_backend(job, x).await,
                    To::Dyn(x) => E::update_job_on_backend(job, x).await,
                    To::Global => E::update_job(job).await,
                };
                (Op::Update(b), res(r, |_| Res::Ok))
            }
        };
        self.check(op, r, now, E::NAME).await;
    }

    fn reads(&self) -> Vec<&'static str> {
        if self.pg { vec!["C23", "C26"] } else { vec!["C15", "C20"] }
    }

    fn any_id(&mut self, of: &[BJob]) -> i32 {
        if of.is_empty() || self.rng.pct(8) {
            return self.rng.range(-2, 3) as i32 * 1000 - 7;
        }
        self.rng.pick(of).id
    }

    fn tags(&mut self) -> Vec<String> {
        let mut t = self.g.tags();
        t.push(format!("run:{}", self.run));
        self.rng.shuffle(&mut t);
        t
    }

    pub async fn check(&mut self, op: Op, r: Res, now: T, name: &str) {
        self.log.push(format!("{now} {name}{}: {op:?} -> {}", if self.global { " (global)" } else { "" }, short(&r)));
        let after = match table(self.backend).await {
            Ok(t) => t,
            Err(e) => {
                self.bad.push((self.reads(), format!("query of all jobs failed: {e:?}")));
                return;
            }
        };
        let base: Vec<&'static str> = match &op {
            Op::Enqueue(n) if n.crit.is_some() && self.pg => vec!["C24", "C26"],
            Op::Query(_) if self.pg => vec!["C23", "C26"],
            _ if self.pg => vec!["C26"],
            Op::Enqueue(n) if n.crit.is_some() => vec!["C20", "C12"],
            Op::Enqueue(_) => vec!["C20"],
            Op::Query(_) => vec!["C15", "C20"],
            Op::Rerun(_) => vec!["C21", "C07"],
            _ => vec!["C21"],
        };
        let mut seen = vec![];
        for (p, what) in self.model.apply(&op, &r, Some(&after), now) {
            let mut t = base.clone();
            if !self.pg {
                t.push(p);
            }
            seen.push((t, what));
        }
        for (_, _, what) in self.model.compare(&after) {
            seen.push((base.clone(), format!("after {op:?}: {what}")));
        }
        for (mut t, what) in seen {
            if self.global {
                t.push("C22");
            }
            self.bad.push((t, format!("executor {name}: {what}")));
        }
        self.kinds.push(hash_of((crate::conf::op_name(&op), name.len(), matches!(&r, Res::Jobs(j) if !j.is_empty()))));
        self.rows = after;
    }

    async fn enqueue<E: Typed>(&mut self, to: To<'_, B>, now: T) -> (Op, Res) {
        let mut want = New {
            executor: E::NAME.into(),
            data: Value::Null,
            metadata: Value::Null,
            max_attempts: E::MAX_ATTEMPTS,
            scheduled_at: now,
            tags: vec![],
            priority: 0,
            crit: E::default_crit(),
        };
        let mut calls: Vec<Call<E::Data, E::Metadata>> = vec![];
        let r = &mut self.rng;
        for _ in 0..*r.pick(&[0, 1, 2, 4, 6, 9]) {
            calls.push(match r.below(9) {
                0 => Call::Meta(E::Metadata::sample(r)),
                1 => Call::Max(r.wide(&[0, 1, 2, 40, u16::MAX])),
                2 => Call::At(self.g.time(now, &self.rows)),
                3 => Call::In(TimeDelta::milliseconds(*r.pick(&[-3_600_000, -1, 0, 1, 1500, 7_200_000, 86_400_000 * 30]))),
                4 => Call::Tag(r.pick(&TAGS).to_string()),
                5 => Call::Tags(self.g.tags()),
                6 => Call::Priority(r.wide(&[0, 1, 2, 500, u16::MAX])),
                7 if r.pct(50) => Call::Unique({
                    let mut c = self.g.crit();
                    // values of this executor's types must not end up in another executor's job
                    c.executor |= c.replace.as_ref().is_some_and(|r| r.data || r.metadata);
                    c
                }),
                _ => Call::Meta(E::Metadata::sample(r)),
            });
        }
        let n_data = if self.rng.pct(70) { 1 } else { self.rng.below(3) };
        for _ in 0..n_data {
            let i = self.rng.below(calls.len() as u64 + 1) as usize;
            calls.insert(i, Call::Data(E::Data::sample(&mut self.rng)));
        }
        // the run's tag goes last, so that it survives
        calls.push(Call::Tag(format!("run:{}", self.run)));
        if self.rng.pct(25) {
            // from here on only other kinds of calls
            calls.push(Call::Priority(*self.rng.pick(&[0, 3])));
        }
        for c in &calls {
            match c {
                Call::Data(d) => want.data = serde_json::to_value(d).unwrap(),
                Call::Meta(m) => want.metadata = serde_json::to_value(m).unwrap(),
                Call::Max(n) => want.max_attempts = *n,
                Call::At(t) => want.scheduled_at = *t,
                Call::In(d) => want.scheduled_at = now + *d,
                Call::Tag(t) => want.tags.push(t.clone()),
                Call::Tags(ts) => want.tags = ts.clone(),
                Call::Unique(c) => want.crit = Some(c.clone()),
                Call::Priority(p) => want.priority = *p,
            }
        }
        let mut it = calls.into_iter();
        let mut b = E::builder();
        let mut with = None;
        for c in it.by_ref() {
            if let Call::Data(d) = c {
                with = Some(b.with_data(d));
                b = E::builder();
                break;
            }
            b = call!(b, c, unreachable!());
        }
        let Some(mut b2) = with else {
            let r = E::plain(b, to).await;
            return match r {
                Some(r) => (Op::Enqueue(want), res(r, |id| Res::Id(id.into()))),
                // data is required: nothing to do
                None => (Op::Query(Q::And(vec![])), Res::Jobs(self.rows.clone())),
            };
        };
        for c in it {
            b2 = match c {
                Call::Data(d) => b2.with_data(d),
                c => call!(b2, c, unreachable!()),
            };
        }
        let r = match to {
            To::Explicit(x) => b2.enqueue_to_backend(x).await,
            To::Dyn(x) => b2.enqueue_to_backend(x).await,
            To::Global => b2.enqueue().await,
        };
        (Op::Enqueue(want), res(r, |id| Res::Id(id.into())))
    }

    fn typed_query<E: Typed>(&mut self, depth: u32, now: T, mine: &[BJob]) -> W<E::Data, E::Metadata> {
        if depth > 0 && self.rng.pct(65) {
            let n = self.rng.range(1, 3);
            return match self.rng.below(5) {
                0 => W::Not(Box::new(self.typed_query::<E>(depth - 1, now, mine))),
                k => {
                    let ws = (0..n).map(|_| self.typed_query::<E>(depth - 1, now, mine)).collect();
                    if k < 3 { W::And(ws) } else { W::Or(ws) }
                }
            };
        }
        let r = &mut self.rng;
        let some = r.pick(mine).clone();
        let pool: Vec<&'static str> = TAGS.to_vec();
        match r.below(10) {
            0 | 1 => W::Data(
                (r.pct(70).then(|| serde_json::from_value(some.data.clone()).ok()).flatten()).unwrap_or_else(|| E::Data::sample(r)),
            ),
            2 => W::Meta(
                (r.pct(70).then(|| serde_json::from_value(some.metadata.clone()).ok()).flatten())
                    .unwrap_or_else(|| E::Metadata::sample(r)),
            ),
            3 => {
                let all = &self.rows;
                W::Ids((0..r.below(4)).map(|_| r.pick(all).id.into()).collect())
            }
            4 => W::TagsAll(r.subset(&pool, 20)),
            5 => W::TagsAny(r.subset(&pool, 30)),
            6 => W::OlderThan(now - some.scheduled_at + TimeDelta::microseconds(r.range(-1, 1))),
            7 => W::WithinLast(now - some.scheduled_at + TimeDelta::microseconds(r.range(-1, 1))),
            8 => W::Leaf(match r.below(3) {
                0 => Q::Id(some.id),
                1 => Q::Id(r.pick(&self.rows).id),
                _ => Q::Status(if r.pct(50) { some.status } else { *r.pick(&JobStatus::ALL) }),
            }),
            _ => {
                let t = some.scheduled_at + TimeDelta::microseconds(r.range(-1, 1));
                W::Leaf(match r.below(3) {
                    0 => Q::Before(t),
                    1 => Q::After(t),
                    _ => Q::At(t),
                })
            }
        }
    }
}

fn short(r: &Res) -> String {
    match r {
        Res::Jobs(js) => format!("{} jobs", js.len()),
        r => format!("{r:?}"),
    }
}

/// Compares what the executors received with the table the jobs were in before they ran.
pub fn executions(before: &Model, registered: &[&str], run: &Run, until: T, bad: &mut Vec<(Vec<&'static str>, String)>) -> u64 {
    let events = run.log.events.lock().unwrap();
    let mut seen: BTreeMap<i32, usize> = BTreeMap::new();
    for e in events.iter() {
        let crate::exec::Ev::Typed { name, job } = &e.ev else { continue };
        *seen.entry(job.id).or_default() += 1;
        let Some(want) = before.get(job.id) else {
            bad.push((vec!["C20", "C01"], format!("executor {name} ran job {}, which does not exist", job.id)));
            continue;
        };
        if want.executor != *name {
            bad.push((vec!["C20"], format!("executor {name} ran job {} of executor {}", job.id, want.executor)));
        }
        let mut want = want.clone();
        // what claiming a job changes
        want.status = JobStatus::Executing;
        want.attempt += 1;
        want.attempted_at = job.attempted_at;
        let d = diff(job, &want, TimeDelta::zero());
        if !d.is_empty() {
            bad.push((vec!["C20"], format!("executor {name} received another job than was enqueued: {}", show(job, &want, &d))));
        }
    }
    for row in before.rows.values() {
        let j = &row.job;
        let due = registered.contains(&j.executor.as_str()) && waiting(j.status) && j.scheduled_at <= until;
        let n = seen.get(&j.id).copied().unwrap_or(0);
        if due != (n == 1) {
            let p = if n > 1 || !due { vec!["C20", "C01"] } else { vec!["C20", "C02"] };
            bad.push((p, format!("job {} of {} (scheduled {}, {:?}) was executed {n} times", j.id, j.executor, j.scheduled_at, j.status)));
        }
    }
    seen.len() as u64
}

pub fn case(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = crate::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let run = Run::new();
    let mut kinds = vec![];
    let mut log = vec![];
    let bad = crate::vclock::run_virtual(base, async {
        let b = InMemoryBackend::new();
        let mut types: Vec<u64> = (0..N_TYPED).collect();
        rng.shuffle(&mut types);
        types.truncate(rng.range(1, 4) as usize);
        let mut w = World::new(&b, false, rng.fork(), run.id);
        for _ in 0..rng.range(5, 40) {
            if rng.pct(30) {
                tokio::time::advance(Duration::from_millis(*rng.pick(&[1, 999, 60_000, 3_600_000]))).await;
            }
            let t = *rng.pick(&types);
            with_typed!(t, E => w.step::<E>().await);
            if !w.bad.is_empty() {
                break;
            }
        }
        if w.bad.is_empty() {
            // run them
            let registered: Vec<u64> = rng.subset(&types, 80);
            let mut rex = Rexecutor::new(b.clone());
            let mut names = vec![];
            for t in &registered {
                with_typed!(*t, E => {
                    rex = rex.with_executor::<E>();
                    names.push(E::NAME);
                });
            }
            let wait = *rng.pick(&[0, 5, 3_600, 90_000]);
            tokio::time::sleep(Duration::from_secs(wait)).await;
            tokio::time::sleep(Duration::from_millis(200)).await;
            let until = Utc::now() - TimeDelta::milliseconds(200);
            // a job whose time lies in the last moments may or may not have started
            let edge = w.model.rows.values().any(|r| {
                let d = (r.job.scheduled_at - until).num_milliseconds();
                (-1_500..=400).contains(&d)
            });
            if !edge {
                let n = executions(&w.model, &names, &run, until, &mut w.bad);
                obs.count("typed_executions_compared", n);
            }
            rex.graceful_shutdown();
        }
        obs.count("typed_operations", w.log.len() as u64);
        kinds = w.kinds.clone();
        log = w.log.iter().rev().take(8).rev().cloned().collect();
        w.bad
    });
    obs.evaluations += 1;
    if kinds.len() > 3 {
        obs.distinct.insert(hash_of(&kinds));
    }
    for (props, what) in bad {
        obs.violate(&props, what, json!({"workload": "typed:typed", "case_seed": seed, "tail": log}));
    }
    obs.sample(json!({"workload": "typed:typed", "case_seed": seed, "operations": log}));
}
