//! A recording, fault-injecting backend wrapper, one per Rexecutor instance.
use crate::exec::{BJob, Ev, RunLog};
use async_trait::async_trait;
use chrono::{DateTime, Utc};
use futures::{Stream, StreamExt};
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Query};
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::JobId;
use rexecutor::pruner::PruneSpec;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

/// Decides whether the n-th call of an operation fails: (operation, count so far) -> fail.
pub type Faults = Arc<dyn Fn(&'static str, u64) -> bool + Send + Sync>;

#[derive(Clone)]
pub struct Rec<B> {
    pub inner: B,
    pub inst: usize,
    pub log: Arc<RunLog>,
    pub faults: Option<Faults>,
    counts: Arc<Mutex<std::collections::HashMap<&'static str, u64>>>,
}

impl<B> Rec<B> {
    pub fn new(inner: B, inst: usize, log: Arc<RunLog>) -> Self {
        Self { inner, inst, log, faults: None, counts: Default::default() }
    }
    pub fn with_faults(mut self, f: Faults) -> Self {
        self.faults = Some(f);
        self
    }
    fn fails(&self, what: &'static str) -> bool {
        let Some(f) = &self.faults else { return false };
        let mut c = self.counts.lock().unwrap();
        let e = c.entry(what).or_default();
        *e += 1;
        f(what, *e)
    }
    fn call<T>(&self, what: &'static str, id: Option<i32>, r: &Result<T, BackendError>) {
        self.log.push(Ev::Call { inst: self.inst, what: what.to_owned(), id, ok: r.is_ok() });
    }
}

macro_rules! through {
    ($self:ident, $what:literal, $id:expr, $e:expr) => {{
        let id: i32 = $id.into();
        let r = if $self.fails($what) { Err(BackendError::BadState) } else { $e.await };
        $self.call($what, Some(id), &r);
        r
    }};
}

#[async_trait]
impl<B: Backend + Send + Sync + Clone + 'static> Backend for Rec<B> {
    async fn subscribe_ready_jobs(
        &self,
        executor_identifier: ExecutorIdentifier,
    ) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        let inner = self.inner.subscribe_ready_jobs(executor_identifier).await;
        let this = self.clone();
        // Errors are injected in front of an item, never instead of one.
        let log = self.log.clone();
        let inner = inner.take_while(move |_| {
            // no further claims once the log is full, so that a runaway run ends
            let full = log.full();
            async move {
                if full {
                    futures::future::pending::<()>().await;
                }
                true
            }
        });
        Box::pin(inner.flat_map(move |item| {
            let mut out = Vec::with_capacity(2);
            if this.fails("stream") {
                this.log.push(Ev::StreamErr { inst: this.inst });
                out.push(Err(BackendError::BadState));
            }
            if let Ok(job) = &item {
                this.log.push(Ev::Claim { inst: this.inst, job: job.clone() });
            }
            out.push(item);
            futures::stream::iter(out)
        }))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        let (executor, data, metadata, max_attempts, scheduled_at, tags, priority) = (
            job.executor.clone(),
            job.data.clone(),
            job.metadata.clone(),
            job.max_attempts,
            job.scheduled_at,
            job.tags.clone(),
            job.priority,
        );
        let key = job.uniqueness_criteria.as_ref().and_then(|c| c.key);
        let r = if self.fails("enqueue") { Err(BackendError::BadState) } else { self.inner.enqueue(job).await };
        self.call("enqueue", r.as_ref().ok().map(|id| i32::from(*id)), &r);
        {
            let id = r.as_ref().map_or(-1, |id| i32::from(*id));
            let mut j = crate::model::new_job(id, Utc::now());
            j.executor = executor;
            j.data = data;
            j.metadata = metadata;
            j.max_attempts = max_attempts as i32;
            j.scheduled_at = scheduled_at;
            j.tags = tags;
            j.priority = priority as i32;
            self.log.push(Ev::Called { inst: self.inst, job: j, key, ok: r.is_ok() });
        }
        r
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        through!(self, "mark_job_complete", id, self.inner.mark_job_complete(id))
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: ExecutionError) -> Result<(), BackendError> {
        through!(self, "mark_job_retryable", id, self.inner.mark_job_retryable(id, at, e))
    }
    async fn mark_job_discarded(&self, id: JobId, e: ExecutionError) -> Result<(), BackendError> {
        through!(self, "mark_job_discarded", id, self.inner.mark_job_discarded(id, e))
    }
    async fn mark_job_cancelled(&self, id: JobId, e: ExecutionError) -> Result<(), BackendError> {
        through!(self, "mark_job_cancelled", id, self.inner.mark_job_cancelled(id, e))
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        through!(self, "mark_job_snoozed", id, self.inner.mark_job_snoozed(id, at))
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        let r = if self.fails("prune_jobs") { Err(BackendError::BadState) } else { self.inner.prune_jobs(spec).await };
        self.call("prune_jobs", None, &r);
        r
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        through!(self, "rerun_job", id, self.inner.rerun_job(id))
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        through!(self, "update_job", job.id, self.inner.update_job(job))
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        let r = if self.fails("query") { Err(BackendError::BadState) } else { self.inner.query(query).await };
        self.call("query", None, &r);
        r
    }
}
