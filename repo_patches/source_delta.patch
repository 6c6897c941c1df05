From eb31626e1bd2b2d3f80f1a1f59f6b8d6d8ed30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:22 +0000
Subject: [PATCH 01/19] fix: make unique enqueues on the in-memory backend
 atomic

Concurrent unique enqueues could both find no match and insert duplicates, and
the replacement wrote back a stale copy of the job, reverting e.g. a concurrent
claim (executing -> scheduled), so that the job ran twice.
---
 rexecutor/src/backend/memory.rs | 34 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index a432524..eee0655 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -226,18 +226,26 @@ impl InMemoryBackend {
         Ok(id.into())
     }
 
-    async fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
-        let matching_jobs = self.matching_jobs(&job)?;
-        if matching_jobs.is_empty() {
-            self.insert_new_job(job)
-        } else {
-            // TODO: what is the correct behaviour when there are multiple matching jobs
-            let mut matching_job = matching_jobs.into_iter().next().unwrap();
-            matching_job.replace(job);
-            let id = matching_job.id;
-            self.update_job(matching_job.job).await?;
-            Ok(id.into())
-        }
+    fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
+        // The lookup and the resulting insert or replacement need to happen under the same lock,
+        // otherwise concurrent enqueues could insert duplicates and stale copies of the job could
+        // overwrite changes made to it in the meantime.
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // TODO: what is the correct behaviour when there are multiple matching jobs
+        let index = match jobs.iter().position(|existing| job.matches(existing)) {
+            None => {
+                let id = self.id_counter.fetch_add(1, Ordering::SeqCst);
+                jobs.push(job.into_job(id));
+                jobs.len() - 1
+            }
+            Some(index) => {
+                jobs[index].replace(job);
+                index
+            }
+        };
+        let job = &jobs[index];
+        self.notify_subscribers(job.executor.as_str(), job.scheduled_at)?;
+        Ok(job.id.into())
     }
 }
 
@@ -383,7 +391,7 @@ impl Backend for InMemoryBackend {
     async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
         match job.uniqueness_criteria {
             None => self.insert_new_job(job),
-            Some(_) => self.insert_unique_job(job).await,
+            Some(_) => self.insert_unique_job(job),
         }
     }
     async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
-- 
2.43.0


From 65f88336423b0e23f5cc33eb316992f663138e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:01 +0000
Subject: [PATCH 02/19] fix: do not overwrite lifecycle state when updating a
 job in memory

Updating with a copy of the job taken before it was claimed put it back to
scheduled, so that it was executed twice. Update the same details as the
postgres backend does.
---
 rexecutor/src/backend/memory.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index eee0655..eef1fbb 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -506,7 +506,14 @@ impl Backend for InMemoryBackend {
         match jobs.iter_mut().find(|j| j.id == job.id) {
             None => Err(BackendError::JobNotFound(job.id.into())),
             Some(j) => {
-                j.job = job;
+                // Only the details of the job are updated, never its lifecycle: the provided job is a
+                // copy which could have been taken before the job was e.g. claimed or completed.
+                j.data = job.data;
+                j.metadata = job.metadata;
+                j.max_attempts = job.max_attempts;
+                j.scheduled_at = job.scheduled_at;
+                j.priority = job.priority;
+                j.tags = job.tags;
                 self.notify_subscribers(j.executor.as_str(), j.scheduled_at)?;
                 Ok(())
             }
-- 
2.43.0


From 9a4ff40266a593ecf48e8f7b257fd9b0dbd2674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:13 +0000
Subject: [PATCH 03/19] fix: compare with jobs of any key when the uniqueness
 criteria has no key

As documented for UniquenessCriteria::key (and done by the postgres backend);
the in-memory backend only considered jobs that had been enqueued without key.
---
 rexecutor/src/backend/queryable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 8bdd44a..a9f46d8 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -52,7 +52,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
         match self.uniqueness_criteria {
             None => false,
             Some(ref uniqueness_criteria @ UniquenessCriteria { duration: None, .. }) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
             }
@@ -62,7 +62,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                     ..
                 },
             ) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
                     && (job.scheduled_at - Utc::now()).abs() < duration
-- 
2.43.0


From 7c2f737da756fff070ffd5ff87bf66588edbbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:25 +0000
Subject: [PATCH 04/19] fix: keep the newest jobs when pruning the in-memory
 backend by length

It removed the first `length` jobs instead of keeping `length` jobs.
---
 rexecutor/src/backend/memory.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index eef1fbb..6b2523f 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -4,7 +4,7 @@
 //!
 //! It is not optimized instead is designed to be a correct implementation for use in a test setup.
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     ops::Sub,
     pin::Pin,
     sync::{
@@ -466,6 +466,11 @@ impl Backend for InMemoryBackend {
     async fn prune_jobs(&self, prune_spec: &PruneSpec) -> Result<(), BackendError> {
         let now = Utc::now();
         let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // Finished jobs are in the past and those waiting to be executed in the future.
+        let in_past = match prune_spec.status {
+            JobStatus::Scheduled | JobStatus::Retryable | JobStatus::Executing => false,
+            JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded => true,
+        };
         match prune_spec.prune_by {
             PruneBy::MaxAge(delta) => {
                 let min_scheduled_at = now - delta;
@@ -477,15 +482,21 @@ impl Backend for InMemoryBackend {
                 });
             }
             PruneBy::MaxLength(length) => {
-                let mut count = 0;
-                jobs.retain(|job| {
-                    if prune_spec.matches(job) {
-                        count += 1;
-                        count > length
-                    } else {
-                        true
-                    }
-                });
+                let mut candidates: Vec<_> = jobs
+                    .iter()
+                    .filter(|job| prune_spec.matches(job))
+                    .map(|job| (job.scheduled_at, job.id))
+                    .collect();
+                candidates.sort_unstable();
+                if in_past {
+                    candidates.reverse();
+                }
+                let pruned: HashSet<_> = candidates
+                    .into_iter()
+                    .skip(length as usize)
+                    .map(|(_, id)| id)
+                    .collect();
+                jobs.retain(|job| !pruned.contains(&job.id));
             }
         };
         Ok(())
-- 
2.43.0


From b8c7fbc12eac93d403d086722027ea7394603f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 05/19] fix: prune finished in-memory jobs by age only when
 they are old

A finished job scheduled for the future (e.g. cancelled before it ran) was
removed as too old.
---
 rexecutor/src/backend/memory.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 6b2523f..66ec66f 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -476,9 +476,12 @@ impl Backend for InMemoryBackend {
                 let min_scheduled_at = now - delta;
                 let max_scheduled_at = now + delta;
                 jobs.retain(|job| {
-                    !prune_spec.matches(job)
-                        || (job.scheduled_at < max_scheduled_at
-                            && job.scheduled_at > min_scheduled_at)
+                    let expired = if in_past {
+                        job.scheduled_at < min_scheduled_at
+                    } else {
+                        job.scheduled_at > max_scheduled_at
+                    };
+                    !(prune_spec.matches(job) && expired)
                 });
             }
             PruneBy::MaxLength(length) => {
-- 
2.43.0


From b9959048196e0b4a38c3fa84b5e467a67e84a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 06/19] fix: discard jobs which are past their max attempts

With max_attempts of zero, or lowered below the current attempt, a failing job
was retried for ever.
---
 rexecutor/src/job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 7829447..1286e2e 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -138,7 +138,7 @@ where
 
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
-        self.attempt == self.max_attempts
+        self.attempt >= self.max_attempts
     }
 }
 
-- 
2.43.0


From 9c6ea877d9a2cc12263773cf189fbd3970dfbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:00 +0000
Subject: [PATCH 07/19] fix: respect the pruner's max concurrency

All prunes were started at once; only the logging of errors was limited.
---
 rexecutor/src/pruner/runner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index 0050e00..d864402 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -1,7 +1,7 @@
 use std::{ops::Sub, time::Duration};
 
 use chrono::{TimeDelta, Utc};
-use futures::{StreamExt, stream::FuturesOrdered};
+use futures::{StreamExt, stream};
 use tokio_util::sync::CancellationToken;
 
 use crate::backend::Backend;
@@ -54,14 +54,11 @@ where
     }
 
     async fn prune(&self) {
-        self.config
-            .pruners
-            .iter()
-            .map(|prune_spec| self.backend.prune_jobs(prune_spec))
-            .collect::<FuturesOrdered<_>>()
-            .filter_map(|res| async { res.err() })
-            .for_each_concurrent(self.config.max_concurrency, |err| async move {
-                tracing::error!(?err, "Failed to clean up jobs with error {err}")
+        stream::iter(&self.config.pruners)
+            .for_each_concurrent(self.config.max_concurrency, |prune_spec| async move {
+                if let Err(err) = self.backend.prune_jobs(prune_spec).await {
+                    tracing::error!(?err, "Failed to clean up jobs with error {err}")
+                }
             })
             .await;
     }
-- 
2.43.0


From 5d3667c6cfafceccc6eb35c65bd0a4099e5c5901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:05 +0000
Subject: [PATCH 08/19] fix: saturate backoff delays instead of overflowing

Large attempts, factors, powers or bases panicked (or wrapped around in release
builds), which also ended the job runner of the executor.
---
 rexecutor/src/backoff.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 22fd077..e6d2c3b 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -110,7 +110,7 @@ impl Strategy for Exponential {
         if let Some(max) = self.max {
             seconds = seconds.min(max.num_seconds());
         }
-        TimeDelta::seconds(seconds)
+        TimeDelta::try_seconds(seconds).unwrap_or(TimeDelta::MAX)
     }
 }
 
@@ -143,7 +143,7 @@ pub struct Linear {
 
 impl Strategy for Linear {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * attempt.into();
+        let mut backoff = saturating_mul(self.factor, attempt.into());
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -183,7 +183,8 @@ pub struct Polynomial {
 
 impl Strategy for Polynomial {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * (attempt as i32).pow(self.power);
+        let mut backoff =
+            saturating_mul(self.factor, i64::from(attempt).saturating_pow(self.power));
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -205,9 +206,10 @@ impl Jitter {
         let milliseconds = match self {
             Self::Absolute(delta) => delta.num_milliseconds(),
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
-        };
+        }
+        .saturating_abs();
         let rand_jitter_seconds = rand::rng().random_range(-milliseconds..=milliseconds);
-        value + TimeDelta::milliseconds(rand_jitter_seconds)
+        saturating_add(value, TimeDelta::milliseconds(rand_jitter_seconds))
     }
 }
 
@@ -424,7 +426,7 @@ where
         let mut backoff = self.strategy.backoff(attempt);
 
         if let Some(additional_offset) = self.additional_offset {
-            backoff += additional_offset;
+            backoff = saturating_add(backoff, additional_offset);
         }
 
         if let Some(jitter) = self.jitter {
@@ -435,6 +437,28 @@ where
     }
 }
 
+fn saturating_add(lhs: TimeDelta, rhs: TimeDelta) -> TimeDelta {
+    lhs.checked_add(&rhs).unwrap_or(if rhs < TimeDelta::zero() {
+        TimeDelta::MIN
+    } else {
+        TimeDelta::MAX
+    })
+}
+
+fn saturating_mul(delta: TimeDelta, factor: i64) -> TimeDelta {
+    const NANOS_PER_SEC: i128 = 1_000_000_000;
+    let nanos = i128::from(delta.num_seconds()) * NANOS_PER_SEC + i128::from(delta.subsec_nanos());
+    let nanos = nanos.saturating_mul(factor.into());
+    i64::try_from(nanos.div_euclid(NANOS_PER_SEC))
+        .ok()
+        .and_then(|secs| TimeDelta::new(secs, nanos.rem_euclid(NANOS_PER_SEC) as u32))
+        .unwrap_or(if nanos < 0 {
+            TimeDelta::MIN
+        } else {
+            TimeDelta::MAX
+        })
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 9c1010a1b186027d7535b0e130f3a3c19708765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 09/19] fix: do not end the job runner when a delay is out of
 range

Snoozing or backing off beyond the range of DateTime panicked in the runner
itself, so that no further job of the executor was ran or recorded.
---
 rexecutor/src/job/runner.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index d22508e..b2d6af1 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,6 +1,6 @@
 use std::{marker::PhantomData, time::Duration};
 
-use chrono::{TimeDelta, Utc};
+use chrono::{DateTime, TimeDelta, Utc};
 use futures::StreamExt;
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
@@ -176,7 +176,7 @@ where
     }
 
     async fn handle_job_snoozed(&self, job_id: JobId, delay: TimeDelta) {
-        let next_scheduled_at = Utc::now() + delay;
+        let next_scheduled_at = next_scheduled_at(delay);
         tracing::info!(%job_id, "Job {job_id} snoozed until {next_scheduled_at}");
         let _ = self
             .backend
@@ -245,7 +245,7 @@ where
                     )
                 });
         } else {
-            let next_scheduled_at = Utc::now() + delay;
+            let next_scheduled_at = next_scheduled_at(delay);
             tracing::warn!(
                 %job_id,
                 ?error,
@@ -255,7 +255,7 @@ where
             );
             let _ = self
                 .backend
-                .mark_job_retryable(job_id, Utc::now() + delay, error)
+                .mark_job_retryable(job_id, next_scheduled_at, error)
                 .await
                 .inspect_err(|err| {
                     tracing::error!(
@@ -268,6 +268,17 @@ where
     }
 }
 
+/// The instant after the given delay, saturating when it is out of range.
+fn next_scheduled_at(delay: TimeDelta) -> DateTime<Utc> {
+    Utc::now()
+        .checked_add_signed(delay)
+        .unwrap_or(if delay < TimeDelta::zero() {
+            DateTime::<Utc>::MIN_UTC
+        } else {
+            DateTime::<Utc>::MAX_UTC
+        })
+}
+
 impl From<JoinError> for crate::backend::ExecutionError {
     fn from(value: JoinError) -> Self {
         let msg = value.to_string();
-- 
2.43.0


From cfce0c53c9c460070876891593261fa5c09193e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:29 +0000
Subject: [PATCH 10/19] fix: do not panic on jobs whose stored counters exceed
 u16

Rerunning a job with max_attempts of 65535 made every later attempt to load it
panic, which ended the job runner of its executor.
---
 rexecutor/src/job.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 1286e2e..0643e78 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -121,10 +121,10 @@ where
             executor: value.executor,
             data,
             metadata,
-            attempt: value.attempt.try_into().unwrap(),
+            attempt: saturating_u16(value.attempt),
             attempted_at: value.attempted_at,
-            max_attempts: value.max_attempts.try_into().unwrap(),
-            priority: value.priority.try_into().unwrap(),
+            max_attempts: saturating_u16(value.max_attempts),
+            priority: saturating_u16(value.priority),
             tags: value.tags,
             errors: value.errors,
             inserted_at: value.inserted_at,
@@ -136,6 +136,12 @@ where
     }
 }
 
+/// The backends store these values as `i32`, e.g. rerunning a job can take its `max_attempts` past
+/// [`u16::MAX`].
+fn saturating_u16(value: i32) -> u16 {
+    value.clamp(0, u16::MAX.into()) as u16
+}
+
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
         self.attempt >= self.max_attempts
-- 
2.43.0


From dbe48313597203757021f437cc081b6d74415f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:56 +0000
Subject: [PATCH 11/19] fix: parenthesise nested queries of the postgres
 backend

NOT and AND bind tighter than OR, so that e.g. an executor's query for a or b
also returned other executors' jobs. Empty conjunctions and disjunctions led to
invalid SQL.
---
 rexecutor-sqlx/src/query.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 8a8abef..65d9daa 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -89,25 +89,34 @@ impl ToQuery for Query<'_> {
 fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'_>) {
     match query {
         Query::Not(inner) => {
-            builder.push(" NOT");
+            builder.push(" NOT (");
             handle_query(builder, inner);
+            builder.push(")");
         }
         Query::And(queries) => {
             if let Some((last, elements)) = &queries[..].split_last() {
+                builder.push(" (");
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" AND");
                 });
                 handle_query(builder, last);
+                builder.push(")");
+            } else {
+                builder.push(" TRUE");
             }
         }
         Query::Or(queries) => {
             if let Some((last, elements)) = &queries[..].split_last() {
+                builder.push(" (");
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" OR");
                 });
                 handle_query(builder, last);
+                builder.push(")");
+            } else {
+                builder.push(" FALSE");
             }
         }
         Query::DataEquals(data) => {
-- 
2.43.0


From cbf6150e1f5304f48e4c9ab8ae9870ee6cdb9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:06 +0000
Subject: [PATCH 12/19] fix: query for any of the given ids in the postgres
 backend

`id = ALL(..)` only matched when all the given ids were the same.
---
 rexecutor-sqlx/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 65d9daa..6c7d73a 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -140,7 +140,7 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
                 .iter()
                 .map(|job_id| Into::<i32>::into(*job_id))
                 .collect();
-            builder.push(" id = All(");
+            builder.push(" id = ANY(");
             builder.push_bind(ids);
             builder.push(")");
         }
-- 
2.43.0


From d658f5fe0d5d201dc4e23c523a570d90ab40aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:26 +0000
Subject: [PATCH 13/19] fix: store the uniqueness key that is looked up in the
 postgres backend

The lookup compares with the key of the criteria while the hash used for the
advisory lock was stored, so that jobs enqueued by key were never considered
duplicates.
---
 rexecutor-sqlx/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 34e50a7..a7a0f69 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -218,7 +218,7 @@ impl RexecutorPgBackend {
                     job.scheduled_at,
                     job.priority as i32,
                     &job.tags,
-                    unique_identifier,
+                    uniqueness_criteria.key,
                 )
                 .fetch_one(&mut *tx)
                 .await?;
-- 
2.43.0


From d700fbb6ddae9475fc1990bea532e9fbf07ad4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:47 +0000
Subject: [PATCH 14/19] fix: do not enqueue cron jobs or prune once shutdown
 was requested

---
 rexecutor/src/cron_runner.rs   | 9 +++++----
 rexecutor/src/pruner/runner.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 25ef308..42723a6 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -56,6 +56,11 @@ where
                         .to_std()
                         .unwrap_or(Duration::ZERO);
                     tokio::select! {
+                        biased;
+                        _ = cancellation_token.cancelled() => {
+                            tracing::debug!("Shutting down cron scheduler for {}", E::NAME);
+                            break;
+                        },
                         _ = tokio::time::sleep(delay) => {
                             self.enqueue_job(next).await;
                             let delay = next - Utc::now();
@@ -63,10 +68,6 @@ where
                                 tokio::time::sleep(delay.to_std().unwrap()).await;
                             }
                         },
-                        _ = cancellation_token.cancelled() => {
-                            tracing::debug!("Shutting down cron scheduler for {}", E::NAME);
-                            break;
-                        },
                     }
                 }
             }
diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index d864402..434de56 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -36,6 +36,11 @@ where
                         .to_std()
                         .unwrap_or(Duration::ZERO);
                     tokio::select! {
+                        biased;
+                        _ = cancellation_token.cancelled() => {
+                            tracing::debug!("Shutting down the job pruner");
+                            break;
+                        },
                         _ = tokio::time::sleep(delay) => {
                             self.prune().await;
                             let delay = next - Utc::now();
@@ -43,10 +48,6 @@ where
                                 tokio::time::sleep(delay.to_std().unwrap()).await;
                             }
                         }
-                        _ = cancellation_token.cancelled() => {
-                            tracing::debug!("Shutting down the job pruner");
-                            break;
-                        },
                     }
                 }
             }
-- 
2.43.0


From 246743d0b00d8005da03ca955be94950869fb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:38 +0000
Subject: [PATCH 15/19] fix: make assert_enqueued!(1 job, ..) fail when more
 than one job matches

---
 rexecutor/src/testing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/testing.rs b/rexecutor/src/testing.rs
index 7921b3a..c0581b9 100644
--- a/rexecutor/src/testing.rs
+++ b/rexecutor/src/testing.rs
@@ -143,13 +143,13 @@ macro_rules! assert_enqueued {
         assert_enqueued!(@global $n $($tail)*);
     };
     (to: $backend:ident, $($tail:tt)*) => {
-        assert_enqueued!(@internal 1 to: $backend, $($tail)*);
+        assert_enqueued!(@internal any to: $backend, $($tail)*);
     };
-    (@global $n:literal $($tail:tt)*) => {{
+    (@global $n:tt $($tail:tt)*) => {{
         let backend = $crate::global_backend::GlobalBackend::as_ref().expect("Global backend not set");
         assert_enqueued!(@internal $n to: backend, $($tail)*);
     }};
-    (@internal 1 to: $backend:ident, $($tail:tt)*) => {{
+    (@internal any to: $backend:ident, $($tail:tt)*) => {{
         use $crate::backend::Query;
         use $crate::backend::Backend;
         let mut queries = Vec::new();
@@ -241,7 +241,7 @@ macro_rules! assert_enqueued {
         $(assert_enqueued!(@query $vec; $($tail)*))?
     };
     ($($tail:tt)*) => {
-        assert_enqueued!(@global 1 $($tail)*);
+        assert_enqueued!(@global any $($tail)*);
     };
 }
 
-- 
2.43.0


From 09cb83979b6908a83f52a993bf43aef1b0df7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:16 +0000
Subject: [PATCH 16/19] fix: a unique enqueue whose replacement names no field
 no longer sends invalid SQL

The update had an empty SET list, so enqueuing failed with BadState instead of
returning the id of the conflicting job.
---
 rexecutor-sqlx/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index a7a0f69..064e4ad 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -230,11 +230,16 @@ impl RexecutorPgBackend {
                 let status = val.get::<JobStatus, _>(1);
                 match uniqueness_criteria.on_conflict {
                     Resolution::Replace(replace)
-                        if replace
-                            .for_statuses
-                            .iter()
-                            .map(|js| JobStatus::from(*js))
-                            .any(|js| js == status) =>
+                        if (replace.scheduled_at
+                            || replace.data
+                            || replace.metadata
+                            || replace.priority
+                            || replace.max_attempts)
+                            && replace
+                                .for_statuses
+                                .iter()
+                                .map(|js| JobStatus::from(*js))
+                                .any(|js| js == status) =>
                     {
                         let mut builder = QueryBuilder::new("UPDATE rexecutor_jobs SET ");
                         let mut seperated = builder.separated(", ");
-- 
2.43.0


From cdedd4ebafb2d5e235ab4595b8333e7aa2892634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:59 +0000
Subject: [PATCH 17/19] fix: keep listening for notifications after a lost
 connection or an unreadable payload

---
 rexecutor-sqlx/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 064e4ad..60cea36 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -25,6 +25,9 @@ mod stream;
 mod types;
 mod unique;
 
+/// How long to wait before trying to listen for notifications again after losing the connection.
+const LISTENER_RETRY_DELAY: std::time::Duration = std::time::Duration::from_secs(1);
+
 type Subscriber = mpsc::UnboundedSender<DateTime<Utc>>;
 
 /// A postgres implementation of a [`rexecutor::backend::Backend`].
@@ -80,9 +83,24 @@ impl RexecutorPgBackend {
         tokio::spawn({
             let subscribers = this.subscribers.clone();
             async move {
-                while let Ok(notification) = listener.recv().await {
+                loop {
+                    let notification = match listener.recv().await {
+                        Ok(notification) => notification,
+                        Err(sqlx::Error::PoolClosed) => break,
+                        Err(error) => {
+                            tracing::warn!(?error, "Lost the connection used for notifications");
+                            tokio::time::sleep(LISTENER_RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
                     let notification =
-                        serde_json::from_str::<Notification>(notification.payload()).unwrap();
+                        match serde_json::from_str::<Notification>(notification.payload()) {
+                            Ok(notification) => notification,
+                            Err(error) => {
+                                tracing::error!(?error, "Ignoring an unreadable notification");
+                                continue;
+                            }
+                        };
 
                     match subscribers
                         .read()
-- 
2.43.0


From adf3d6e8ce390e51fcbc2c90de20fd09d2863282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:45 +0000
Subject: [PATCH 18/19] fix: lock the job a unique enqueue conflicts with until
 its replacement is applied

---
 rexecutor-sqlx/src/unique.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/unique.rs b/rexecutor-sqlx/src/unique.rs
index a2022d4..83cf046 100644
--- a/rexecutor-sqlx/src/unique.rs
+++ b/rexecutor-sqlx/src/unique.rs
@@ -59,7 +59,8 @@ impl<'a> Unique for UniquenessCriteria<'a> {
         }
         // TODO: orderby closest to today
         // builder.push(" ORDER BY scheduled_at ")
-        builder.push(" LIMIT 1");
+        // The row is locked so that the job cannot change between this and its replacement.
+        builder.push(" LIMIT 1 FOR UPDATE");
 
         builder
     }
-- 
2.43.0


From 0406c42b9d808b3eda185a62facaf3362e1f4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:46 +0000
Subject: [PATCH 19/19] fix: give back a job claimed while its stream is
 dropped

---
 rexecutor-sqlx/src/stream.rs | 39 ++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/rexecutor-sqlx/src/stream.rs b/rexecutor-sqlx/src/stream.rs
index 5e1ee8e..f45e7ec 100644
--- a/rexecutor-sqlx/src/stream.rs
+++ b/rexecutor-sqlx/src/stream.rs
@@ -2,8 +2,9 @@ use std::ops::Sub;
 
 use chrono::{DateTime, Utc};
 use rexecutor::{backend::BackendError, executor::ExecutorIdentifier};
+use tokio::sync::oneshot;
 
-use crate::RexecutorPgBackend;
+use crate::{RexecutorPgBackend, types::Job};
 
 pub struct ReadyJobStream {
     pub(crate) backend: RexecutorPgBackend,
@@ -31,11 +32,7 @@ impl ReadyJobStream {
                 _ => Self::DEFAULT_DELAY,
             };
             if delay <= Self::DELTA
-                && let Some(job) = self
-                    .backend
-                    .load_job_mark_as_executing_for_executor(self.executor_identifier.as_str())
-                    .await
-                    .map_err(|_| BackendError::BadState)?
+                && let Some(job) = self.claim().await?
             {
                 return job.try_into();
             }
@@ -46,4 +43,34 @@ impl ReadyJobStream {
             }
         }
     }
+
+    /// Claims the next job in a task of its own, as the stream may be dropped (on shutdown) while
+    /// the statement is in flight. A claimed job which the stream no longer takes is given back.
+    async fn claim(&self) -> Result<Option<Job>, BackendError> {
+        let (sender, receiver) = oneshot::channel();
+        let backend = self.backend.clone();
+        let executor = self.executor_identifier.as_str();
+        tokio::spawn(async move {
+            let claimed = backend
+                .load_job_mark_as_executing_for_executor(executor)
+                .await;
+            let job = match &claimed {
+                Ok(Some(job)) => Some((job.id, job.scheduled_at)),
+                _ => None,
+            };
+            let (taken_sender, taken) = oneshot::channel();
+            let _ = sender.send((claimed, taken_sender));
+            if let (Some((id, scheduled_at)), Err(_)) = (job, taken.await) {
+                let _ = backend
+                    ._mark_job_snoozed(id.into(), scheduled_at)
+                    .await
+                    .inspect_err(|err| {
+                        tracing::error!(?err, id, "Failed to give back job {id}, error: {err:?}")
+                    });
+            }
+        });
+        let (claimed, taken) = receiver.await.map_err(|_| BackendError::BadState)?;
+        let _ = taken.send(());
+        claimed.map_err(|_| BackendError::BadState)
+    }
 }
-- 
2.43.0

