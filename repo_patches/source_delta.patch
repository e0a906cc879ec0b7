From 93d778063e95aff0456aa3969d9f0c0d64118044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 01/24] fix: call after_run, not before_run, after a job was
 executed

---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From 0129f07a05985afba42b6dd9d7a18a6fb911bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 02/24] fix: concurrent first submissions of a job type
 panicked the AJ actor

---
 aj_core/src/aj.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..2c31ef8 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -278,6 +278,10 @@ where
     type Result = Addr<WorkQueue<M>>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
+        // Several callers may ask for the queue before it is registered
+        if let Some(addr) = get_work_queue_address() {
+            return addr;
+        }
         self.register(&msg.queue_name)
     }
 }
-- 
2.43.0


From a4169573c3aff59111865787e0725bc21076fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 03/24] fix: a failing storage read was taken for a missing job

---
 aj_core/src/backend/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..37660fe 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
-- 
2.43.0


From ff4f03282a7a3d0114cb43b1e2eb06ea84bac19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 04/24] fix: a failing read of the running count lifted the
 concurrency limit

---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..faedf14 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -241,7 +241,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
-- 
2.43.0


From 15c863096d5a27fd97fdd247102c3f11625d3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:37 +0000
Subject: [PATCH 05/24] fix: a backend error while picking dropped the jobs
 picked before it

---
 aj_core/src/queue.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index faedf14..8d59836 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -251,11 +251,23 @@ where
 
     pub fn try_pick_specific_ready_jobs(&self, total: usize) -> Result<Vec<Job<M>>, Error> {
         debug!("Try Picking {total} jobs in queue");
+        let mut ready_jobs = vec![];
+        if let Err(err) = self.pick_ready_jobs(total, &mut ready_jobs) {
+            if ready_jobs.is_empty() {
+                return Err(err);
+            }
+            // The jobs picked so far are already marked as running, they must be executed.
+            error!("[WorkQueue] Stop picking jobs: {err:?}");
+        }
+
+        Ok(ready_jobs)
+    }
+
+    fn pick_ready_jobs(&self, total: usize, ready_jobs: &mut Vec<Job<M>>) -> Result<(), Error> {
         let idle_queue_name = self.format_queue_name(JobStatus::Queued);
         let processing_queue_name = self.format_queue_name(JobStatus::Running);
 
         let idle_queue_length = self.backend.queue_count(&idle_queue_name)?;
-        let mut ready_jobs = vec![];
         let mut current_cursor = idle_queue_length as i32;
 
         loop {
@@ -277,7 +289,6 @@ where
                     {
                         // Job is read to process. Put it in the ready list
                         job.process(self.backend.deref())?;
-                        ready_jobs.push(job);
                         self.backend.queue_move(
                             &idle_queue_name,
                             &processing_queue_name,
@@ -285,6 +296,7 @@ where
                             QueueDirection::Back,
                             QueueDirection::Front,
                         )?;
+                        ready_jobs.push(job);
                         continue;
                     }
                 }
@@ -308,7 +320,7 @@ where
             }
         }
 
-        Ok(ready_jobs)
+        Ok(())
     }
 
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
-- 
2.43.0


From 9cfc4f450a754e3ac2c70efe10f21e84cf42cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:07 +0000
Subject: [PATCH 06/24] fix: re-enqueueing lost the job if it was interrupted
 or the push failed

---
 aj_core/src/queue.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 8d59836..c64b879 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -151,13 +151,18 @@ where
     pub fn re_enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
         debug!("[WorkQueue] Re-run job {}", job.id());
 
+        // Push first: a job that is recorded as queued must be in the queue.
         let current_queue = self.format_queue_name(job.context.job_status);
-        self.backend.queue_remove(&current_queue, job.id())?;
+        let queued_queue = self.format_queue_name(JobStatus::Queued);
+        self.backend.queue_push(&queued_queue, job.id())?;
         job.enqueue(self.backend.deref())?;
 
-        let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
-            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
+        if let Err(e) = self.backend.queue_remove(&current_queue, job.id()) {
+            error!(
+                "[WorkQueue] Cannot remove {} in {current_queue}: {:?}",
+                job.id(),
+                e
+            );
         };
         Ok(())
     }
-- 
2.43.0


From a26f1c67593df78c0b170f336decdff96948c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:08 +0000
Subject: [PATCH 07/24] fix: a re-run whose push failed left the job queued but
 in no queue

---
 aj_core/src/queue.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c64b879..38aca43 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -116,6 +116,11 @@ where
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
         if let Some(existing_job) = existing_job {
+            if config.re_run && existing_job.is_done() {
+                info!("[WorkQueue] Re run job {}", existing_job.id());
+                return self.enqueue(job);
+            }
+
             if config.override_data && !existing_job.is_running() {
                 info!(
                     "[WorkQueue] Update exising job with new job data: {}",
@@ -129,11 +134,6 @@ where
                 );
             }
 
-            if config.re_run && existing_job.is_done() {
-                info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.enqueue(job)?;
-            }
-
             return Ok(());
         }
 
-- 
2.43.0


From 357274386ddb5ae7e49cc9627a9e1c985dd56f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:10 +0000
Subject: [PATCH 08/24] fix: a cancelled job still in the queue was executed

---
 aj_core/src/queue.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 38aca43..57ee105 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -286,6 +286,18 @@ where
             for job_id in job_ids {
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
+                    if job.is_done() {
+                        // Left behind by an interrupted cancel or re-run, must not be executed.
+                        self.backend.queue_move(
+                            &idle_queue_name,
+                            &self.format_queue_name(job.context.job_status),
+                            1,
+                            QueueDirection::Back,
+                            QueueDirection::Front,
+                        )?;
+                        continue;
+                    }
+
                     if job.is_ready()
                         && ready_jobs.len() < total
                         && !ready_jobs
-- 
2.43.0


From 44f58c4ab55341a87b8ffb2e3bf805457d52a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:12 +0000
Subject: [PATCH 09/24] fix: resubmitting after a failed submission executed
 the job twice

---
 aj_core/src/queue.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 57ee105..614300f 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -299,6 +299,7 @@ where
                     }
 
                     if job.is_ready()
+                        && !self.is_processing(&job)?
                         && ready_jobs.len() < total
                         && !ready_jobs
                             .iter()
@@ -340,6 +341,19 @@ where
         Ok(())
     }
 
+    /// Is this entry a duplicate (of an interrupted submission) of a job that is being executed?
+    fn is_processing(&self, job: &Job<M>) -> Result<bool, Error> {
+        if !job.is_running() {
+            return Ok(false);
+        }
+
+        let total = self
+            .backend
+            .queue_count(&self.format_queue_name(JobStatus::Running))?;
+        let processing_job_ids = self.get_processing_job_ids(total)?;
+        Ok(processing_job_ids.iter().any(|id| id == job.id()))
+    }
+
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
         let this = self.clone();
         let task = async move {
-- 
2.43.0


From c7fbb1ea199bf8a2f4b3026ec14a6efc4efed5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:30 +0000
Subject: [PATCH 10/24] fix: a retried cron job lost its schedule

---
 aj_core/src/queue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 614300f..a227c1d 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -383,7 +383,13 @@ where
         if let Some(retry_context) = job.context.retry.as_mut() {
             if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                 info!("[WorkQueue] Retry this job. {}", job.id());
-                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
+                job.context.job_type = match job.context.job_type {
+                    // Keep the cron schedule, it goes on after the retry
+                    JobType::Cron(expression, _, total_repeat, context) => {
+                        JobType::Cron(expression, next_retry_ms, total_repeat, context)
+                    }
+                    _ => JobType::ScheduledAt(next_retry_ms),
+                };
                 return self.re_enqueue(job);
             }
         }
-- 
2.43.0


From 4c6348aecb2cc92669262763b02d0175f4f6650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 11/24] fix: a cron job past its last instant was executed over
 and over

---
 aj_core/src/job/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..91adca1 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -187,14 +187,14 @@ where
                 }
 
                 let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
+                // No upcoming event: the schedule is over
+                let upcoming_event = schedule.after(&now).next()?;
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    *total_repeat + 1,
+                    context.clone(),
+                );
 
                 if let Some(max_repeat) = context.max_repeat {
                     if max_repeat < *total_repeat {
-- 
2.43.0


From d6f5d2f3fab07d92e5093db15676a809ff176fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 12/24] fix: a cron job that reached its limits stayed queued
 for ever

---
 aj_core/src/job/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index 91adca1..1e1d05f 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -197,13 +197,13 @@ where
                 );
 
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat <= *total_repeat {
                         return None;
                     }
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
-- 
2.43.0


From 947e40e08235eb8e130528b53583ec7ec93e4355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:56 +0000
Subject: [PATCH 13/24] fix: an update could overwrite what happened to the job
 since it was read

---
 aj_core/src/aj.rs    | 23 +++++++++++++----------
 aj_core/src/queue.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 2c31ef8..4609f4a 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -10,7 +10,7 @@ use std::sync::{Arc, RwLock};
 
 use crate::job::Job;
 use crate::mem::InMemory;
-use crate::queue::{cancel_job, enqueue_job, WorkQueue};
+use crate::queue::{cancel_job, enqueue_job, UpdateJob, WorkQueue};
 use crate::types::Backend;
 use crate::{
     get_job, retry_job, update_work_queue_config, BackgroundJob, EnqueueConfig, Error, Executable,
@@ -200,18 +200,21 @@ impl AJ {
             + 'static,
         WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
     {
-        let job = Self::get_job::<M>(job_id).await;
-        if let Some(mut job) = job {
-            job.data = data;
-            if let Some(context) = context {
-                job.context = context;
-            }
-            Self::add_job(job, M::queue_name()).await?;
+        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
+        if let Some(queue_addr) = addr {
+            // One message: the job must not change between reading and writing it
+            let job_id = job_id.to_string();
+            queue_addr
+                .send(UpdateJob {
+                    job_id,
+                    data,
+                    context,
+                })
+                .await?
         } else {
             warn!("Cannot update non existing job {job_id}");
+            Ok(())
         }
-
-        Ok(())
     }
 
     pub async fn retry_job<M>(job_id: &str) -> Result<bool, Error>
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index a227c1d..bb651db 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
 use crate::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
-use crate::{Error, Executable, JobType};
+use crate::{Error, Executable, JobContext, JobType};
 
 const DEFAULT_TICK_DURATION: Duration = Duration::from_millis(100);
 const MAX_PROCESSING_JOBS: usize = 20;
@@ -426,6 +426,24 @@ where
         Ok(job)
     }
 
+    pub fn update_job(
+        &self,
+        job_id: &str,
+        data: M,
+        context: Option<JobContext>,
+    ) -> Result<(), Error> {
+        if let Some(mut job) = self.get_job(job_id)? {
+            job.data = data;
+            if let Some(context) = context {
+                job.context = context;
+            }
+            self.run_with_config(job, EnqueueConfig::new_re_run())
+        } else {
+            warn!("Cannot update non existing job {job_id}");
+            Ok(())
+        }
+    }
+
     pub fn retry_job(&self, job_id: &str) -> Result<bool, Error> {
         let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
 
@@ -541,6 +559,27 @@ where
     addr.send::<GetJob<M>>(msg).await.ok().flatten()
 }
 
+#[derive(Message, Debug)]
+#[rtype(result = "Result<(), Error>")]
+pub struct UpdateJob<M: Executable + Clone + Send + Sync + 'static> {
+    pub job_id: String,
+    pub data: M,
+    pub context: Option<JobContext>,
+}
+
+impl<M> Handler<UpdateJob<M>> for WorkQueue<M>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+
+    Self: Actor<Context = Context<Self>>,
+{
+    type Result = Result<(), Error>;
+
+    fn handle(&mut self, msg: UpdateJob<M>, _: &mut Self::Context) -> Self::Result {
+        self.update_job(&msg.job_id, msg.data, msg.context)
+    }
+}
+
 #[derive(Message, Debug)]
 #[rtype(result = "Result<bool, Error>")]
 pub struct RetryJob<M>
-- 
2.43.0


From 0732e0bee574148c5f552515ea16f73f395fd474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:57 +0000
Subject: [PATCH 14/24] fix: exponential backoff overflowed after 31 retries

---
 aj_core/src/job/retry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..9d8dc91 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -60,7 +60,7 @@ impl Retry {
         match &self.strategy {
             RetryStrategy::Interval(internal_time) => final_now + *internal_time,
             RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
+                final_now + *initial_backoff * 2_i32.saturating_pow(self.retried_times as u32)
             }
         }
     }
-- 
2.43.0


From 043587b0a53f19529111c8079bbef25927dc3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:26 +0000
Subject: [PATCH 15/24] fix: a panicking job took its whole queue down

---
 aj_core/src/queue.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index bb651db..44b8199 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -3,9 +3,12 @@ use actix::*;
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::fmt::Debug;
+use std::future::{poll_fn, Future};
 use std::marker::PhantomData;
 use std::ops::Deref;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
+use std::task::Poll;
 use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
@@ -354,13 +357,30 @@ where
         Ok(processing_job_ids.iter().any(|id| id == job.id()))
     }
 
-    pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
+    pub fn execute_job_task(&self, mut job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            if let Err(err) = this.execute_job(job.clone()).await {
-                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
-                let _ = this.mark_job_is_failed(job);
+            let mut execution = Box::pin(this.execute_job(job.clone()));
+            // A panic in the job must not take the whole queue down
+            let result = poll_fn(|cx| {
+                match catch_unwind(AssertUnwindSafe(|| execution.as_mut().poll(cx))) {
+                    Ok(poll) => poll.map(Ok),
+                    Err(panic) => Poll::Ready(Err(panic)),
+                }
+            })
+            .await;
+            match result {
+                Ok(Ok(())) => {}
+                Ok(Err(err)) => {
+                    error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
+                Err(_) => {
+                    error!("[WorkQueue] Job {} panicked", job.id());
+                    job.context.run_count += 1;
+                    let _ = this.mark_job_is_failed(job);
+                }
             }
         };
         wrap_future::<_, Self>(task).spawn(ctx);
-- 
2.43.0


From 04dcdfa980d8470ff1063686feef699d704dd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:27 +0000
Subject: [PATCH 16/24] fix: reading zero items of a Redis queue returned all
 of them

---
 aj_core/src/backend/redis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..ad40f69 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -57,6 +57,11 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        if count == 0 {
+            // LRANGE 0 -1 is the whole list
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From 1a4ad4a6ef4104f3fc8856408f76298f27bca85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:06 +0000
Subject: [PATCH 17/24] fix: concurrent starts could yield several AJ engines
 or none

---
 aj_core/src/aj.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 4609f4a..fd889ab 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -47,10 +47,10 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
-        addr.clone()
-    } else {
-        None
+    // Wait for a start in progress
+    match AJ_ADDR.read() {
+        Ok(addr) => addr.clone(),
+        Err(_) => None,
     }
 }
 
@@ -65,42 +65,39 @@ impl Actor for AJ {
 impl AJ {
     // Will use memory as Backend for AJ
     pub fn start(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
-        if let Some(aj_addr) = get_aj_address() {
+        // Locked until the address is registered: concurrent starts yield one AJ
+        let mut current = AJ_ADDR.write().expect("AJ address lock is poisoned");
+        if let Some(aj_addr) = current.as_ref() {
             warn!("AJ is running. Return current AJ");
-            return aj_addr;
+            return aj_addr.clone();
         }
 
-        match System::try_current() {
+        let addr = match System::try_current() {
             Some(_) => {
                 info!("Found Actix Runtime, re-use it!");
-                Self::register_addr(backend);
+                Self::start_in_new_arbiter(backend)
             }
             None => {
                 info!("No Actix Runtime, trying start new one in separated thread!");
                 std::thread::spawn(|| {
                     // Start the Actix runtime within this new thread
                     let _ = System::new();
-                    Self::register_addr(backend);
+                    Self::start_in_new_arbiter(backend)
                 })
                 .join()
-                .expect("Failed to start thread");
+                .expect("Failed to start thread")
             }
-        }
+        };
 
-        get_aj_address().expect("AJ address must be registered!")
+        *current = Some(addr.clone());
+        addr
     }
 
-    fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
+    fn start_in_new_arbiter(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
         let arbiter: Arbiter = Arbiter::new();
-        let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
+        <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
-        });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
-
-        addr
+        })
     }
 
     pub fn quick_start() -> Addr<Self> {
-- 
2.43.0


From 565daa4dc3d83987ef7bcc2d52374bd84f9b365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:58 +0000
Subject: [PATCH 18/24] fix: a completed job submitted with skip-if-finished
 was recorded as queued but not queued

---
 aj_core/src/queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 44b8199..c6223ba 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -129,6 +129,11 @@ where
                     "[WorkQueue] Update exising job with new job data: {}",
                     job.id()
                 );
+                if existing_job.is_done() {
+                    // Not re-run: it must not be recorded as queued
+                    let job = job.clone().set_context(existing_job.context);
+                    return upsert_to_storage(self.backend.deref(), key, &job);
+                }
                 upsert_to_storage(self.backend.deref(), key, &job)?;
             } else {
                 info!(
-- 
2.43.0


From 0a9a42236b0acec5bec83ec69dedff4b034e51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:58 +0000
Subject: [PATCH 19/24] fix: an update whose context names another job changed
 that other job

---
 aj_core/src/queue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c6223ba..72e6544 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -461,6 +461,7 @@ where
             job.data = data;
             if let Some(context) = context {
                 job.context = context;
+                job.context.job_id = job_id.to_string();
             }
             self.run_with_config(job, EnqueueConfig::new_re_run())
         } else {
-- 
2.43.0


From 99e3c1652c3a719aeee719121a8d0524caf66d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 20/24] fix: a hook that panics keeps the later plugins from
 being called

---
 aj_core/src/plugin/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 8231760..63ebde4 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -96,11 +96,16 @@ impl<M: Executable + Clone> Handler<RunHook<M>> for PluginCenter {
         let plugins = self.plugins.clone();
         Box::pin(async move {
             for plugin in plugins {
-                if msg.before {
-                    plugin.before_run::<M>(&msg.job_id).await;
-                } else {
-                    plugin.after_run::<M>(&msg.job_id).await;
-                }
+                let job_id = msg.job_id.clone();
+                // A hook that panics must not keep the other plugins from being called
+                let _ = spawn(async move {
+                    if msg.before {
+                        plugin.before_run::<M>(&job_id).await;
+                    } else {
+                        plugin.after_run::<M>(&job_id).await;
+                    }
+                })
+                .await;
             }
         })
     }
@@ -124,7 +129,11 @@ impl<M: Executable + Clone> Handler<ChangeStatus<M>> for PluginCenter {
         let plugins = self.plugins.clone();
         Box::pin(async move {
             for plugin in plugins {
-                plugin.change_status::<M>(&msg.job_id, msg.status).await;
+                let job_id = msg.job_id.clone();
+                let _ = spawn(async move {
+                    plugin.change_status::<M>(&job_id, msg.status).await;
+                })
+                .await;
             }
         })
     }
-- 
2.43.0


From 56ad17592eefe8488626ada48fa2bc6d6cc63b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 21/24] fix: an update with a context read earlier stores that
 context's status

---
 aj_core/src/queue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 72e6544..983da2f 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -134,6 +134,9 @@ where
                     let job = job.clone().set_context(existing_job.context);
                     return upsert_to_storage(self.backend.deref(), key, &job);
                 }
+                // It goes on waiting, whatever status the given context was read with
+                let mut job = job.clone();
+                job.context.job_status = existing_job.context.job_status;
                 upsert_to_storage(self.backend.deref(), key, &job)?;
             } else {
                 info!(
-- 
2.43.0


From 41cafd73a181554fa0b5ce9cdc88b7d09bcf1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:47 +0000
Subject: [PATCH 22/24] fix: the after-run hook is not called when a job panics

---
 aj_core/src/job/mod.rs  | 19 ++++++++++++-------
 aj_core/src/queue.rs    | 17 +++++------------
 aj_core/src/util/mod.rs | 15 +++++++++++++++
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index 1e1d05f..54ccbc1 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -11,11 +11,12 @@ use chrono::{DateTime, Utc};
 use cron::Schedule;
 use serde::{Deserialize, Serialize};
 use std::fmt::Debug;
+use std::panic::resume_unwind;
 use std::str::FromStr;
 use uuid::Uuid;
 
 use crate::types::{upsert_to_storage, Backend};
-use crate::util::{get_now, get_now_as_ms};
+use crate::util::{catch_panic, get_now, get_now_as_ms};
 use crate::{Error, PluginCenter};
 
 #[derive(Debug, Serialize, Deserialize, Clone)]
@@ -129,6 +130,15 @@ where
     M: Executable + Clone + Serialize + Sync + Send + 'static,
 {
     pub(crate) async fn execute(&mut self) -> <M as Executable>::Output {
+        let output = catch_panic(self.execute_steps()).await;
+
+        // Hook after, also if the job panicked
+        PluginCenter::after::<M>(self.id().to_string()).await;
+
+        output.unwrap_or_else(|panic| resume_unwind(panic))
+    }
+
+    async fn execute_steps(&mut self) -> <M as Executable>::Output {
         // Hook before
         PluginCenter::before::<M>(self.id().to_string()).await;
 
@@ -137,12 +147,7 @@ where
 
         self.data.pre_execute(&self.context).await;
         let output = self.data.execute(&self.context).await;
-        let output = self.data.post_execute(output, &self.context).await;
-
-        // Hook after
-        PluginCenter::after::<M>(self.id().to_string()).await;
-
-        output
+        self.data.post_execute(output, &self.context).await
     }
 
     pub fn is_ready(&self) -> bool {
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 983da2f..0000abc 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -3,16 +3,17 @@ use actix::*;
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::fmt::Debug;
-use std::future::{poll_fn, Future};
+
 use std::marker::PhantomData;
 use std::ops::Deref;
-use std::panic::{catch_unwind, AssertUnwindSafe};
+
 use std::sync::Arc;
-use std::task::Poll;
+
 use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
 use crate::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
+use crate::util::catch_panic;
 use crate::{Error, Executable, JobContext, JobType};
 
 const DEFAULT_TICK_DURATION: Duration = Duration::from_millis(100);
@@ -369,16 +370,8 @@ where
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            let mut execution = Box::pin(this.execute_job(job.clone()));
             // A panic in the job must not take the whole queue down
-            let result = poll_fn(|cx| {
-                match catch_unwind(AssertUnwindSafe(|| execution.as_mut().poll(cx))) {
-                    Ok(poll) => poll.map(Ok),
-                    Err(panic) => Poll::Ready(Err(panic)),
-                }
-            })
-            .await;
-            match result {
+            match catch_panic(this.execute_job(job.clone())).await {
                 Ok(Ok(())) => {}
                 Ok(Err(err)) => {
                     error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
diff --git a/aj_core/src/util/mod.rs b/aj_core/src/util/mod.rs
index b16d554..d2d2929 100644
--- a/aj_core/src/util/mod.rs
+++ b/aj_core/src/util/mod.rs
@@ -1,4 +1,19 @@
 use chrono::{DateTime, TimeZone, Utc};
+use std::future::{poll_fn, Future};
+use std::panic::{catch_unwind, AssertUnwindSafe};
+use std::task::Poll;
+
+/// Run a future until it completes or panics
+pub(crate) async fn catch_panic<F: Future>(future: F) -> std::thread::Result<F::Output> {
+    let mut future = Box::pin(future);
+    poll_fn(
+        |cx| match catch_unwind(AssertUnwindSafe(|| future.as_mut().poll(cx))) {
+            Ok(poll) => poll.map(Ok),
+            Err(panic) => Poll::Ready(Err(panic)),
+        },
+    )
+    .await
+}
 
 pub fn get_now() -> DateTime<Utc> {
     Utc::now()
-- 
2.43.0


From 005fca2c691f694b55046383fb372a3e1a027b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:52 +0000
Subject: [PATCH 23/24] fix: a job whose data cannot be serialized is
 acknowledged but never run

---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/error.rs         | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 37660fe..1878ba0 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -48,7 +48,7 @@ pub fn upsert_to_storage<T: Serialize>(
     key: &str,
     value: T,
 ) -> Result<(), Error> {
-    let value = serde_json::to_string(&value).unwrap_or("".into());
+    let value = serde_json::to_string(&value)?;
     let res = backend.storage_upsert(STORAGE_HASH, key, value);
     if let Err(e) = &res {
         warn!("[Storage] Upsert failed {key} Failed {:?}", e);
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 5f25ffe..5c12b5a 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,7 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    Serialize(serde_json::Error),
 }
 
 impl From<RedisError> for Error {
@@ -21,6 +22,12 @@ impl From<cron::error::Error> for Error {
     }
 }
 
+impl From<serde_json::Error> for Error {
+    fn from(value: serde_json::Error) -> Self {
+        Self::Serialize(value)
+    }
+}
+
 impl From<MailboxError> for Error {
     fn from(value: MailboxError) -> Self {
         Self::MailboxError(value)
-- 
2.43.0


From 5f0efcf5afea4f12968c6ca511c708e0e6420c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:44 +0000
Subject: [PATCH 24/24] fix: an update made before the queue of its type is in
 use reports success but does nothing

---
 aj_core/src/aj.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fd889ab..3393a61 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -209,8 +209,7 @@ impl AJ {
                 })
                 .await?
         } else {
-            warn!("Cannot update non existing job {job_id}");
-            Ok(())
+            Err(Error::NoQueueRegister)
         }
     }
 
-- 
2.43.0

