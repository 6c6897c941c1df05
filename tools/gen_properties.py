#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth, easier to edit than JSON lines)."""
import json, os
R = "rexecutor/src/"
S = "rexecutor-sqlx/src/"
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })

prop("C01", "A job is executed exactly once per occurrence, never twice at the same time",
 "Each time a job becomes due (first scheduling, a retry, the end of a snooze, or a rerun) it is handed to and executed by exactly one worker, however many executor registrations, Rexecutor instances and threads share the in-memory backend. Two executions of the same job never overlap, and updating a job or enqueuing a conflicting unique job while it is being claimed or executed never causes a second execution.",
 ["schedules", "histories", "configurations"],
 "all interleavings of claims, enqueues, updates, unique replacements and completions by any number of workers, instances and threads",
 "The suite claims two jobs with two streams once, on one thread; no test races claims, updates and unique enqueues or counts executions over a history.",
 [R+"backend/memory.rs", R+"job/runner.rs"],
 [("claim under one write lock: select due job and mark it executing", R+"backend/memory.rs load_job_mark_as_executing_for_executor"),
  ("unique enqueue and update never write back a stale status", R+"backend/memory.rs insert_unique_job / update_job")],
 ["Executor::execute entry and exit", "Backend::subscribe_ready_jobs items"],
 [("status", "scheduled/retryable = claimable, executing = claimed", R+"job.rs JobStatus")])

prop("C02", "Every due job of a running executor is started promptly",
 "While an executor is registered and has a free concurrency slot, every job of that executor that is due is started within one second of becoming due, whether it became due by enqueueing, by its scheduled time arriving, by retry, snooze or rerun, or because an update or a unique replacement moved its schedule. No job is forgotten, whatever else is queued and however many instances run; on a paused in-memory backend the same holds from the next wake-up call.",
 ["schedules", "histories", "configurations"],
 "all job mixes, arrival orders, schedules, retry/snooze/rerun/update histories and numbers of instances",
 "Tests wait for a single job on a fresh backend; lost wake-ups need a sleeping stream plus a particular later operation, and most tests only assert that something eventually ran.",
 [R+"backend/memory.rs", R+"job/runner.rs"],
 [("stream sleeps until the earliest schedule or a notification", R+"backend/memory.rs ReadyJobStream::next"),
  ("every write that can make a job claimable notifies subscribers", R+"backend/memory.rs notify_subscribers call sites")],
 ["Executor::execute entry time against the job's schedule, in virtual time"])

prop("C03", "A job never starts before its scheduled time",
 "No execution of a job starts more than 100 ms before its current scheduled time: the requested schedule for the first run, failure time plus backoff for a retry, snooze time plus delay for a snoozed job, and the updated time after an update. This holds however many other due jobs, workers or wake-ups there are.",
 ["schedules", "inputs", "histories"],
 "all schedules, delays, backoffs, wake-ups and concurrent workers",
 "Tests use one far-future job and check that it is not returned; they do not mix due and nearly-due jobs or measure start times across retries.",
 [R+"backend/memory.rs", R+"job/runner.rs"],
 [("eligibility filter on scheduled_at", R+"backend/memory.rs load_job_mark_as_executing_for_executor"),
  ("next schedule is now plus delay", R+"job/runner.rs handle_job_error / handle_job_snoozed")],
 ["Executor::execute entry time", "Backend::subscribe_ready_jobs items"])

prop("C04", "Jobs due at the same time start in priority order",
 "When several jobs of one executor are scheduled for the same time and are waiting, the one with the lowest priority number is always started next, including after its priority was changed by an update or a unique replacement. Jobs of different executors never delay one another.",
 ["inputs", "histories", "schedules"],
 "all priorities, arrival orders, retries and priority changes among jobs sharing a scheduled time",
 "No existing test orders more than two jobs, and none changes a priority of a waiting job.",
 [R+"backend/memory.rs"],
 [("ordering of claimable jobs", R+"backend/memory.rs load_job_mark_as_executing_for_executor")],
 ["order of executions of a single-slot executor", "order of items of one ready-job stream"])

prop("C05", "Every execution outcome is recorded faithfully on its job",
 "After an execution the job's record shows exactly what happened: success marks it complete, a cancellation marks it cancelled with the reason, a snooze reschedules it by the requested delay without using up an attempt, and an error, panic or timeout marks it for retry after the executor's backoff, or discarded when no attempt is left. Every cancellation and failure appends exactly one error entry with the right attempt number, error type and message, earlier entries are never lost, and nothing else about the job changes.",
 ["histories", "inputs", "configurations"],
 "all sequences of outcomes over successive attempts, for blocking and non-blocking executors, with and without timeouts",
 "Runner tests use a mock that accepts any argument for one outcome at a time; the multi-attempt record and the untouched fields are never compared.",
 [R+"job/runner.rs", R+"backend/memory.rs", R+"backend.rs"],
 [("outcome dispatch", R+"job/runner.rs execute_job_with_timeout / execute_job_without_timeout / handle_*"),
  ("state transitions", R+"backend/memory.rs impl Job mark_*")],
 ["Backend::query before and after each execution", "Executor::execute outcome"])

prop("C06", "Attempts are counted correctly and never exceed the maximum",
 "The executor sees attempt numbers that start at one and grow by one per failed attempt, while snoozing does not consume an attempt. A job that keeps failing is executed exactly max_attempts times (at least once) and then discarded; changing max_attempts by an update, a unique replacement or a rerun moves that limit, and a job already at or past the limit is discarded at its next failure instead of being retried for ever.",
 ["histories", "inputs"],
 "all max_attempts values including 0, 1 and 65535, all interleavings of failures, snoozes, reruns and max_attempts changes",
 "Tests check one retry and one discard with fixed numbers; the limit being lowered below the current attempt, or zero, is never tried.",
 [R+"job.rs", R+"job/runner.rs", R+"backend/memory.rs"],
 [("final attempt decision", R+"job.rs is_final_attempt"),
  ("attempt increments on claim, decrements on snooze", R+"backend/memory.rs mark_job_executing / mark_job_snoozed")],
 ["attempt and max_attempts passed to Executor::execute", "number of executions per job"])

prop("C07", "Finished jobs stay finished until they are rerun",
 "A completed, cancelled or discarded job is never executed again and its record does not change (unless it is updated, replaced, cancelled or pruned) until a rerun is requested. A rerun makes it runnable immediately with one more allowed attempt, clears its finished timestamps and keeps its error history.",
 ["histories", "schedules"],
 "all histories of outcomes, cancellations of waiting jobs, reruns, updates and wake-ups",
 "Rerun tests look at one record once; none checks that finished jobs stay untouched over later activity.",
 [R+"backend/memory.rs", R+"executor.rs"],
 [("claim filter on status", R+"backend/memory.rs load_job_mark_as_executing_for_executor"),
  ("rerun transition", R+"backend/memory.rs mark_job_rerunable")],
 ["Executor::execute entries after a terminal status", "Backend::query"])

prop("C08", "A failing job never stops other jobs from being processed",
 "However a job fails (panic with any payload, error, timeout, undecodable data or metadata, extreme snooze or backoff delays, extreme attempt limits) and whichever backend call fails with an error along the way, the executor keeps processing its other jobs, each still executed and recorded exactly as if the failing job were absent.",
 ["fault_sequences", "inputs", "histories"],
 "all positions and kinds of failing jobs and of injected backend errors in the stream of jobs",
 "Tests run one failing job per runner and stop; nothing is processed after the failure.",
 [R+"job/runner.rs", R+"job.rs", R+"backoff.rs"],
 [("execution isolated in its own task, join errors mapped", R+"job/runner.rs tokio::spawn / From<JoinError>"),
  ("backend errors are logged and skipped", R+"job/runner.rs handle_*"),
  ("no panics in the runner's own arithmetic and conversions", R+"job/runner.rs, "+R+"job.rs TryFrom")],
 ["executions and records of healthy jobs around injected failures"])

prop("C09", "An executor never runs more jobs at once than its concurrency limit",
 "For each registration of an executor the number of simultaneously executing jobs never exceeds its maximum concurrency, and jobs beyond the limit stay unclaimed, available to other instances. Executors without a limit are not throttled.",
 ["schedules", "configurations"],
 "all limits, job counts, durations, outcomes (including panics and timeouts), blocking or not",
 "No test observes the number of concurrently running jobs.",
 [R+"job/runner.rs"],
 [("bounded concurrent consumption of the stream", R+"job/runner.rs for_each_concurrent")],
 ["gauge incremented and decremented inside Executor::execute", "statuses of waiting jobs"])

prop("C10", "Timeouts stop jobs that overrun and only those",
 "A job whose execution does not finish within the timeout its executor specifies for it is stopped at the timeout and recorded as a timeout failure, subject to the normal retry and discard rules; a job that finishes in time is recorded with its own outcome. The timeout is evaluated separately for every job and attempt, applies to blocking executors as well as asynchronous ones (work is stopped where it next yields), and jobs without timeout run as long as they need.",
 ["inputs", "schedules", "configurations"],
 "all durations, timeouts, attempts and outcomes, blocking and non-blocking",
 "One test with a 1 ms timeout and a mock backend; no boundary, no per-job variation, no check that the work stops.",
 [R+"job/runner.rs"],
 [("timeout around the execution", R+"job/runner.rs execute_job_with_timeout")],
 ["events emitted by the job body after its timeout", "recorded error type and status"])

prop("C11", "Shutdown stops new work but lets running jobs finish and be recorded",
 "After graceful shutdown is requested, or the drop guard is dropped, no execution, cron enqueue or pruning is started by that instance any more, while executions already running finish and have their outcome recorded. Jobs not yet started stay runnable and unchanged, and are executed by another or later instance on the same backend.",
 ["schedules", "crash_points", "configurations"],
 "shutdown at any moment relative to claims, executions, retries, cron ticks and pruning, with any number of instances",
 "Tests shut down an idle instance and check that a later job does not run; shutdown in the middle of work is not sampled.",
 [R+"lib.rs", R+"job/runner.rs", R+"cron_runner.rs", R+"pruner/runner.rs"],
 [("cancellation token shared by all runners", R+"lib.rs graceful_shutdown / drop_guard"),
  ("stream ends on cancellation, running futures are awaited", R+"job/runner.rs take_until + for_each_concurrent")],
 ["executions, backend calls and job records after the shutdown call"])

prop("C12", "Unique enqueue inserts exactly when no existing job matches the criteria",
 "Enqueuing with a uniqueness criteria adds a new job if and only if no existing job matches every part of it: the key if one is given (whatever keys other jobs have if none is given), the executor if requested, one of the listed statuses, and a scheduled time within the given duration (jobs inside that window of both now and the new job's time match, jobs outside both do not). Otherwise no job is added, the id of a matching job is returned, and that job is changed only in the fields, and only in the statuses, that the conflict resolution names.",
 ["inputs", "histories"],
 "all criteria, conflict resolutions and populations of existing jobs in every status",
 "Three fixed examples, one matching job, one replaced field.",
 [R+"backend/memory.rs", R+"backend/queryable.rs", R+"job/uniqueness_criteria.rs"],
 [("criteria matching", R+"backend/queryable.rs impl Queryable for EnqueuableJob"),
  ("conflict resolution", R+"backend/memory.rs replace")],
 ["Backend::enqueue result", "complete job table before and after"])

prop("C13", "Concurrent unique enqueues create one job",
 "When any number of threads enqueue jobs with the same uniqueness criteria at the same time, at most one new job is created and every call returns that job's id, as if the calls had happened one after another. Conflict resolutions applied concurrently with claims, completions and updates of the matching job never undo those changes.",
 ["schedules"],
 "all interleavings of concurrent unique enqueues with each other and with claims and completions",
 "Unique enqueues are only tested sequentially.",
 [R+"backend/memory.rs"],
 [("match and insert/replace in one critical section", R+"backend/memory.rs insert_unique_job")],
 ["ids returned to concurrent enqueuers", "job table afterwards"])

prop("C14", "In-memory backend operations are atomic under concurrency",
 "Concurrent enqueues, claims, completions, failures, cancellations, snoozes, reruns, updates, prunes and queries on the in-memory backend behave as if executed one at a time in some order consistent with their real-time order. No update is lost, every enqueued job gets its own id, and a query never shows a partly applied operation.",
 ["schedules", "histories"],
 "all interleavings of backend operations from any number of threads",
 "All backend tests are single-threaded.",
 [R+"backend/memory.rs"],
 [("one lock over the job table, atomic id counter", R+"backend/memory.rs jobs / id_counter")],
 ["client-side history of calls and results", "complete job table"])

prop("C15", "Queries return exactly the matching jobs",
 "A job query returns exactly the jobs that satisfy it, each once and with all its current fields, for every combination of and, or, not and the conditions on data, metadata, ids, status, tags and schedule time. Queries made through an executor never return jobs of another executor.",
 ["inputs", "histories"],
 "all query trees and job populations in the in-memory backend, through the executor API and the backend API",
 "Each condition is tested against one job; no random trees, no executor scoping over mixed populations.",
 [R+"backend/queryable.rs", R+"job/query.rs", R+"backend.rs", R+"executor.rs"],
 [("recursive matching", R+"backend/queryable.rs impl Queryable for Query"),
  ("translation of executor level queries", R+"backend.rs TryFrom / for_executor; "+R+"job/query.rs Where")],
 ["Backend::query and Executor::query_jobs_on_backend results"])

prop("C16", "Pruning removes exactly the jobs its policy names",
 "A prune by age removes exactly the jobs of its status and executors whose scheduled time is further in the past than the age (for the finished statuses), and a prune by length removes just enough of them to leave the given number, oldest scheduled time first. Jobs of other statuses or executors, and jobs a policy must keep, are never removed or changed.",
 ["inputs", "histories"],
 "all prune policies and job populations, statuses and executor selections",
 "One population in which kept and removed counts happen to be equal; the identity of the survivors is never checked.",
 [R+"backend/memory.rs", R+"backend/queryable.rs", R+"pruner.rs"],
 [("retain filter", R+"backend/memory.rs prune_jobs"),
  ("policy selection", R+"backend/queryable.rs impl Queryable for PruneSpec/Spec; "+R+"pruner.rs IntoSpec")],
 ["complete job table before and after pruning"])

prop("C17", "The pruner runs every configured policy at every scheduled tick",
 "While an instance with a pruner is running, each tick of its schedule applies every configured policy exactly once, with at most the configured number of policies in flight at a time. A policy that fails or is slow does not prevent the other policies or later ticks (ticks that pass while an earlier run is still in progress may be skipped), and nothing is pruned between ticks; once shutdown was requested no further run is begun.",
 ["schedules", "fault_sequences", "configurations"],
 "all schedules, numbers of policies, concurrency limits, failing and slow prunes",
 "Tests wait for one tick of one policy with a mock.",
 [R+"pruner/runner.rs", R+"pruner.rs"],
 [("tick loop", R+"pruner/runner.rs spawn"), ("bounded concurrent prunes", R+"pruner/runner.rs prune")],
 ["Backend::prune_jobs calls with virtual timestamps"])

prop("C18", "Cron executors get exactly one job per tick of their schedule",
 "While an instance is running, every instant of a registered cron schedule (evaluated in the registered time zone) yields exactly one job for that registration (as long as enqueueing takes less time than lies between two ticks), scheduled for exactly that instant, carrying the registered data and the executor's defaults, and it is executed. No job appears for an instant outside the schedule, registrations do not affect each other, and a failed enqueue affects only its own tick.",
 ["schedules", "inputs", "fault_sequences"],
 "all cron expressions, time zones, registration moments, numbers of registrations and enqueue failures",
 "Tests wait for one every-second tick in real time.",
 [R+"cron_runner.rs", R+"lib.rs"],
 [("tick loop and pre-emptive enqueue", R+"cron_runner.rs spawn"), ("cron enqueue", R+"cron_runner.rs enqueue_job")],
 ["Backend::enqueue calls and executions with virtual timestamps over hours to years"])

prop("C19", "Backoff delays follow their strategy, limits and jitter for every attempt",
 "For every attempt number and configuration, the delay of a constant, linear, polynomial or exponential backoff equals its formula capped at its configured maximum, moved by at most the configured jitter and never below the configured minimum. Computing it never panics or wraps around, however large the attempt, base, factor or power is: out-of-range results saturate.",
 ["inputs"],
 "all attempts 0..65535, bases, factors, powers, maxima, minima, offsets and jitters",
 "Tests use attempts below 100 and small factors, where nothing overflows.",
 [R+"backoff.rs", R+"executor.rs"],
 [("strategies", R+"backoff.rs impl Strategy"), ("jitter and minimum", R+"backoff.rs apply_jitter / BackoffStrategy::backoff")],
 ["value returned by Strategy::backoff and by the default Executor::backoff"])

prop("C20", "What is enqueued is exactly what is stored and executed",
 "A job enqueued through the builder is stored, returned by queries and passed to the executor with exactly the data, metadata, tags, priority, schedule and maximum attempts that were given, with the executor's own defaults for everything not given and overrides winning over them. Values survive the encode/decode round trip for every data and metadata type, and a job only ever reaches the executor whose name it was enqueued under.",
 ["inputs", "configurations"],
 "all data and metadata values and types, builder call orders, executors",
 "A handful of strings; the values reaching the executor are not compared with those enqueued.",
 [R+"job/builder.rs", R+"job.rs", R+"backend.rs", R+"backend/memory.rs"],
 [("builder", R+"job/builder.rs"), ("encode/decode", R+"job.rs TryFrom<backend::Job>, "+R+"backend.rs TryFrom<job::Job>")],
 ["Executor::execute argument", "query results", "backend record"])

prop("C21", "Managing a job affects that job only, and unknown ids fail cleanly",
 "Cancelling, rerunning or updating a job, and recording an outcome for it, changes only the job with that id: a cancelled waiting job is not executed and carries the reason, an update changes its data, metadata, tags, priority, schedule and maximum attempts and nothing of its lifecycle state. An id that does not exist yields a job-not-found error naming it and changes nothing, and all of this is identical when the backend is used through a shared pointer, box or reference.",
 ["inputs", "histories"],
 "all operation sequences over any population of jobs and ids",
 "Each operation is tested once on a backend holding a single job, where touching the wrong job cannot show.",
 [R+"backend/memory.rs", R+"executor.rs", R+"backend.rs"],
 [("lookup by id and targeted mutation", R+"backend/memory.rs"), ("pointer forwarding", R+"backend.rs impl Backend for S: Deref")],
 ["complete job table before and after each operation", "errors returned"])

prop("C22", "The global backend is set once and used by every global operation",
 "Before a global backend is set every global operation fails with the global-backend error and has no effect; the first successful set wins, also under concurrent attempts, and later attempts fail without replacing it. From then on every global enqueue, query, cancel, rerun and update acts on that backend exactly like its explicit-backend counterpart.",
 ["schedules", "histories"],
 "all interleavings of set attempts and uses of the global backend in a process",
 "A process has one global backend, so the suite can exercise it in only one order; races between setters are not tried.",
 [R+"global_backend.rs", R+"lib.rs", R+"executor.rs", R+"job/builder.rs"],
 [("once cell", R+"global_backend.rs"), ("global API delegates to the explicit API", R+"executor.rs")],
 ["results of global operations in fresh child processes", "job tables of all candidate backends"])

prop("C23", "Postgres queries return exactly the matching jobs",
 "The Postgres backend returns for every query exactly the jobs that satisfy it, each once and with all fields decoded: and, or and not nest to any depth with their logical meaning, empty conjunctions and disjunctions are accepted, and the condition on a list of ids accepts any of them. A query made through an executor never returns another executor's jobs.",
 ["inputs"],
 "all query trees and job populations",
 "The Postgres tests need a database and only check two trivial queries; the one offline test prints the SQL without checking it.",
 [S+"query.rs", S+"types.rs", S+"backend.rs"],
 [("translation to SQL", S+"query.rs handle_query"), ("row decoding", S+"types.rs")],
 ["rows returned by Backend::query against an SQL-evaluating server"])

prop("C24", "Postgres unique enqueue inserts exactly when no existing job matches",
 "On the Postgres backend enqueuing with a uniqueness criteria adds a job if and only if no existing job matches every part of it (key, executor, statuses, and scheduled time no further than the duration from the new job's); otherwise it returns a matching job's id and changes only the fields, and only in the statuses, that the conflict resolution names. Concurrent enqueues with the same criteria, from any number of instances, create at most one job, a conflicting job that changes meanwhile is treated as it was at one moment of the enqueue, and a failed enqueue leaves nothing behind.",
 ["inputs", "schedules", "fault_sequences"],
 "all criteria, resolutions, populations, and interleavings of the statements of concurrent enqueues",
 "Needs a database; the suite has three sequential examples without keys.",
 [S+"unique.rs", S+"lib.rs"],
 [("criteria to SQL", S+"unique.rs query"), ("advisory lock held for the transaction", S+"lib.rs insert_unique_job"), ("lock identity", S+"unique.rs unique_identifier")],
 ["Backend::enqueue results", "table rows", "order of statements on the wire"])

prop("C25", "Postgres pruning removes exactly the jobs its policy names",
 "On the Postgres backend a prune by age removes exactly the jobs of its status and executors whose scheduled time is further in the past than the age for finished statuses (further in the future for waiting ones), and a prune by length keeps exactly the given number of them, newest first for finished statuses. No other job is removed.",
 ["inputs"],
 "all prune policies and job populations",
 "Offline tests compare four SQL strings; the database test never checks which jobs survive.",
 [S+"query.rs"],
 [("prune SQL", S+"query.rs impl ToQuery for PruneSpec")],
 ["table rows before and after pruning"])

prop("C26", "The Postgres backend records job state and outcomes faithfully",
 "On the Postgres backend every enqueue, completion, retry, snooze, discard, cancellation, rerun and update changes exactly the intended columns of exactly the intended row, and reading the job back yields the same values, including error entries, tags, JSON data and timestamps. Operations on unknown ids report job-not-found, failing statements and connections are reported as errors and never as success, and job records decode for every legal stored value.",
 ["inputs", "histories", "fault_sequences"],
 "all operation sequences and values, and server errors at any statement",
 "Needs a database; without one none of this code runs in the suite.",
 [S+"lib.rs", S+"backend.rs", S+"types.rs"],
 [("statements and argument order", S+"lib.rs"), ("row count to result mapping", S+"backend.rs handle_update"), ("error mapping", S+"lib.rs map_err"), ("decoding", S+"types.rs")],
 ["Backend results", "table rows after each operation"])

prop("C27", "Postgres ready-job streams deliver each due job once and promptly",
 "Ready-job streams on the Postgres backend deliver every due job of their executor exactly once across all streams, connections and instances, never more than 100 ms early, in priority order among jobs scheduled for the same time, and within one second of becoming due or of its announcement by the database (within 31 s when that announcement was lost with its connection). Server errors, lost connections and foreign or unreadable notifications are survived: a failed poll is reported and ends no stream, and listening for announcements resumes once the server is back.",
 ["schedules", "fault_sequences", "histories"],
 "all arrival orders, schedules, numbers of streams and instances, and server errors",
 "Needs a database; and the tests there use one or two jobs.",
 [S+"stream.rs", S+"lib.rs", S+"backend.rs", "rexecutor-sqlx/migrations"],
 [("claim statement", S+"lib.rs load_job_mark_as_executing_for_executor"), ("poll/notify loop", S+"stream.rs"), ("listener dispatch", S+"lib.rs from_pool"), ("notify trigger", "rexecutor-sqlx/migrations")],
 ["stream items and their times", "table rows"])

prop("C28", "The enqueue assertion macro passes exactly when the jobs are there",
 "The test-support assertion for enqueued jobs passes if and only if the number of jobs on the given backend that match every listed condition (data, metadata, tags, schedule bounds, executor) is the stated number; without a stated number it passes if and only if at least one job matches. It never modifies the backend.",
 ["inputs"],
 "all populations, conditions and counts",
 "Only passing uses are tested, so an assertion that never fails would go unnoticed.",
 [R+"testing.rs"],
 [("macro expansion to a query and a count check", R+"testing.rs assert_enqueued")],
 ["panic or no panic of the macro against the population"])

prop("C29", "On Postgres each claim is executed once and recorded, even across shutdowns",
 "When one or several Rexecutor instances run executors on a shared Postgres database, each claim of a job's row leads to exactly one execution, by the instance that claimed it and with the row's data, metadata, tags, priority and attempt; each end of an execution (done, cancel, snooze, error, panic, timeout) is recorded in that row exactly once, with the status, schedule and error entry that outcome, attempt and backoff call for. Due jobs start within a second while an instance has a free slot, no instance exceeds an executor's concurrency limit, and a job stored as executing is being executed. An instance that is shut down, at any moment, starts nothing more, still records what it was executing, and leaves no job claimed that it does not execute.",
 ["schedules", "histories", "crash_points"],
 "all jobs, outcomes, numbers of instances, and moments of shutdown relative to the statements and messages in flight",
 "No test runs executors on the Postgres backend; the suite's execution tests use mocks or the in-memory backend, where a claim is instantaneous.",
 [R+"job/runner.rs", R+"lib.rs", S+"stream.rs", S+"lib.rs"],
 [("stream to execution to outcome", R+"job/runner.rs"), ("claim in a task of its own, given back if nobody takes it", S+"stream.rs claim"), ("cancellation token", R+"lib.rs graceful_shutdown / drop_guard")],
 ["committed changes of the table", "start and end of executions", "shutdown calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
