//! Multi-threaded stress with injected delays and preemption; checkers over the recorded histories.
use crate::chaos::{self, Preempter};
use crate::exec::*;
use crate::model::*;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use crate::with_ex;
use chrono::{TimeDelta, Utc};
use futures::StreamExt;
use rexecutor::backend::Backend;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::ErrorType;
use rexecutor::prelude::*;
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

/// Runs one closure per thread, all enrolled in the chaos, on a runtime of their own.
fn threads<R: Send>(n: usize, seed: u64, level: u64, f: impl Fn(usize, &tokio::runtime::Runtime) -> R + Sync) -> Vec<R> {
    let barrier = Barrier::new(n + 1);
    let tids: Mutex<Vec<i32>> = Mutex::new(vec![]);
    chaos::set_level(level);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (f, barrier, tids) = (&f, &barrier, &tids);
                s.spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
                    tids.lock().unwrap().push(chaos::gettid());
                    chaos::enroll(hash_of((seed, i)) | 1);
                    barrier.wait();
                    let r = f(i, &rt);
                    chaos::enroll(0);
                    // stay until the preempter is gone, so that no signal goes to a reused id
                    barrier.wait();
                    r
                })
            })
            .collect();
        // all threads are at the first barrier
        while tids.lock().unwrap().len() < n {
            std::thread::yield_now();
        }
        let t = tids.lock().unwrap().clone();
        let p = Preempter::start(t, seed);
        barrier.wait();
        barrier_done(&barrier, p);
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    chaos::set_level(0);
    out.into_iter()
        .map(|r| match r {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        })
        .collect()
}

fn barrier_done(b: &Barrier, p: Preempter) {
    b.wait();
    drop(p);
}

fn plain(executor: &str, i: u64, at: T) -> New {
    New {
        executor: executor.to_owned(),
        data: json!(i),
        metadata: serde_json::Value::Null,
        max_attempts: 5,
        scheduled_at: at,
        tags: vec![],
        priority: 0,
        crit: None,
    }
}

async fn claim_one(b: &InMemoryBackend, e: &'static str) -> Option<BJob> {
    let mut s = b.subscribe_ready_jobs(ExecutorIdentifier::from(e)).await;
    match futures::future::poll_fn(|cx| std::task::Poll::Ready(s.poll_next_unpin(cx))).await {
        std::task::Poll::Ready(Some(Ok(j))) => Some(j),
        _ => None,
    }
}

/// Claims race with each other, with updates, with unique replacements and with queries.
pub fn claims(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let b = InMemoryBackend::new();
    let now = Utc::now();
    let n_jobs = rng.range(8, 60) as u64;
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let keyed = 3u64;
    let mut ids = vec![];
    rt.block_on(async {
        for i in 0..n_jobs {
            let mut n = plain("claims", i, now - TimeDelta::hours(1) + TimeDelta::milliseconds((i % 5) as i64));
            if i < keyed {
                n.crit = Some(Crit { key: Some(i), executor: true, within: None, statuses: JobStatus::ALL.to_vec(), replace: None, shape: 0 });
            }
            if let Res::Id(id) = perform(&b, &Op::Enqueue(n)).await {
                ids.push(id);
            }
        }
    });
    let table0 = rt.block_on(table(&b)).unwrap();
    let workers = 4;
    let done = AtomicUsize::new(0);
    let level = *rng.pick(&[6, 20, 60]);
    let early = AtomicU64::new(0);
    let out: Vec<Vec<BJob>> = threads(workers + 3, seed, level, |i, rt| {
        rt.block_on(async {
            let mut r = Rng::new(hash_of((seed, i, "w")));
            let mut got = vec![];
            if i < workers {
                let mut misses = 0;
                let mut stream = b.subscribe_ready_jobs(ExecutorIdentifier::from("claims")).await;
                while misses < 3 {
                    let j = if r.pct(50) {
                        claim_one(&b, "claims").await
                    } else {
                        match futures::future::poll_fn(|cx| std::task::Poll::Ready(stream.poll_next_unpin(cx))).await {
                            std::task::Poll::Ready(Some(Ok(j))) => Some(j),
                            _ => None,
                        }
                    };
                    match j {
                        Some(j) => {
                            misses = 0;
                            if r.pct(30) {
                                let _ = b.mark_job_complete(j.id.into()).await;
                            }
                            got.push(j);
                        }
                        None => misses += 1,
                    }
                }
                done.fetch_add(1, SeqCst);
            } else if i == workers {
                // updates with copies taken before the claims
                while done.load(SeqCst) < workers {
                    let mut j = r.pick(&table0).clone();
                    j.priority = r.range(0, 3) as i32;
                    j.metadata = json!({"u": r.below(9)});
                    let _ = b.update_job(j).await;
                }
            } else if i == workers + 1 {
                while done.load(SeqCst) < workers {
                    let mut n = plain("claims", 77, now - TimeDelta::hours(1));
                    n.crit = Some(Crit {
                        key: Some(r.below(keyed)), executor: r.pct(50), within: None, statuses: JobStatus::ALL.to_vec(),
                        replace: Some(Rep { metadata: true, priority: true, scheduled_at: r.pct(30), statuses: JobStatus::ALL.to_vec(), ..Default::default() }),
                        shape: r.next(),
                    });
                    if let Res::Id(id) = perform(&b, &Op::Enqueue(n)).await {
                        if !table0.iter().any(|j| j.id == id) {
                            early.fetch_add(1, SeqCst);
                        }
                    }
                }
            } else {
                while done.load(SeqCst) < workers {
                    // one attempt per claim, never two
                    if let Ok(t) = table(&b).await {
                        for j in &t {
                            if j.attempt > 1 {
                                early.fetch_add(1 << 32, SeqCst);
                            }
                        }
                    }
                }
            }
            got
        })
    });
    let replay = json!({"workload": "stress:claims", "case_seed": seed});
    let mut count: BTreeMap<i32, usize> = BTreeMap::new();
    for j in out.iter().flatten() {
        *count.entry(j.id).or_default() += 1;
    }
    obs.count("claims_raced", count.values().sum::<usize>() as u64);
    obs.max("max_threads_that_claimed", out.iter().filter(|o| !o.is_empty()).count() as u64);
    for (id, n) in &count {
        if *n > 1 {
            obs.violate(&["C01", "C14"], format!("job {id} was handed out {n} times to concurrent workers"), replay.clone());
        }
    }
    let t = rt.block_on(table(&b)).unwrap();
    for j in &t {
        let n = count.get(&j.id).copied().unwrap_or(0);
        if n == 1 && (j.attempt != 1 || !matches!(j.status, JobStatus::Executing | JobStatus::Complete)) {
            obs.violate(&["C01", "C13", "C14"], format!("job {} was handed out once but ended as {:?} with attempt {}: its claim was undone", j.id, j.status, j.attempt), replay.clone());
        }
        if n == 0 && (j.attempt != 0 || !waiting(j.status)) {
            obs.violate(&["C01", "C14"], format!("job {} was never handed out but is {:?}", j.id, j.status), replay.clone());
        }
        if n == 0 {
            obs.violate(&["C02", "C14"], format!("due job {} was not handed out to any of the workers", j.id), replay.clone());
        }
    }
    let e = early.load(SeqCst);
    if e >> 32 > 0 {
        obs.violate(&["C01", "C14"], "a query showed a job with two attempts".to_string(), replay.clone());
    }
    if e & 0xffff_ffff > 0 {
        obs.violate(&["C13", "C12", "C14"], "a unique enqueue added a job although a matching one exists".to_string(), replay.clone());
    }
    let sig: Vec<Vec<i32>> = out.iter().map(|o| o.iter().map(|j| j.id).collect()).collect();
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&sig));
    obs.sample(json!({"workload": "stress:claims", "case_seed": seed, "claimed_by_thread": sig}));
}

/// More workers than due jobs, with jobs of the future queued behind them: a worker that comes too
/// late for the due job must not be handed one of the future, nor one that was moved there.
pub fn early(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let rounds = 24u64;
    let n = rng.range(2, 6) as usize;
    let level = *rng.pick(&[4, 12, 40]);
    let b = InMemoryBackend::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let movers = rng.pct(50);
    let future = [TimeDelta::milliseconds(5_000), TimeDelta::minutes(1), TimeDelta::hours(3), TimeDelta::days(40)];
    rt.block_on(async {
        for i in 0..rng.range(2, 8) as u64 {
            perform(&b, &Op::Enqueue(plain("early", 1_000 + i, Utc::now() + *rng.pick(&future) + TimeDelta::seconds(60)))).await;
        }
    });
    let barrier = Barrier::new(n + 1);
    let due: Mutex<Vec<i32>> = Mutex::new(vec![]);
    let out: Vec<Vec<(i32, i64, usize)>> = threads(n + 1, seed, level, |i, rt| {
        rt.block_on(async {
            let mut r = Rng::new(hash_of((seed, i, "early")));
            let mut got = vec![];
            let mut stream = b.subscribe_ready_jobs(ExecutorIdentifier::from("early")).await;
            for round in 0..rounds as usize {
                if i == n {
                    let mut ids = vec![];
                    if r.pct(60) {
                        let ahead = *r.pick(&[150, 200, 300, 500, 900]);
                        perform(&b, &Op::Enqueue(plain("early", 500 + round as u64, Utc::now() + TimeDelta::milliseconds(ahead)))).await;
                    }
                    for _ in 0..r.range(1, n as i64 - 1) {
                        if let Res::Id(id) = perform(&b, &Op::Enqueue(plain("early", round as u64, Utc::now() - TimeDelta::milliseconds(r.range(0, 50))))).await {
                            ids.push(id);
                        }
                    }
                    *due.lock().unwrap() = ids.clone();
                    barrier.wait();
                    if movers {
                        for id in ids {
                            if let Ok(t) = table(&b).await {
                                if let Some(mut j) = t.into_iter().find(|j| j.id == id) {
                                    j.scheduled_at = Utc::now() + TimeDelta::hours(2);
                                    let _ = b.update_job(j).await;
                                }
                            }
                        }
                    }
                } else {
                    barrier.wait();
                    for _ in 0..2 {
                        let j = if r.pct(30) {
                            claim_one(&b, "early").await
                        } else {
                            match futures::future::poll_fn(|cx| std::task::Poll::Ready(stream.poll_next_unpin(cx))).await {
                                std::task::Poll::Ready(Some(Ok(j))) => Some(j),
                                _ => None,
                            }
                        };
                        if let Some(j) = j {
                            got.push((j.id, (j.scheduled_at - Utc::now()).num_milliseconds(), round));
                        }
                    }
                }
                barrier.wait();
            }
            got
        })
    });
    let replay = json!({"workload": "stress:early", "case_seed": seed});
    obs.count("claims_with_future_jobs_queued", out.iter().map(|o| o.len() as u64).sum());
    for (id, ahead, round) in out.iter().flatten() {
        if *ahead > 100 {
            obs.violate(&["C03", "C14"], format!("job {id} was handed out {ahead} ms before its schedule in round {round}, with {n} workers racing"), replay.clone());
        }
    }
    let sig: Vec<Vec<(i32, usize)>> = out.iter().map(|o| o.iter().map(|(id, _, r)| (*id, *r)).collect()).collect();
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&sig));
    obs.sample(json!({"workload": "stress:early", "case_seed": seed, "claimed_by_thread": sig}));
}

/// Threads work on jobs of their own in a large table from which others are pruned all the time:
/// every operation must affect exactly the job it names.
pub fn crowded(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let b = InMemoryBackend::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let level = *rng.pick(&[0, 12, 50, 200]);
    let now = Utc::now();
    let owners = 4usize;
    let padding = *rng.pick(&[40, 150, 400]);
    let own: Vec<(i32, u64)> = rt.block_on(async {
        for i in 0..padding {
            if let Res::Id(id) = perform(&b, &Op::Enqueue(plain("padding", i, now - TimeDelta::days(9) + TimeDelta::seconds(i as i64)))).await {
                perform(&b, &Op::Complete(id)).await;
            }
            if i % 8 == 7 || padding - i < 8 {
                let mut n = plain("owned", i, now - TimeDelta::minutes(1));
                n.crit = Some(Crit { key: Some(10_000 + i), executor: true, within: None, statuses: JobStatus::ALL.to_vec(), replace: None, shape: 1 });
                perform(&b, &Op::Enqueue(n)).await;
            }
        }
        let mut own = vec![];
        while let Some(j) = claim_one(&b, "owned").await {
            own.push((j.id, j.data.as_u64().unwrap_or(0)));
        }
        own
    });
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let done = AtomicUsize::new(0);
    let ops = AtomicU64::new(0);
    let trace: Vec<Vec<u64>> = threads(owners + 2, seed, level, |i, rt| {
        rt.block_on(async {
            let mut r = Rng::new(hash_of((seed, i, "crowded")));
            let mut trace = vec![];
            if i >= owners {
                // removes padding bit by bit, oldest first, and adds some
                let mut left = padding as u32;
                while done.load(SeqCst) < owners {
                    left = left.saturating_sub(1);
                    if i == owners {
                        perform(&b, &Op::Prune(PruneSpec { status: JobStatus::Complete, prune_by: PruneBy::MaxLength(left), executors: Spec::Only(vec!["padding"]) })).await;
                    } else {
                        let Res::Id(id) = perform(&b, &Op::Enqueue(plain("other", 0, now - TimeDelta::days(3)))).await else { continue };
                        perform(&b, &Op::Discard(id, ErrorType::Panic, "gone".into())).await;
                        perform(&b, &Op::Prune(PruneSpec { status: JobStatus::Discarded, prune_by: PruneBy::MaxAge(TimeDelta::days(1)), executors: Spec::Only(vec!["other"]) })).await;
                    }
                    trace.push(left as u64);
                }
                return trace;
            }
            // status, messages, attempt, max_attempts, priority
            let mut want: BTreeMap<i32, (JobStatus, Vec<String>, i32, i32, i32)> = BTreeMap::new();
            let mine: Vec<(i32, u64)> = own.iter().copied().enumerate().filter(|(k, _)| k % owners == i).map(|x| x.1).collect();
            for (id, _) in &mine {
                want.insert(*id, (JobStatus::Executing, vec![], 1, 5, 0));
            }
            for k in 0..40 {
                if mine.is_empty() {
                    break;
                }
                let (id, key) = *r.pick(&mine);
                let w = want.get_mut(&id).unwrap();
                let m = format!("{i}-{k}");
                let what = r.below(8);
                let op = match what {
                    0 => Op::Complete(id),
                    1 => Op::Cancel(id, ErrorType::Cancelled, m.clone()),
                    2 => Op::Discard(id, ErrorType::Panic, m.clone()),
                    3 => Op::Retry(id, now + TimeDelta::days(1), ErrorType::Timeout, m.clone()),
                    4 if w.2 > 0 => Op::Snooze(id, now + TimeDelta::days(1)),
                    5 => Op::Rerun(id),
                    6 => {
                        let mut n = plain("owned", key, now + TimeDelta::days(1));
                        n.priority = 1_000 + (i * 100 + k) as u16;
                        n.crit = Some(Crit {
                            key: Some(10_000 + key),
                            executor: true,
                            within: None,
                            statuses: JobStatus::ALL.to_vec(),
                            replace: Some(Rep { priority: true, statuses: JobStatus::ALL.to_vec(), ..Default::default() }),
                            shape: 1,
                        });
                        Op::Enqueue(n)
                    }
                    _ => match b.query(rexecutor::backend::Query::IdEquals(id.into())).await.map(|mut j| j.pop()) {
                        Ok(Some(mut j)) => {
                            j.priority = (i * 100 + k) as i32;
                            j.scheduled_at = now + TimeDelta::days(1);
                            Op::Update(j)
                        }
                        _ => {
                            bad.lock().unwrap().push(format!("job {id} is not found"));
                            continue;
                        }
                    },
                };
                let res = perform(&b, &op).await;
                ops.fetch_add(1, SeqCst);
                if !matches!(res, Res::Ok | Res::Id(_)) || matches!(res, Res::Id(x) if x != id) {
                    bad.lock().unwrap().push(format!("{op:?} on job {id} gave {res:?}"));
                }
                match op {
                    Op::Complete(_) => w.0 = JobStatus::Complete,
                    Op::Cancel(..) => (w.0, _) = (JobStatus::Cancelled, w.1.push(m)),
                    Op::Discard(..) => (w.0, _) = (JobStatus::Discarded, w.1.push(m)),
                    Op::Retry(..) => (w.0, _) = (JobStatus::Retryable, w.1.push(m)),
                    Op::Snooze(..) => (w.0, w.2) = (JobStatus::Scheduled, w.2 - 1),
                    Op::Rerun(_) => (w.0, w.3) = (JobStatus::Scheduled, w.3 + 1),
                    Op::Enqueue(n) => w.4 = n.priority.into(),
                    Op::Update(j) => w.4 = j.priority,
                    _ => {}
                }
                trace.push(what);
                // look at all of them now and then: nobody else touches them
                if k % 10 == 9 {
                    let Ok(t) = table(&b).await else { continue };
                    for (id, w) in &want {
                        let Some(j) = t.iter().find(|j| j.id == *id) else {
                            bad.lock().unwrap().push(format!("job {id} vanished"));
                            continue;
                        };
                        let same = if waiting(w.0) { waiting(j.status) } else { j.status == w.0 };
                        let msgs: Vec<&str> = j.errors.iter().map(|e| e.details.as_str()).collect();
                        if !same || msgs != w.1.iter().map(|s| s.as_str()).collect::<Vec<_>>() || (j.attempt, j.max_attempts, j.priority) != (w.2, w.3, w.4) {
                            bad.lock().unwrap().push(format!("job {id}, worked on by one thread only, should be {w:?} but is {j:?}"));
                        }
                    }
                }
            }
            done.fetch_add(1, SeqCst);
            trace
        })
    });
    let replay = json!({"workload": "stress:crowded", "case_seed": seed});
    for what in bad.into_inner().unwrap().into_iter().take(3) {
        obs.violate(&["C14", "C21", "C05"], what, replay.clone());
    }
    obs.count("operations_among_prunes", ops.load(SeqCst));
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&trace));
}

/// Threads enqueue with the same criteria at the same time.
pub fn unique(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let rounds = 12u64;
    let n = rng.range(2, 6) as usize;
    let b = InMemoryBackend::new();
    let existing = rng.pct(30);
    let mode = rng.below(4);
    let level = *rng.pick(&[3, 10, 40]);
    let now = Utc::now();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let crit = |k: u64, i: usize, shape: u64| Crit {
        key: (mode != 1).then_some(k),
        executor: mode != 0,
        within: (mode == 3).then_some(TimeDelta::hours(4)),
        statuses: JobStatus::ALL.to_vec(),
        replace: (i % 2 == 1).then(|| Rep { data: true, priority: true, metadata: true, statuses: vec![JobStatus::Scheduled], ..Default::default() }),
        shape,
    };
    // one executor per round, so that criteria without a key are per round too
    let name = |k: u64| format!("unique{k}");
    if existing {
        rt.block_on(async {
            for k in 0..rounds {
                let mut j = plain(&name(k), 999, now);
                j.crit = Some(crit(k, 0, 0));
                perform(&b, &Op::Enqueue(j)).await;
            }
        });
    }
    let before = rt.block_on(table(&b)).unwrap();
    let out: Vec<Vec<(u64, Res)>> = threads(n, seed, level, |i, rt| {
        rt.block_on(async {
            let mut r = Rng::new(hash_of((seed, i)));
            let mut out = vec![];
            for k in 0..rounds {
                let mut j = plain(&name(k), i as u64, now + TimeDelta::minutes(i as i64));
                j.priority = i as u16;
                j.metadata = json!(i);
                j.crit = Some(crit(k, i, r.next()));
                out.push((k, perform(&b, &Op::Enqueue(j)).await));
            }
            out
        })
    });
    let t = rt.block_on(table(&b)).unwrap();
    let replay = json!({"workload": "stress:unique", "case_seed": seed});
    let mut winners = vec![];
    for k in 0..rounds {
        let jobs: Vec<&BJob> = t.iter().filter(|j| j.executor == name(k)).collect();
        if jobs.len() != 1 {
            obs.violate(&["C13", "C14"], format!("{n} concurrent enqueues with the same criteria left {} jobs ({mode})", jobs.len()), replay.clone());
            continue;
        }
        let j = jobs[0];
        for (i, o) in out.iter().enumerate() {
            for (k2, r) in o {
                if *k2 == k && *r != Res::Id(j.id) {
                    obs.violate(&["C13", "C14"], format!("thread {i} got {r:?}, the only job is {}", j.id), replay.clone());
                }
            }
        }
        // the surviving values are those of one enqueue
        let d = j.data.as_u64().unwrap_or(u64::MAX);
        let p = j.priority as u64;
        let mt = j.metadata.as_u64();
        let orig_ok = d == 999 && p == 0 && mt.is_none();
        if !(orig_ok || (d == p && mt == Some(d) && d < n as u64)) {
            obs.violate(&["C13", "C14"], format!("job {} mixes the values of several enqueues: data {} priority {} metadata {}", j.id, j.data, j.priority, j.metadata), replay.clone());
        }
        if !existing {
            let sched = (j.scheduled_at - now).num_minutes();
            if (0..n as i64).contains(&sched) { winners.push((sched, d)); } else {
                obs.violate(&["C13", "C14"], format!("job {} has a schedule nobody asked for", j.id), replay.clone());
            }
        }
    }
    let _ = before;
    let ids: BTreeSet<i32> = t.iter().map(|j| j.id).collect();
    if ids.len() != t.len() {
        obs.violate(&["C13", "C14"], "two jobs share an id".to_string(), replay.clone());
    }
    obs.count("unique_rounds", rounds);
    obs.count("rounds_won_by_a_later_thread", winners.iter().filter(|w| w.0 != 0).count() as u64);
    obs.evaluations += 1;
    obs.distinct.insert(hash_of((&winners, n, mode, existing)));
    obs.sample(json!({"workload": "stress:unique", "case_seed": seed, "threads": n, "winner_and_last_replacement_by_round": winners}));
}

/// Counting arguments: nothing appended, counted or inserted concurrently may be lost, and queries
/// see multi-field changes and multi-job prunes as one step.
pub fn conserve(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let b = InMemoryBackend::new();
    let now = Utc::now();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let level = *rng.pick(&[4, 12, 50]);
    // 0: errors, 1: reruns, 2: versions, 3.. 3+G: a group pruned at once
    let group = 6;
    rt.block_on(async {
        for i in 0..3 {
            perform(&b, &Op::Enqueue(plain("conserve", i, now + TimeDelta::days(1)))).await;
        }
    });
    let t0 = rt.block_on(table(&b)).unwrap();
    let id = |i: usize| t0[i].id;
    let per = 12usize;
    let n = 6;
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let seen_versions = AtomicU64::new(0);
    let torn = AtomicU64::new(0);
    let new_ids: Mutex<Vec<i32>> = Mutex::new(vec![]);
    threads(n, seed, level, |i, rt| {
        rt.block_on(async {
            let mut r = Rng::new(hash_of((seed, i)));
            for k in 0..per {
                match i {
                    0 | 1 => {
                        let m = format!("{i}-{k}");
                        let res = if r.pct(50) {
                            perform(&b, &Op::Retry(id(0), now + TimeDelta::days(2), ErrorType::Timeout, m)).await
                        } else if r.pct(50) {
                            perform(&b, &Op::Cancel(id(0), ErrorType::Cancelled, m)).await
                        } else {
                            perform(&b, &Op::Discard(id(0), ErrorType::Panic, m)).await
                        };
                        let res2 = perform(&b, &Op::Rerun(id(1))).await;
                        if res != Res::Ok || res2 != Res::Ok {
                            bad.lock().unwrap().push(format!("{res:?} {res2:?}"));
                        }
                        // and enqueues
                        if let Res::Id(x) = perform(&b, &Op::Enqueue(plain("bulk", k as u64, now + TimeDelta::days(1)))).await {
                            new_ids.lock().unwrap().push(x);
                        }
                    }
                    2 => {
                        // the only writer of job 2: versions grow
                        let v = k as i32 + 1;
                        let mut j = t0[2].clone();
                        j.data = json!(v);
                        j.metadata = json!(v);
                        j.priority = v;
                        j.max_attempts = v;
                        j.tags = vec![v.to_string()];
                        j.scheduled_at = now + TimeDelta::days(1) + TimeDelta::seconds(v.into());
                        perform(&b, &Op::Update(j)).await;
                    }
                    3 => {
                        // a group of finished jobs appears and is pruned in one step
                        let mut gs = vec![];
                        for _ in 0..group {
                            if let Res::Id(x) = perform(&b, &Op::Enqueue(plain("group", k as u64, now - TimeDelta::days(9)))).await {
                                gs.push(x);
                            }
                        }
                        for g in &gs {
                            perform(&b, &Op::Complete(*g)).await;
                        }
                        let spec = PruneSpec {
                            status: JobStatus::Complete,
                            prune_by: if r.pct(50) { PruneBy::MaxLength(0) } else { PruneBy::MaxAge(TimeDelta::days(1)) },
                            executors: Spec::Only(vec!["group"]),
                        };
                        perform(&b, &Op::Prune(spec)).await;
                    }
                    _ => {
                        let Ok(t) = table(&b).await else { continue };
                        let mut ids: HashSet<i32> = HashSet::new();
                        for j in &t {
                            if !ids.insert(j.id) {
                                bad.lock().unwrap().push(format!("query returned job {} twice", j.id));
                            }
                        }
                        let Some(v) = t.iter().find(|j| j.id == id(2)) else {
                            bad.lock().unwrap().push("job 2 vanished".into());
                            continue;
                        };
                        if v.data != json!(2) || v.priority != 0 {
                            let x = v.priority;
                            let same = v.data == json!(x) && v.metadata == json!(x) && v.max_attempts == x && v.tags == vec![x.to_string()]
                                && v.scheduled_at == now + TimeDelta::days(1) + TimeDelta::seconds(x.into());
                            if !same {
                                bad.lock().unwrap().push(format!("a query showed a partly applied update: {v:?}"));
                            }
                            seen_versions.fetch_add(1, SeqCst);
                        }
                        let complete = t.iter().filter(|j| j.executor == "group" && j.status == JobStatus::Complete).count();
                        let waiting = t.iter().filter(|j| j.executor == "group" && j.status != JobStatus::Complete).count();
                        // completions happen one by one in order, so complete < group while some wait;
                        // once all are complete the prune removes them together
                        if waiting == 0 && complete != 0 && complete != group {
                            bad.lock().unwrap().push(format!("a query showed {complete} of {group} jobs which are pruned in one step"));
                        }
                        if complete > 0 {
                            torn.fetch_add(1, SeqCst);
                        }
                        for j in &t {
                            if j.id == id(0) && j.errors.len() > 2 * per {
                                bad.lock().unwrap().push("more errors than recorded".into());
                            }
                        }
                    }
                }
            }
        })
    });
    let replay = json!({"workload": "stress:conserve", "case_seed": seed});
    let t = rt.block_on(table(&b)).unwrap();
    let j = |i: usize| t.iter().find(|j| j.id == id(i));
    let mut bad = bad.into_inner().unwrap();
    match (j(0), j(1), j(2)) {
        (Some(a), Some(r), Some(v)) => {
            let msgs: BTreeSet<&str> = a.errors.iter().map(|e| e.details.as_str()).collect();
            if a.errors.len() != 2 * per || msgs.len() != 2 * per {
                bad.push(format!("{} failures recorded concurrently, {} entries on the job", 2 * per, a.errors.len()));
            }
            for i in 0..2 {
                let own: Vec<usize> = a.errors.iter().filter_map(|e| e.details.strip_prefix(&format!("{i}-")).and_then(|x| x.parse().ok())).collect();
                if own.windows(2).any(|w| w[0] > w[1]) {
                    bad.push(format!("errors of one thread out of order: {own:?}"));
                }
            }
            if r.max_attempts != 5 + 2 * per as i32 {
                bad.push(format!("{} concurrent reruns changed max_attempts from 5 to {}", 2 * per, r.max_attempts));
            }
            if v.data != json!(per) {
                bad.push(format!("the last update is not visible: {v:?}"));
            }
        }
        _ => bad.push("jobs vanished".into()),
    }
    let ids = new_ids.into_inner().unwrap();
    let set: BTreeSet<i32> = ids.iter().copied().collect();
    if set.len() != ids.len() || ids.len() != 2 * per {
        bad.push(format!("{} enqueues returned {} distinct ids", ids.len(), set.len()));
    }
    if t.iter().filter(|j| j.executor == "bulk").count() != 2 * per {
        bad.push(format!("{} of {} enqueued jobs are there", t.iter().filter(|j| j.executor == "bulk").count(), 2 * per));
    }
    for what in bad {
        obs.violate(&["C14"], what, replay.clone());
    }
    obs.count("queries_that_saw_an_update", seen_versions.load(SeqCst));
    obs.count("queries_that_saw_a_prune_group", torn.load(SeqCst));
    obs.evaluations += 1;
    obs.distinct.insert(hash_of((&ids, seen_versions.load(SeqCst))));
}

#[derive(Debug, Clone)]
struct Call {
    thread: usize,
    inv: u64,
    ret: u64,
    t: T,
    op: Op,
    res: Res,
}

/// Small random histories of all operations, checked for linearizability against the model.
pub fn linear(unique_pct: u64, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let b = InMemoryBackend::new();
    let now = Utc::now();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let n = rng.range(2, 4) as usize;
    let per = rng.range(2, if n == 2 { 6 } else { 4 }) as usize;
    let level = *rng.pick(&[3, 10, 30]);
    let mut m = Model { tol: TimeDelta::seconds(60), lenient_waiting: true, ..Model::new() };
    // distinct schedule times hours apart, all in the past (due) or far in the future
    let times: Vec<T> = (0..6).map(|i| now + TimeDelta::hours(if i < 4 { -(i as i64) - 2 } else { i as i64 * 10 })).collect();
    // no two jobs share a time, so that a prune by length has no ties to break
    let times = |r: &mut Rng| *r.pick(&times) + TimeDelta::microseconds(r.below(1_000_000_000) as i64);
    let pre = rng.range(0, 3);
    let gen_new = |r: &mut Rng, seed: u64| New {
        executor: ["lin_a", "lin_b"][(r.below(10) < 3) as usize].to_owned(),
        data: json!(seed % 1000),
        metadata: json!(r.below(100)),
        max_attempts: r.range(1, 4) as u16,
        scheduled_at: times(r),
        tags: vec![format!("t{}", r.below(3))],
        priority: r.below(3) as u16,
        crit: r.pct(unique_pct).then(|| Crit {
            key: Some(r.below(2)),
            executor: r.pct(30),
            within: None,
            statuses: if r.pct(50) { JobStatus::ALL.to_vec() } else { vec![JobStatus::Scheduled, JobStatus::Retryable] },
            replace: r.pct(70).then(|| Rep {
                scheduled_at: r.pct(40), data: r.pct(40), metadata: r.pct(40), priority: r.pct(40), max_attempts: r.pct(40),
                statuses: if r.pct(50) { JobStatus::ALL.to_vec() } else { vec![JobStatus::Scheduled, JobStatus::Retryable] },
            }),
            shape: r.next(),
        }),
    };
    rt.block_on(async {
        for _ in 0..pre {
            let x = rng.next();
            let op = Op::Enqueue(gen_new(&mut rng, x));
            let res = perform(&b, &op).await;
            m.apply(&op, &res, None, now);
            if rng.pct(40) {
                let e = if rng.pct(70) { "lin_a" } else { "lin_b" };
                let res = Res::Claimed(claim_one(&b, e).await);
                m.apply(&Op::Claim(e.into()), &res, None, now);
            }
        }
    });
    let ids: Vec<i32> = m.rows.keys().copied().collect();
    let table0: Vec<BJob> = m.rows.values().map(|r| r.job.clone()).collect();
    let clock = AtomicU64::new(0);
    let hist: Vec<Vec<Call>> = threads(n, seed, level, |i, rt| {
        rt.block_on(async {
            let mut r = Rng::new(hash_of((seed, i, "lin")));
            let mut known = ids.clone();
            let mut executing: Vec<i32> = table0.iter().filter(|j| j.status == JobStatus::Executing).map(|j| j.id).collect();
            let mut last: Vec<BJob> = table0.clone();
            let mut out = vec![];
            for k in 0..per {
                let pick = |r: &mut Rng, v: &Vec<i32>| if v.is_empty() || r.pct(5) { 4242 } else { *r.pick(v) };
                let op = match r.below(12) {
                    0..=2 => Op::Enqueue(gen_new(&mut r, hash_of((seed, i, k)))),
                    3 | 4 => Op::Claim(if r.pct(70) { "lin_a" } else { "lin_b" }.into()),
                    5 if !executing.is_empty() => {
                        let id = pick(&mut r, &executing);
                        match r.below(4) {
                            0 => Op::Complete(id),
                            1 => Op::Retry(id, times(&mut r), ErrorType::Timeout, format!("{i}{k}")),
                            2 => Op::Discard(id, ErrorType::Panic, format!("{i}{k}")),
                            _ => Op::Snooze(id, times(&mut r)),
                        }
                    }
                    6 => Op::Cancel(pick(&mut r, &known), ErrorType::Cancelled, format!("{i}{k}")),
                    7 => Op::Rerun(pick(&mut r, &known)),
                    8 if !last.is_empty() => {
                        let mut j = r.pick(&last).clone();
                        j.priority = r.range(0, 3) as i32;
                        j.data = json!(format!("u{i}{k}"));
                        if r.pct(50) {
                            j.scheduled_at = times(&mut r);
                        }
                        Op::Update(j)
                    }
                    9 if r.pct(40) => Op::Prune(PruneSpec {
                        status: *r.pick(&JobStatus::ALL),
                        prune_by: if r.pct(50) { PruneBy::MaxLength(r.below(2) as u32) } else { PruneBy::MaxAge(TimeDelta::minutes(150)) },
                        executors: Spec::Except(vec![]),
                    }),
                    _ => Op::Query(match r.below(4) {
                        0 => Q::Executor("lin_a".into()),
                        1 => Q::TagsAny(vec!["t0".into(), "t1".into()]),
                        _ => Q::And(vec![]),
                    }),
                };
                let t = Utc::now();
                let inv = clock.fetch_add(1, SeqCst);
                let res = match &op {
                    Op::Claim(e) => Res::Claimed(claim_one(&b, if e == "lin_a" { "lin_a" } else { "lin_b" }).await),
                    _ => perform(&b, &op).await,
                };
                let ret = clock.fetch_add(1, SeqCst);
                match &res {
                    Res::Id(id) => known.push(*id),
                    Res::Claimed(Some(j)) => executing.push(j.id),
                    Res::Jobs(js) => last = js.clone(),
                    _ => {}
                }
                out.push(Call { thread: i, inv, ret, t, op, res });
            }
            out
        })
    });
    let mut calls: Vec<Call> = hist.into_iter().flatten().collect();
    calls.sort_by_key(|c| c.inv);
    // the final table is one more query after everything
    let fin = rt.block_on(table(&b)).unwrap();
    let e = clock.load(SeqCst);
    calls.push(Call { thread: n, inv: e, ret: e + 1, t: Utc::now(), op: Op::Query(Q::And(vec![])), res: Res::Jobs(fin) });
    let overlaps = calls.iter().enumerate().map(|(i, a)| calls[i + 1..].iter().filter(|b| b.inv < a.ret).count()).sum::<usize>();
    obs.count("overlapping_operation_pairs", overlaps as u64);
    obs.count("operations_in_histories", calls.len() as u64);
    let mut search = Search { calls: &calls, seen: HashSet::new(), nodes: 0, best: 0, limit: 400_000 };
    let ok = search.go(0, &m);
    let (nodes, best) = (search.nodes, search.best);
    obs.max("max_search_nodes", nodes);
    obs.evaluations += 1;
    let sig: Vec<(usize, u64)> = calls.iter().map(|c| (c.thread, hash_of(crate::conf::op_name(&c.op)))).collect();
    if overlaps > 0 {
        obs.distinct.insert(hash_of((&sig, overlaps)));
    }
    if !ok {
        if nodes >= search.limit {
            obs.count("linearizability_searches_given_up", 1);
            return;
        }
        let h: Vec<String> = calls.iter().map(|c| format!("thread {} [{}..{}] {:?} -> {:?}", c.thread, c.inv, c.ret, c.op, c.res)).collect();
        obs.violate(
            &["C14", "C13", "C01"],
            format!("history of {} operations is not linearizable (at most {best} can be ordered)", calls.len()),
            json!({"workload": "stress:linear", "case_seed": seed, "history": h}),
        );
    } else {
        let h: Vec<String> = calls.iter().take(4).map(|c| format!("thread {} [{}..{}] {}", c.thread, c.inv, c.ret, crate::conf::op_name(&c.op))).collect();
        obs.sample(json!({"workload": "stress:linear", "case_seed": seed, "operations": calls.len(), "overlapping_pairs": overlaps, "history_start": h}));
    }
}

struct Search<'a> {
    calls: &'a [Call],
    seen: HashSet<(u32, u64)>,
    nodes: u64,
    best: u32,
    limit: u64,
}

impl Search<'_> {
    fn go(&mut self, done: u32, m: &Model) -> bool {
        let n = self.calls.len();
        self.best = self.best.max(done.count_ones());
        if done.count_ones() as usize == n {
            return true;
        }
        self.nodes += 1;
        if self.nodes >= self.limit {
            return false;
        }
        let key = (done, hash_of(format!("{:?}", m.rows)));
        if !self.seen.insert(key) {
            return false;
        }
        // an operation may come next if no other undone operation returned before it was invoked
        let first_ret = (0..n).filter(|i| done & (1 << i) == 0).map(|i| self.calls[i].ret).min().unwrap();
        for i in 0..n {
            if done & (1 << i) != 0 || self.calls[i].inv > first_ret {
                continue;
            }
            let c = &self.calls[i];
            let after = match (&c.op, &c.res) {
                // ties in a prune are resolved by trying; the model takes the forced ones
                (Op::Prune(_), _) => None,
                _ => None,
            };
            let mut m2 = m.clone();
            if m2.apply(&c.op, &c.res, after, c.t).is_empty() && self.go(done | (1 << i), &m2) {
                return true;
            }
        }
        false
    }
}

/// What a script leads to when nothing interferes: number of executions, status, errors.
pub fn predict(p: &Payload, max_attempts: u16, start: usize) -> (usize, JobStatus, Vec<(u16, ErrorType, Option<String>)>, i32) {
    let mut attempt = 0u16;
    let mut ordinal = start;
    let mut errors = vec![];
    loop {
        attempt += 1;
        let Some(step) = step_of(p, ordinal) else { return (ordinal - start + 1, JobStatus::Complete, errors, attempt.into()) };
        ordinal += 1;
        let (e, m) = match &step.outcome {
            Outcome::Done => return (ordinal - start, JobStatus::Complete, errors, attempt.into()),
            Outcome::Cancel(r) => {
                errors.push((attempt, ErrorType::Cancelled, Some(r.clone())));
                return (ordinal - start, JobStatus::Cancelled, errors, attempt.into());
            }
            Outcome::SnoozeMs(_) => {
                attempt -= 1;
                continue;
            }
            Outcome::Error(k, m) => (ErrorType::Other(ERR_TYPES[*k as usize % 4].into()), Some(m.clone())),
            Outcome::Panic(k, m) => (ErrorType::Panic, (*k < 2).then(|| m.clone())),
            Outcome::Hang => (ErrorType::Timeout, None),
        };
        errors.push((attempt, e, m));
        if attempt >= max_attempts {
            return (ordinal - start, JobStatus::Discarded, errors, attempt.into());
        }
    }
}

/// Several instances on a multi-threaded runtime in real time; the final table and the execution log
/// must be exactly what the scripts predict.
pub fn system(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let run = Run::new();
    let log = run.log.clone();
    let run_id = run.id;
    let b = InMemoryBackend::new();
    let n_jobs = rng.range(30, 150) as u64;
    let stop_some = rng.pct(50);
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(6)
        .enable_all()
        .on_thread_start({
            let c = AtomicU64::new(seed | 1);
            move || chaos::enroll(c.fetch_add(2, SeqCst))
        })
        .build()
        .unwrap();
    chaos::set_level(*rng.pick(&[15, 60, 200]));
    let execs = [0usize, 1, 2, 3, 4, 5, 6, 7];
    let mut expected: BTreeMap<i32, (Payload, u16, usize)> = BTreeMap::new();
    let replay = json!({"workload": "stress:system", "case_seed": seed});
    let timeout = rt.block_on(async {
        let mut guards = vec![];
        for i in 0..3 {
            let mut r = Rexecutor::new(crate::rec::Rec::new(b.clone(), i, log.clone()));
            for e in execs {
                r = with_ex!(e, E => r.with_executor::<E>());
            }
            guards.push(Some(r.drop_guard()));
        }
        let updater = {
            let b = b.clone();
            let mut r = rng.fork();
            tokio::spawn(async move {
                // interfering but harmless management: stale updates of metadata, unique conflicts, queries
                for _ in 0..60 {
                    if let Ok(t) = table(&b).await {
                        if !t.is_empty() {
                            let mut j = r.pick(&t).clone();
                            tokio::task::yield_now().await;
                            if waiting(j.status) {
                                // keep the schedule it has now unless it changed meanwhile
                                j.priority = r.range(0, 5) as i32;
                            }
                            let cur = table(&b).await.ok().and_then(|t| t.into_iter().find(|x| x.id == j.id));
                            if let Some(cur) = cur {
                                j.scheduled_at = cur.scheduled_at;
                                let _ = b.update_job(j).await;
                            }
                        }
                    }
                    tokio::time::sleep(Duration::from_micros(300)).await;
                }
            })
        };
        for i in 0..n_jobs {
            let ex = *rng.pick(&execs);
            let blocking = CFGS[ex].blocking;
            let n = *rng.pick(&[1, 1, 2, 3]);
            let steps = (0..n)
                .map(|k| Step {
                    slices_ms: if rng.pct(60) { vec![] } else { vec![rng.below(4)] },
                    outcome: if k == n - 1 {
                        match rng.below(6) {
                            0 => Outcome::Cancel(format!("c{i}")),
                            1 => Outcome::Error(1, format!("e{i}")),
                            _ => Outcome::Done,
                        }
                    } else {
                        match rng.below(4) {
                            0 => Outcome::SnoozeMs(rng.range(0, 3)),
                            1 => Outcome::Panic(rng.below(3) as u8, format!("p{i}")),
                            _ => Outcome::Error(rng.below(4) as u8, format!("e{i}")),
                        }
                    },
                })
                .collect();
            let _ = blocking;
            let p = Payload { run: run_id, key: i, version: 0, steps, backoffs_ms: vec![rng.range(0, 4)], timeouts_ms: vec![] };
            let max = rng.range(1, 4) as u16;
            let data = p.clone();
            let at = Utc::now() + TimeDelta::milliseconds(rng.range(-5, 25));
            let id = with_ex!(ex, E => E::builder().with_data(data).with_max_attempts(max).schedule_at(at).with_priority((i % 4) as u16).enqueue_to_backend(&b).await);
            match id {
                Ok(id) => {
                    expected.insert(id.into(), (p, max, ex));
                }
                Err(e) => obs.violate(&["C20"], format!("enqueue failed: {e:?}"), replay.clone()),
            }
            if rng.pct(10) {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if stop_some && i == n_jobs / 2 {
                guards[0] = None;
                log.push(Ev::Down { inst: 0 });
            }
        }
        let t0 = Instant::now();
        let mut done = false;
        let mut last = (0, t0);
        while t0.elapsed() < Duration::from_secs(100) && last.1.elapsed() < Duration::from_secs(40) {
            let n = log.events.lock().unwrap().len();
            if n != last.0 {
                last = (n, Instant::now());
            }
            if let Ok(t) = table(&b).await {
                if expected.keys().all(|id| t.iter().any(|j| j.id == *id && terminal(j.status))) {
                    done = true;
                    break;
                }
            }
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        let _ = updater.await;
        // anything executed twice would show up now
        tokio::time::sleep(Duration::from_millis(5)).await;
        !done
    });
    chaos::set_level(0);
    let t = rt.block_on(table(&b)).unwrap();
    log.closed.store(true, SeqCst);
    rt.shutdown_timeout(Duration::from_secs(10));
    let events = std::mem::take(&mut *log.events.lock().unwrap());
    let mut starts: BTreeMap<i32, usize> = BTreeMap::new();
    let mut active: BTreeSet<i32> = BTreeSet::new();
    let mut inflight: BTreeMap<(usize, usize), BTreeSet<i32>> = BTreeMap::new();
    let mut owner: BTreeMap<i32, (usize, usize)> = BTreeMap::new();
    let mut down = None;
    let mut order = vec![];
    for e in &events {
        match &e.ev {
            Ev::Claim { inst, job } => {
                let ex = CFGS.iter().position(|c| c.name == job.executor).unwrap_or(0);
                let s = inflight.entry((*inst, ex)).or_default();
                s.insert(job.id);
                owner.insert(job.id, (*inst, ex));
                obs.max(&format!("max_inflight_{}", CFGS[ex].name), s.len() as u64);
                if CFGS[ex].max_concurrency.is_some_and(|l| s.len() > l) {
                    obs.violate(&["C09"], format!("instance {inst} has {} jobs of {} in flight", s.len(), CFGS[ex].name), replay.clone());
                }
                if *inst == 0 && down.is_some_and(|d| e.t - d > TimeDelta::milliseconds(3_000)) {
                    obs.violate(&["C11"], format!("instance 0 took job {} long after its shutdown", job.id), replay.clone());
                }
                let late = e.t - job.scheduled_at.max(job.inserted_at);
                obs.max("max_real_start_delay_ms", late.num_milliseconds().max(0) as u64);
                if CFGS[ex].max_concurrency.is_none() && !timeout && late > TimeDelta::seconds(8) {
                    obs.violate(&["C02"], format!("job {} of an unlimited executor was handed out {late} after it became due", job.id), replay.clone());
                }
                if job.scheduled_at - e.t > EARLY + TimeDelta::milliseconds(5) {
                    obs.violate(&["C03"], format!("job {} handed out {} early", job.id, job.scheduled_at - e.t), replay.clone());
                }
            }
            Ev::Down { .. } => down = Some(e.t),
            Ev::Start { job, .. } => {
                let id: i32 = job.id.into();
                *starts.entry(id).or_default() += 1;
                order.push(id);
                if !active.insert(id) {
                    obs.violate(&["C01"], format!("two executions of job {id} at the same time"), replay.clone());
                }
            }
            Ev::End { id, .. } | Ev::Dropped { id, .. } => {
                active.remove(id);
                if let Some(o) = owner.get(id) {
                    inflight.get_mut(o).unwrap().remove(id);
                }
            }
            _ => {}
        }
    }
    if timeout {
        let left: Vec<_> = t.iter().filter(|j| !terminal(j.status)).map(|j| (j.id, j.status, j.attempt)).collect();
        let mut p = vec!["C02", "C08", "C01"];
        if down.is_some() {
            p.push("C11");
        }
        obs.count("stalled", 1);
        obs.violate(&p, format!("jobs never finished: {left:?}"), replay.clone());
        return;
    }
    for (id, (p, max, _)) in &expected {
        let (n, status, errors, attempt) = predict(p, *max, 0);
        let got = starts.get(id).copied().unwrap_or(0);
        if got != n {
            obs.violate(&["C01", "C06"], format!("job {id} was executed {got} times, its script needs {n}"), replay.clone());
            continue;
        }
        let Some(j) = t.iter().find(|j| j.id == *id) else {
            obs.violate(&["C14", "C20"], format!("job {id} vanished"), replay.clone());
            continue;
        };
        let es: Vec<_> = j.errors.iter().map(|e| (e.attempt, e.error_type.clone(), e.details.clone())).collect();
        let same = es.len() == errors.len() && es.iter().zip(&errors).all(|(a, w)| a.0 == w.0 && a.1 == w.1 && w.2.as_ref().is_none_or(|m| *m == a.2));
        if j.status != status || !same || j.attempt != attempt {
            obs.violate(&["C05", "C06", "C14", "C01"], format!("job {id} ended as {:?} attempt {} errors {es:?}, expected {status:?} attempt {attempt} errors {errors:?}", j.status, j.attempt), replay.clone());
        }
    }
    obs.count("real_time_executions", order.len() as u64);
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&order));
}

/// Blocking and asynchronous executors with timeouts in real time.
pub fn timeouts(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let run = Run::new();
    let log = run.log.clone();
    let run_id = run.id;
    let b = InMemoryBackend::new();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let mut expected: BTreeMap<i32, (Payload, u16)> = BTreeMap::new();
    let replay = json!({"workload": "stress:timeouts", "case_seed": seed});
    let finished = rt.block_on(async {
        let mut r = Rexecutor::new(b.clone());
        for e in [0usize, 4, 7] {
            r = with_ex!(e, E => r.with_executor::<E>());
        }
        let _guard = r.drop_guard();
        for i in 0..rng.range(4, 9) as u64 {
            let ex = *rng.pick(&[0usize, 4, 4, 7]);
            let max = rng.range(1, 2) as u16;
            // either hopelessly over or comfortably within the timeout, per attempt
            let mut steps = vec![];
            let mut timeouts_ms = vec![];
            for _ in 0..max {
                let over = rng.pct(50);
                steps.push(Step {
                    slices_ms: if over { vec![] } else { vec![rng.below(8)] },
                    outcome: if over { Outcome::Hang } else { match rng.below(3) { 0 => Outcome::Error(0, format!("e{i}")), 1 => Outcome::Panic(1, format!("p{i}")), _ => Outcome::Done } },
                });
                timeouts_ms.push(if over { Some(rng.range(20, 120) as u64) } else { *rng.pick(&[None, Some(30_000)]) });
            }
            let p = Payload { run: run_id, key: i, version: 0, steps, backoffs_ms: vec![0], timeouts_ms };
            let data = p.clone();
            let id = with_ex!(ex, E => E::builder().with_data(data).with_max_attempts(max).enqueue_to_backend(&b).await);
            if let Ok(id) = id {
                expected.insert(id.into(), (p, max));
            }
        }
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(30) {
            if let Ok(t) = table(&b).await {
                if t.iter().all(|j| terminal(j.status)) {
                    return true;
                }
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        false
    });
    let t = rt.block_on(table(&b)).unwrap();
    log.closed.store(true, SeqCst);
    let events = std::mem::take(&mut *log.events.lock().unwrap());
    if !finished {
        // executions that never end keep their thread: do not wait for them
        rt.shutdown_background();
        let left: Vec<_> = t.iter().filter(|j| !terminal(j.status)).map(|j| (j.id, j.status, j.executor.clone())).collect();
        obs.count("stalled", 1);
        obs.violate(&["C10", "C08"], format!("jobs still not stopped 30 s after start, timeouts below 0.2 s: {left:?}"), replay);
        return;
    }
    rt.shutdown_timeout(Duration::from_secs(10));
    let mut started: BTreeMap<(i32, usize), T> = BTreeMap::new();
    for e in &events {
        match &e.ev {
            Ev::Start { job, ordinal } => {
                started.insert((job.id.into(), *ordinal), e.t);
            }
            Ev::Dropped { id, ordinal } => {
                let s = started[&(*id, *ordinal)];
                let (p, _) = &expected[id];
                match p.timeouts_ms[*ordinal] {
                    Some(ms) if step_of(p, *ordinal).unwrap().outcome == Outcome::Hang => {
                        let took = (e.t - s).num_milliseconds();
                        obs.count("real_timeouts", 1);
                        if took < ms as i64 - 20 || took > ms as i64 + 10_000 {
                            obs.violate(&["C10"], format!("execution of job {id} was stopped after {took} ms, timeout {ms} ms"), replay.clone());
                        }
                    }
                    _ => obs.violate(&["C10"], format!("execution {ordinal} of job {id} was stopped although it was in time"), replay.clone()),
                }
            }
            _ => {}
        }
    }
    for (id, (p, max)) in &expected {
        let (_, status, errors, attempt) = predict(p, *max, 0);
        let Some(j) = t.iter().find(|j| j.id == *id) else { continue };
        let es: Vec<_> = j.errors.iter().map(|e| (e.attempt, e.error_type.clone(), e.details.clone())).collect();
        let same = es.len() == errors.len() && es.iter().zip(&errors).all(|(a, w)| a.0 == w.0 && a.1 == w.1 && w.2.as_ref().is_none_or(|m| *m == a.2));
        if j.status != status || !same || j.attempt != attempt {
            obs.violate(&["C10", "C05"], format!("job {id} ({}) ended as {:?} errors {es:?}, expected {status:?} errors {errors:?}", j.executor, j.status), replay.clone());
        }
    }
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(expected.values().map(|(p, m)| (p.steps.clone(), *m)).collect::<Vec<_>>()));
}
