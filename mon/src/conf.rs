//! Sequential conformance: random operation sequences on the real in-memory backend under virtual
//! time, with the reference model as the monitor; the complete table is compared after every step.
use crate::exec::BJob;
use crate::generate::*;
use crate::model::*;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use chrono::{TimeDelta, Utc};
use futures::StreamExt;
use rexecutor::backend::Backend;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::{ErrorType, JobStatus};
use serde_json::json;
use std::sync::Arc;
use std::time::Duration;

/// Relative weights of the operations.
#[derive(Clone, Copy)]
pub struct Profile {
    pub name: &'static str,
    pub enqueue: u64,
    pub unique_pct: u64,
    pub claim: u64,
    pub finish: u64,
    pub cancel: u64,
    pub rerun: u64,
    pub update: u64,
    pub prune: u64,
    pub query: u64,
    pub unknown_pct: u64,
    pub steps: (i64, i64),
    /// One or two jobs that fail hundreds of times.
    pub history: bool,
}

pub const BASE: Profile = Profile {
    name: "mixed", enqueue: 30, unique_pct: 30, claim: 25, finish: 25, cancel: 5, rerun: 5, update: 8, prune: 3, query: 10,
    unknown_pct: 5, steps: (20, 90), history: false,
};

/// What the properties say about a table difference after an operation.
fn tags_of(op: &Op, fields: &[&str]) -> Vec<&'static str> {
    let mut t = match op {
        Op::Enqueue(n) if n.crit.is_some() => vec!["C12", "C20", "C13"],
        Op::Enqueue(_) => vec!["C20"],
        Op::Complete(_) | Op::Retry(..) | Op::Discard(..) | Op::Snooze(..) => vec!["C05", "C21"],
        Op::Cancel(..) => vec!["C21", "C05"],
        Op::Rerun(_) => vec!["C07", "C21"],
        Op::Update(_) => vec!["C21"],
        Op::Prune(_) => vec!["C16"],
        Op::Query(_) => vec!["C15"],
        Op::Claim(_) => vec!["C01", "C20"],
    };
    if fields.contains(&"attempt") || fields.contains(&"max_attempts") {
        t.push("C06");
    }
    if fields.contains(&"errors") {
        t.push("C05");
    }
    t.push("C14");
    t
}

fn extra_tags(p: &'static str, op: &Op) -> Vec<&'static str> {
    let mut v = vec![p];
    match (p, op) {
        // a wrong result of a raw operation also refutes that operations act like the sequential ones
        ("C12", _) => v.push("C13"),
        ("C21", Op::Complete(_) | Op::Retry(..) | Op::Discard(..) | Op::Snooze(..)) => v.push("C05"),
        ("C21", Op::Rerun(_)) => v.push("C07"),
        ("C20", Op::Claim(_)) => v.push("C01"),
        _ => {}
    }
    v.push("C14");
    v
}

struct Handles {
    raw: InMemoryBackend,
    arc: Arc<InMemoryBackend>,
    boxed: Box<InMemoryBackend>,
    nested: Arc<Box<InMemoryBackend>>,
    dynamic: Arc<dyn Backend + Send + Sync>,
}

impl Handles {
    fn new(b: InMemoryBackend) -> Self {
        Self {
            arc: Arc::new(b.clone()),
            boxed: Box::new(b.clone()),
            nested: Arc::new(Box::new(b.clone())),
            dynamic: Arc::new(b.clone()),
            raw: b,
        }
    }
    async fn perform(&self, h: u64, op: &Op) -> Res {
        match h {
            0 => perform(&self.raw, op).await,
            1 => perform(&self.arc, op).await,
            2 => perform(&self.boxed, op).await,
            3 => perform(&&self.raw, op).await,
            4 => perform(&self.nested, op).await,
            _ => perform(&*self.dynamic, op).await,
        }
    }
    async fn subscribe(&self, h: u64, e: &'static str) -> ReadyStream {
        let e = ExecutorIdentifier::from(e);
        match h {
            0 => self.raw.subscribe_ready_jobs(e).await,
            1 => self.arc.subscribe_ready_jobs(e).await,
            2 => self.boxed.subscribe_ready_jobs(e).await,
            3 => (&&self.raw).subscribe_ready_jobs(e).await,
            4 => self.nested.subscribe_ready_jobs(e).await,
            _ => self.dynamic.subscribe_ready_jobs(e).await,
        }
    }
}

type ReadyStream =
    std::pin::Pin<Box<dyn futures::Stream<Item = Result<BJob, rexecutor::backend::BackendError>> + Send>>;

/// Polls the stream without letting time pass.
async fn poll_stream(s: &mut ReadyStream) -> Res {
    for _ in 0..3 {
        let r = futures::future::poll_fn(|cx| std::task::Poll::Ready(s.poll_next_unpin(cx))).await;
        match r {
            std::task::Poll::Ready(Some(Ok(j))) => return Res::Claimed(Some(j)),
            std::task::Poll::Ready(Some(Err(e))) => return Res::Err(format!("{e:?}")),
            std::task::Poll::Ready(None) => return Res::Err("end of stream".into()),
            std::task::Poll::Pending => {}
        }
        tokio::task::yield_now().await;
    }
    Res::Claimed(None)
}

/// The next operation on one or two jobs that fail hundreds of times.
pub fn history_op(rng: &mut Rng, g: &mut Gen, now: T, rows: &[BJob]) -> Option<Op> {
    if rows.len() < 2 && rng.pct(if rows.is_empty() { 100 } else { 1 }) {
        let mut n = g.new_job(now, &[], 0);
        n.scheduled_at = now;
        n.max_attempts = u16::MAX;
        return Some(Op::Enqueue(n));
    }
    if rng.pct(3) {
        return Some(Op::Query(g.query(2, now, rows)));
    }
    if let Some(j) = rows.iter().find(|j| j.status == JobStatus::Executing) {
        let id = j.id;
        return Some(match rng.below(60) {
            0 => Op::Cancel(id, ErrorType::Cancelled, g.text()),
            1 => Op::Discard(id, g.error_type(), g.text()),
            2 => Op::Complete(id),
            3 | 4 => Op::Snooze(id, now),
            _ => Op::Retry(id, now, g.error_type(), g.text()),
        });
    }
    if let Some(j) = rows.iter().find(|j| terminal(j.status)) {
        return Some(Op::Rerun(j.id));
    }
    Some(Op::Claim(rng.pick(rows).executor.clone()))
}

pub fn case(p: Profile, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = crate::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let steps = rng.range(p.steps.0, p.steps.1);
    let wrapped = rng.pct(60);
    let mut kinds = vec![];
    let replay = json!({"workload": format!("conf:{}", p.name), "case_seed": seed});
    let mut log: Vec<String> = vec![];
    crate::vclock::run_virtual(base, async {
        let mut g = Gen::new(rng.fork());
        let h = Handles::new(InMemoryBackend::new());
        let mut m = Model::new();
        let mut streams: Vec<(String, ReadyStream)> = vec![];
        let mut rows: Vec<BJob> = vec![];
        for step in 0..steps {
            // let time pass
            if rng.pct(40) {
                let ms = *rng.pick(&[1, 7, 49, 100, 999, 1_000, 5_000, 60_000, 3_600_000]);
                tokio::time::advance(Duration::from_millis(ms)).await;
            }
            let now = Utc::now();
            let total = p.enqueue + p.claim + p.finish + p.cancel + p.rerun + p.update + p.prune + p.query;
            let mut x = rng.below(total);
            let mut take = |w: u64| {
                let hit = x < w;
                x = x.wrapping_sub(if hit { 0 } else { w });
                hit
            };
            let unknown = |rng: &mut Rng| rng.range(-3, 4) as i32 * 1000 + 777;
            let any_id = |rng: &mut Rng, f: &dyn Fn(&BJob) -> bool| -> Option<i32> {
                if rng.pct(p.unknown_pct) {
                    return Some(unknown(rng));
                }
                let c: Vec<i32> = rows.iter().filter(|j| f(j)).map(|j| j.id).collect();
                (!c.is_empty()).then(|| *rng.pick(&c))
            };
            let op = if p.history {
                history_op(&mut rng, &mut g, now, &rows)
            } else if take(p.enqueue) {
                Some(Op::Enqueue(g.new_job(now, &rows, p.unique_pct)))
            } else if take(p.claim) {
                Some(Op::Claim(rng.pick(&EXECUTORS[..4]).to_string()))
            } else if take(p.finish) {
                any_id(&mut rng, &|j| j.status == JobStatus::Executing).map(|id| match rng.below(5) {
                    0 => Op::Complete(id),
                    1 => Op::Retry(id, g.time(now, &rows), g.error_type(), g.text()),
                    2 => Op::Discard(id, g.error_type(), g.text()),
                    3 => Op::Snooze(id, g.time(now, &rows)),
                    _ => Op::Cancel(id, ErrorType::Cancelled, g.text()),
                })
            } else if take(p.cancel) {
                any_id(&mut rng, &|j| j.status != JobStatus::Executing).map(|id| Op::Cancel(id, ErrorType::Cancelled, g.text()))
            } else if take(p.rerun) {
                any_id(&mut rng, &|j| terminal(j.status)).map(Op::Rerun)
            } else if take(p.update) {
                any_id(&mut rng, &|_| true).map(|id| {
                    let t = rows.iter().find(|j| j.id == id).cloned().unwrap_or_else(|| new_job(id, now));
                    let mut u = g.update(&t, now, &rows);
                    if rng.pct(60) {
                        g.stale(&mut u, now);
                    }
                    Op::Update(u)
                })
            } else if take(p.prune) {
                Some(Op::Prune(g.prune(now, &rows)))
            } else {
                let d = rng.below(5) as u32;
                Some(Op::Query(g.query(d, now, &rows)))
            };
            let Some(op) = op else { continue };
            let via = if wrapped { rng.below(6) } else { 0 };
            log.push(format!("{step} {now} via {via}: {op:?}"));
            let r = match &op {
                Op::Claim(e) => {
                    // fresh subscription or one that has been waiting
                    let i = match streams.iter().position(|s| s.0 == *e) {
                        Some(i) if rng.pct(85) => i,
                        _ => {
                            let name = EXECUTORS.iter().find(|x| **x == e.as_str()).unwrap();
                            streams.push((e.clone(), h.subscribe(via, name).await));
                            streams.len() - 1
                        }
                    };
                    poll_stream(&mut streams[i].1).await
                }
                _ => h.perform(via, &op).await,
            };
            let after = match table(&h.raw).await {
                Ok(t) => t,
                Err(e) => {
                    obs.violate(&["C15", "C14"], format!("query of all jobs failed: {e:?}"), replay.clone());
                    return;
                }
            };
            let now2 = Utc::now();
            if now2 != now {
                obs.errors.push("time passed during an operation".into());
                return;
            }
            let mut seen = vec![];
            let bad = m.apply(&op, &r, Some(&after), now);
            let n_bad = bad.len();
            for (prop, what) in bad {
                let mut t = extra_tags(prop, &op);
                if via != 0 {
                    t.push("C21");
                }
                seen.push((t, what));
            }
            for (_, fields, what) in m.compare(&after) {
                let mut t = tags_of(&op, &fields);
                if via != 0 {
                    t.push("C21");
                }
                seen.push((t, format!("after {op:?}: {what}")));
            }
            kinds.push(match &op {
                Op::Enqueue(n) => match (&n.crit, &r) {
                    (None, _) => 0u64,
                    (Some(c), Res::Id(id)) => {
                        let fresh = rows.iter().all(|j| j.id != *id);
                        1 + hash_of((fresh, c.key.is_some(), c.executor, c.within.is_some(), c.replace.is_some(), c.statuses.len())) % 1000
                    }
                    _ => 1,
                },
                Op::Claim(_) => 2000 + matches!(r, Res::Claimed(Some(_))) as u64,
                Op::Query(q) => 3000 + 10 * (q.depth() as u64) + matches!(&r, Res::Jobs(j) if !j.is_empty()) as u64,
                Op::Prune(_) => 4000 + (rows.len() - after.len().min(rows.len())) as u64,
                o => 5000 + hash_of(std::mem::discriminant(o)) % 1000,
            });
            obs.count(&format!("op_{}", op_name(&op)), 1);
            if let Op::Enqueue(New { crit: Some(_), .. }) = &op {
                let fresh = matches!(&r, Res::Id(id) if rows.iter().all(|j| j.id != *id));
                obs.count(if fresh { "unique_inserted" } else { "unique_conflicts" }, 1);
            }
            if let (Op::Query(_), Res::Jobs(js)) = (&op, &r) {
                obs.count(if js.is_empty() { "query_empty" } else if js.len() == after.len() { "query_all" } else { "query_some" }, 1);
            }
            if let Op::Prune(_) = &op {
                obs.count("jobs_pruned", (rows.len().saturating_sub(after.len())) as u64);
                obs.count("jobs_kept_by_prunes", after.len() as u64);
            }
            obs.count("tables_compared", 1);
            if !seen.is_empty() {
                let _ = n_bad;
                let tail: Vec<_> = log.iter().rev().take(12).rev().cloned().collect();
                for (t, what) in seen {
                    let mut rp = replay.clone();
                    rp["tail"] = json!(tail);
                    obs.violate(&t, what, rp);
                }
                return;
            }
            rows = after;
            // a due job must be there for a waiting stream too; checked by the claims above
            let _ = TimeDelta::zero();
        }
    });
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&kinds));
    obs.sample(json!({"workload": format!("conf:{}", p.name), "case_seed": seed, "operations": log.iter().take(6).collect::<Vec<_>>()}));
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::Enqueue(n) if n.crit.is_some() => "enqueue_unique",
        Op::Enqueue(_) => "enqueue",
        Op::Complete(_) => "complete",
        Op::Retry(..) => "retry",
        Op::Discard(..) => "discard",
        Op::Cancel(..) => "cancel",
        Op::Snooze(..) => "snooze",
        Op::Rerun(_) => "rerun",
        Op::Update(_) => "update",
        Op::Prune(_) => "prune",
        Op::Query(_) => "query",
        Op::Claim(_) => "claim",
    }
}
