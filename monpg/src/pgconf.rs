//! Sequential conformance of the Postgres backend: random operations through the real client code
//! against the emulated server, every result and the stored table compared with the reference
//! model, with and without injected server and connection faults.
use crate::env::Env;
use crate::wire::Fault;
use chrono::{TimeDelta, Utc};
use futures::StreamExt;
use mon::conf::{Profile, op_name};
use mon::exec::BJob;
use mon::generate::*;
use mon::model::*;
use mon::report::Obs;
use mon::rng::{Rng, hash_of};
use rexecutor::backend::{Backend, BackendError};
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::{ErrorType, JobStatus};
use rexecutor_sqlx::RexecutorPgBackend;
use serde_json::json;
use std::sync::Arc;

type ReadyStream = std::pin::Pin<Box<dyn futures::Stream<Item = Result<BJob, BackendError>> + Send>>;

fn exact_q(q: &mut Q) {
    match q {
        Q::Not(q) => exact_q(q),
        Q::And(qs) | Q::Or(qs) => qs.iter_mut().for_each(exact_q),
        Q::Data(v) | Q::Metadata(v) => exact(v),
        _ => {}
    }
}
pub fn exact_op(op: &mut Op) {
    match op {
        Op::Enqueue(n) => {
            exact(&mut n.data);
            exact(&mut n.metadata);
        }
        Op::Update(j) => {
            exact(&mut j.data);
            exact(&mut j.metadata);
        }
        Op::Query(q) => exact_q(q),
        _ => {}
    }
}

/// The property an operation belongs to.
pub fn prop_of(op: &Op) -> &'static str {
    match op {
        Op::Enqueue(n) if n.crit.is_some() => "C24",
        Op::Prune(_) => "C25",
        Op::Query(_) => "C23",
        Op::Claim(_) => "C27",
        _ => "C26",
    }
}

pub fn model() -> Model {
    Model { within_scheduled_only: true, ..Model::new() }
}

/// One of several ways of holding the backend.
pub async fn perform_via(b: &RexecutorPgBackend, via: u64, op: &Op) -> Res {
    match via {
        0 => perform(b, op).await,
        1 => perform(&Arc::new(b.clone()), op).await,
        _ => perform(&*(Arc::new(b.clone()) as Arc<dyn Backend + Send + Sync>), op).await,
    }
}

/// After an error: either nothing happened or, if the answer may have got lost, the whole operation did.
fn either(m: &mut Model, op: &Op, stored: &[BJob], may_have_happened: bool, now: T) -> Result<(), String> {
    let plain = m.compare(stored);
    if plain.is_empty() {
        return Ok(());
    }
    if may_have_happened {
        let rs: Vec<Res> = match op {
            Op::Enqueue(_) => stored.iter().map(|j| Res::Id(j.id)).collect(),
            _ => vec![Res::Ok],
        };
        for r in rs {
            let mut c = m.clone();
            if c.apply(op, &r, Some(stored), now).is_empty() && c.compare(stored).is_empty() {
                *m = c;
                return Ok(());
            }
        }
    }
    Err(plain.into_iter().map(|x| x.2).collect::<Vec<_>>().join("; "))
}

pub fn case(p: Profile, fault_pct: u64, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = mon::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let steps = rng.range(p.steps.0, p.steps.1);
    let wrapped = rng.pct(30);
    let faulty = fault_pct > 0 && rng.pct(60);
    let mut kinds: Vec<u64> = vec![];
    let replay = json!({"workload": p.name, "case_seed": seed});
    let mut log: Vec<String> = vec![];
    let dump = std::env::var_os("MON_DUMP").is_some();
    let conns = rng.range(2, 4) as u32;
    let insts = rng.range(1, 2) as usize;
    crate::env::run(rng.next(), base, async |env: &mut Env| {
        let fail = |obs: &mut Obs, props: &[&'static str], what: String, log: &[String]| {
            let mut rp = replay.clone();
            rp["tail"] = json!(log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>());
            obs.violate(props, what, rp);
        };
        let bs = match env.backends(insts, conns).await {
            Ok(b) => b,
            Err(e) => {
                match env.unsupported() {
                    Some(u) => obs.errors.push(format!("the emulated server does not support: {u}")),
                    None => fail(obs, &["C26", "C23", "C24", "C25"], e, &log),
                }
                return;
            }
        };
        let mut g = Gen::new(rng.fork());
        let mut m = model();
        let mut streams: Vec<(String, ReadyStream)> = vec![];
        let mut rows: Vec<BJob> = vec![];
        for step in 0..steps {
            if rng.pct(40) {
                let ms = *rng.pick(&[1, 7, 49, 100, 999, 1_000, 5_000, 60_000, 3_600_000]);
                env.advance(ms).await;
                env.settle().await;
            }
            let now = Utc::now();
            let total = p.enqueue + p.claim + p.finish + p.cancel + p.rerun + p.update + p.prune + p.query;
            let mut x = rng.below(total);
            let mut take = |w: u64| {
                let hit = x < w;
                x = x.wrapping_sub(if hit { 0 } else { w });
                hit
            };
            let any_id = |rng: &mut Rng, f: &dyn Fn(&BJob) -> bool| -> Option<i32> {
                if rng.pct(p.unknown_pct) {
                    return Some(rng.range(-3, 4) as i32 * 1000 + 777);
                }
                let c: Vec<i32> = rows.iter().filter(|j| f(j)).map(|j| j.id).collect();
                (!c.is_empty()).then(|| *rng.pick(&c))
            };
            let op = if p.history {
                mon::conf::history_op(&mut rng, &mut g, now, &rows)
            } else if take(p.enqueue) {
                Some(Op::Enqueue(g.new_job(now, &rows, p.unique_pct)))
            } else if take(p.claim) {
                Some(Op::Claim(rng.pick(&EXECUTORS[..4]).to_string()))
            } else if take(p.finish) {
                any_id(&mut rng, &|j| j.status == JobStatus::Executing).map(|id| match rng.below(5) {
                    0 => Op::Complete(id),
                    1 => Op::Retry(id, g.time(now, &rows), g.error_type(), g.text()),
                    2 => Op::Discard(id, g.error_type(), g.text()),
                    3 => Op::Snooze(id, g.time(now, &rows)),
                    _ => Op::Cancel(id, ErrorType::Cancelled, g.text()),
                })
            } else if take(p.cancel) {
                any_id(&mut rng, &|j| j.status != JobStatus::Executing).map(|id| Op::Cancel(id, ErrorType::Cancelled, g.text()))
            } else if take(p.rerun) {
                any_id(&mut rng, &|j| terminal(j.status)).map(Op::Rerun)
            } else if take(p.update) {
                any_id(&mut rng, &|_| true).map(|id| {
                    let t = rows.iter().find(|j| j.id == id).cloned().unwrap_or_else(|| new_job(id, now));
                    let mut u = g.update(&t, now, &rows);
                    if rng.pct(60) {
                        g.stale(&mut u, now);
                    }
                    Op::Update(u)
                })
            } else if take(p.prune) {
                Some(Op::Prune(g.prune(now, &rows)))
            } else {
                let d = rng.below(5) as u32;
                Some(Op::Query(g.query(d, now, &rows)))
            };
            let Some(mut op) = op else { continue };
            exact_op(&mut op);
            let op = op;
            let prop = prop_of(&op);
            let via = if wrapped { rng.below(3) } else { 0 };
            let b = rng.pick(&bs).clone();
            // a fault at one of its statements
            let fault = (faulty && rng.pct(fault_pct)).then(|| (rng.below(4), *rng.pick(&[Fault::Error, Fault::Error, Fault::DropBefore, Fault::DropAfter])));
            let hit: Arc<std::sync::Mutex<Option<Fault>>> = Arc::default();
            if let Some((mut k, f)) = fault
                && !matches!(op, Op::Claim(_))
            {
                let hit = hit.clone();
                *env.srv.plan.lock().unwrap() = Some(Box::new(move |_, _| {
                    if hit.lock().unwrap().is_some() {
                        return None;
                    }
                    if k > 0 {
                        k -= 1;
                        return None;
                    }
                    *hit.lock().unwrap() = Some(f);
                    Some(f)
                }));
            }
            log.push(format!("{step} {now} via {via}: {op:?}{}", fault.map(|f| format!(" fault {f:?}")).unwrap_or_default()));
            if dump {
                eprintln!("{}", log.last().unwrap());
            }
            let r = match &op {
                Op::Claim(e) => {
                    let i = match streams.iter().position(|s| s.0 == *e) {
                        Some(i) if rng.pct(85) => i,
                        _ => {
                            let name = EXECUTORS.iter().find(|x| **x == e.as_str()).unwrap();
                            let s = env.drive(b.subscribe_ready_jobs(ExecutorIdentifier::from(*name))).await;
                            let Some(s) = s else {
                                fail(obs, &["C27"], "subscribe_ready_jobs hangs".into(), &log);
                                return;
                            };
                            streams.push((e.clone(), s));
                            streams.len() - 1
                        }
                    };
                    poll_stream(env, &mut streams[i].1).await
                }
                _ => match env.drive(perform_via(&b, via, &op)).await {
                    Some(r) => r,
                    None => {
                        fail(obs, &[prop], format!("{op:?} does not end"), &log);
                        return;
                    }
                },
            };
            *env.srv.plan.lock().unwrap() = None;
            env.settle().await;
            if let Some(u) = env.unsupported() {
                obs.errors.push(format!("the emulated server does not support: {u}"));
                return;
            }
            if let Some(u) = env.problem.clone() {
                fail(obs, &[prop, "C27"], u, &log);
                return;
            }
            let hit = *hit.lock().unwrap();
            if Utc::now() != now && hit.is_none() {
                fail(obs, &[prop, "C26"], format!("{op:?} took {} without any fault", Utc::now() - now), &log);
                return;
            }
            let stored = env.stored();
            let mut seen: Vec<(Vec<&'static str>, String)> = vec![];
            match (&r, hit) {
                (Res::Err(_), Some(f)) => {
                    obs.count("operations_failed_by_faults", 1);
                    if let Err(what) = either(&mut m, &op, &stored, f == Fault::DropAfter, now) {
                        seen.push((vec![prop, "C26"], format!("{op:?} failed ({f:?}) but left something behind: {what}")));
                    }
                }
                _ => {
                    if hit.is_some() {
                        obs.count("operations_unharmed_by_faults", 1);
                    }
                    for (_, what) in m.apply(&op, &r, Some(&stored), now) {
                        seen.push((vec![prop, "C26"], what));
                    }
                    for (_, _, what) in m.compare(&stored) {
                        seen.push((vec![prop, "C26"], format!("after {op:?}: {what}")));
                    }
                }
            }
            // read back through the backend
            if seen.is_empty() && (rng.pct(25) || step + 1 == steps) {
                match env.drive(table(&b)).await {
                    Some(Ok(t)) => {
                        for (_, _, what) in m.compare(&t) {
                            seen.push((vec!["C26", "C23"], format!("read back after {op:?}: {what}")));
                        }
                    }
                    r => seen.push((vec!["C26", "C23"], format!("query of all jobs failed: {r:?}"))),
                }
                obs.count("tables_read_back", 1);
            }
            obs.count("tables_compared", 1);
            obs.count(&format!("op_{}", op_name(&op)), 1);
            kinds.push(match &op {
                Op::Enqueue(n) => match (&n.crit, &r) {
                    (Some(c), Res::Id(id)) => {
                        let fresh = rows.iter().all(|j| j.id != *id);
                        obs.count(if fresh { "unique_inserted" } else { "unique_conflicts" }, 1);
                        1 + hash_of((fresh, c.key.is_some(), c.executor, c.within.is_some(), c.replace.is_some(), c.statuses.len())) % 1000
                    }
                    _ => 0,
                },
                Op::Claim(_) => 2000 + matches!(r, Res::Claimed(Some(_))) as u64,
                Op::Query(q) => {
                    if let Res::Jobs(js) = &r {
                        obs.count(if js.is_empty() { "query_empty" } else if js.len() == stored.len() { "query_all" } else { "query_some" }, 1);
                    }
                    3000 + 10 * (q.depth() as u64) + matches!(&r, Res::Jobs(j) if !j.is_empty()) as u64
                }
                Op::Prune(_) => {
                    obs.count("jobs_pruned", rows.len().saturating_sub(stored.len()) as u64);
                    obs.count("jobs_kept_by_prunes", stored.len() as u64);
                    4000 + (rows.len() - stored.len().min(rows.len())) as u64
                }
                o => 5000 + hash_of(std::mem::discriminant(o)) % 1000,
            } * 8 + hit.map_or(0, |h| match h { Fault::Error => 1, Fault::DropBefore => 2, _ => 3 }));
            if !seen.is_empty() {
                for (t, what) in seen {
                    fail(obs, &t, what, &log);
                }
                return;
            }
            rows = stored;
        }
        server_stats(env, obs);
    });
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&kinds));
    obs.sample(json!({"workload": p.name, "case_seed": seed, "operations": log.iter().take(6).collect::<Vec<_>>()}));
    let _ = TimeDelta::zero();
}

pub fn server_stats(env: &Env, obs: &mut Obs) {
    let db = env.srv.db.lock().unwrap();
    for (k, n) in &db.stats.statements {
        obs.count(&format!("server_{k}"), *n);
    }
    obs.count("server_waits_for_locks", db.stats.blocks);
    obs.count("server_pauses", db.stats.pauses);
    obs.count("server_rechecks", db.stats.rechecks);
    obs.count("server_notifications", db.stats.notifications);
    for (k, n) in env.srv.faults.lock().unwrap().iter() {
        obs.count(&format!("fault_{k}"), *n);
    }
}

/// Polls the stream until nothing is left to do, without letting time pass.
async fn poll_stream(env: &mut Env, s: &mut ReadyStream) -> Res {
    use std::sync::atomic::Ordering;
    let mut quiet = 0;
    let mut last = env.srv.activity.load(Ordering::Relaxed);
    while quiet < 10 {
        match std::future::poll_fn(|cx| std::task::Poll::Ready(s.poll_next_unpin(cx))).await {
            std::task::Poll::Ready(Some(Ok(j))) => return Res::Claimed(Some(j)),
            std::task::Poll::Ready(Some(Err(e))) => return Res::Err(format!("{e:?}")),
            std::task::Poll::Ready(None) => return Res::Err("end of stream".into()),
            std::task::Poll::Pending => {}
        }
        tokio::task::yield_now().await;
        let a = env.srv.activity.load(Ordering::Relaxed);
        quiet = if a == last { quiet + 1 } else { 0 };
        last = a;
    }
    Res::Claimed(None)
}
