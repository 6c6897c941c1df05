//! Concurrent unique enqueues from several instances: the results and the final table must be those
//! of some order of the operations.
use crate::env::Env;
use crate::pgconf::{exact_op, model, perform_via, server_stats};
use crate::wire::Fault;
use chrono::{TimeDelta, Utc};
use mon::exec::BJob;
use mon::generate::*;
use mon::model::*;
use mon::report::Obs;
use mon::rng::{Rng, hash_of};
use rexecutor::job::{ErrorType, JobStatus};
use serde_json::json;
use std::sync::Arc;
use std::sync::atomic::Ordering;

/// A model in which the operations, in some order, explain results and table. An operation that
/// failed did nothing, unless its answer got lost (`optional`): then it may also have had its effect.
fn explain(m: &Model, ops: &[(Op, Res)], optional: &[bool], stored: &[BJob], now: T) -> Option<(Model, Vec<usize>)> {
    fn go(
        c: &Model, left: u32, order: &mut Vec<usize>, ops: &[(Op, Res)], optional: &[bool], first: &Model, stored: &[BJob], now: T,
    ) -> Option<Model> {
        if left == 0 {
            let mut c = c.clone();
            for j in stored {
                if let Some(x) = c.get_mut(j.id).filter(|_| first.get(j.id).is_none())
                    && j.inserted_at >= now
                {
                    x.inserted_at = j.inserted_at;
                }
            }
            return c.compare(stored).is_empty().then_some(c);
        }
        for i in (0..ops.len()).filter(|i| left & (1 << i) != 0) {
            let (op, r) = &ops[i];
            let mut rs = vec![];
            if let Res::Err(_) = r {
                rs.push(None);
                if optional[i] && !matches!(op, Op::Enqueue(_)) {
                    rs.push(Some(Res::Ok));
                } else if optional[i] {
                    rs.extend(stored.iter().map(|j| Some(Res::Id(j.id))));
                }
            } else {
                rs.push(Some(r.clone()));
            }
            for r in rs {
                let mut n = c.clone();
                if let Some(r) = &r
                    && !n.apply(op, r, Some(stored), now).is_empty()
                {
                    continue;
                }
                order.push(i);
                if let Some(f) = go(&n, left & !(1 << i), order, ops, optional, first, stored, now) {
                    return Some(f);
                }
                order.pop();
            }
        }
        None
    }
    let mut order = vec![];
    let f = go(m, (1 << ops.len()) - 1, &mut order, ops, optional, m, stored, now)?;
    Some((f, order))
}

pub fn case(meddling: bool, fault_pct: u64, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = mon::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let workload = if meddling { "pg_meddling" } else { "pg_racing" };
    let replay = json!({"workload": workload, "case_seed": seed});
    let insts = rng.range(1, 3) as usize;
    let conns = rng.range(2, 6) as u32;
    let faulty = rng.pct(fault_pct);
    let dump = std::env::var_os("MON_DUMP").is_some();
    let mut log: Vec<String> = vec![];
    let mut sig: Vec<u64> = vec![];
    crate::env::run(rng.next(), base, async |env: &mut Env| {
        let bs = match env.backends(insts, conns).await {
            Ok(b) => b,
            Err(e) => {
                match env.unsupported() {
                    Some(u) => obs.errors.push(format!("the emulated server does not support: {u}")),
                    None => obs.violate(&["C24"], e, replay.clone()),
                }
                return;
            }
        };
        env.srv.db.lock().unwrap().pause_pct = *rng.pick(&[0, 20, 50, 80]);
        env.srv.jitter.store(*rng.pick(&[0, 2, 6, 20]), Ordering::Relaxed);
        let mut g = Gen::new(rng.fork());
        let mut m = model();
        for round in 0..rng.range(2, 6) {
            env.advance(*rng.pick(&[1, 50, 1_000, 60_000])).await;
            env.settle().await;
            let now = Utc::now();
            let rows = env.stored();
            let mut crit = g.crit();
            if rng.pct(85) && !crit.statuses.contains(&JobStatus::Scheduled) {
                crit.statuses.push(JobStatus::Scheduled);
            }
            let k = rng.range(2, 5) as usize;
            let t0 = g.time(now, &rows);
            let mut ops: Vec<Op> = vec![];
            for i in 0..k {
                let mut n = g.new_job(now, &rows, 0);
                n.data = json!([round, i]);
                if crit.executor && rng.pct(80) || rng.pct(40) {
                    n.executor = EXECUTORS[0].into();
                }
                if rng.pct(75) {
                    n.scheduled_at = t0 + TimeDelta::milliseconds(*rng.pick(&[0, 0, 0, 1, 40, 900, -900]));
                }
                let mut c = crit.clone();
                if rng.pct(50) {
                    c.replace = g.crit().replace;
                }
                n.crit = Some(c);
                if rng.pct(8) {
                    n.crit = None;
                }
                ops.push(Op::Enqueue(n));
            }
            if meddling && !rows.is_empty() {
                // the job which the enqueues meet is changed meanwhile
                let target = rng.pick(&rows).clone();
                ops.truncate(rng.range(1, 2) as usize);
                let meet = rng.pct(85);
                let mut statuses = vec![target.status];
                if rng.pct(30) {
                    statuses.push(JobStatus::Cancelled);
                }
                for op in &mut ops {
                    let Op::Enqueue(n) = op else { continue };
                    n.executor = target.executor.clone();
                    if let Some(c) = &mut n.crit
                        && meet
                    {
                        c.key = None;
                        c.within = None;
                        c.statuses = statuses.clone();
                        if rng.pct(70) {
                            let mut r = Rep { data: true, statuses: vec![target.status], ..g.crit().replace.unwrap_or_default() };
                            if rng.pct(30) {
                                r.statuses = JobStatus::ALL.to_vec();
                            }
                            c.replace = Some(r);
                        }
                    }
                }
                for _ in 0..rng.range(1, 3) {
                    let id = if rng.pct(75) { target.id } else { rng.pick(&rows).id };
                    let t = g.time(now, &rows);
                    ops.push(match rng.below(8) {
                        0 | 1 => Op::Complete(id),
                        2 => Op::Cancel(id, g.error_type(), g.text()),
                        3 => Op::Discard(id, g.error_type(), g.text()),
                        4 => Op::Retry(id, t, g.error_type(), g.text()),
                        5 | 6 => Op::Rerun(id),
                        _ => {
                            let mut j = rows.iter().find(|j| j.id == id).unwrap().clone();
                            j.tags = g.tags();
                            j.priority = 7;
                            j.scheduled_at = t;
                            Op::Update(j)
                        }
                    });
                }
                rng.shuffle(&mut ops);
            }
            ops.iter_mut().for_each(exact_op);
            let hits: Arc<std::sync::Mutex<Vec<Fault>>> = Arc::default();
            if faulty && rng.pct(60) {
                let hits = hits.clone();
                let mut left = rng.below(14);
                let f = *rng.pick(&[Fault::Error, Fault::DropBefore, Fault::DropBefore, Fault::DropAfter]);
                *env.srv.plan.lock().unwrap() = Some(Box::new(move |_, _| {
                    if left == 0 && hits.lock().unwrap().is_empty() {
                        hits.lock().unwrap().push(f);
                        return Some(f);
                    }
                    left = left.saturating_sub(1);
                    None
                }));
            }
            let who: Vec<usize> = ops.iter().map(|_| rng.below(insts as u64) as usize).collect();
            if dump {
                for (o, w) in ops.iter().zip(&who) {
                    eprintln!("round {round} {now} instance {w}: {o:?}");
                }
            }
            let futs = ops
                .iter()
                .zip(&who)
                .map(|(o, w)| {
                    let b = bs[*w].clone();
                    Box::pin(async move { perform_via(&b, 0, o).await }) as std::pin::Pin<Box<dyn Future<Output = Res>>>
                })
                .collect();
            let before = env.srv.db.lock().unwrap().stats.blocks;
            let out = env.drive_all(futs, Some(&mut rng)).await;
            *env.srv.plan.lock().unwrap() = None;
            env.settle().await;
            let waits = env.srv.db.lock().unwrap().stats.blocks - before;
            if let Some(u) = env.unsupported() {
                obs.errors.push(format!("the emulated server does not support: {u}"));
                return;
            }
            let stored = env.stored();
            let hits = hits.lock().unwrap().clone();
            if out.iter().any(|o| o.is_none()) {
                let mut rp = replay.clone();
                rp["operations"] = json!(ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>());
                obs.violate(&["C24"], "a concurrent unique enqueue does not end", rp);
                return;
            }
            let done: Vec<(Op, Res)> = ops.into_iter().zip(out.into_iter().flatten()).collect();
            log.push(format!("{:?}", done));
            let failed = done.iter().filter(|d| matches!(d.1, Res::Err(_))).count();
            let bad = if failed > hits.len() {
                Some(format!("{failed} of the operations failed with {} faults injected", hits.len()))
            } else {
                let optional: Vec<bool> =
                    done.iter().map(|d| matches!(d.1, Res::Err(_)) && hits.contains(&Fault::DropAfter)).collect();
                match explain(&m, &done, &optional, &stored, now) {
                    Some((c, order)) => {
                        m = c;
                        sig.push(hash_of(&order));
                        None
                    }
                    None => Some("the results of concurrent enqueues and the table afterwards are not those of any order of them".to_owned()),
                }
            };
            obs.count("races", 1);
            obs.count("racing_enqueues", done.len() as u64);
            obs.count("race_waits_for_lock", waits);
            let created = stored.len().saturating_sub(rows.len());
            obs.count(if created <= 1 { "races_with_at_most_one_insert" } else { "races_with_several_inserts" }, 1);
            sig.push(hash_of((created, failed, done.len(), waits, done.iter().map(|d| format!("{:?}", d.1)).collect::<Vec<_>>())));
            if let Some(what) = bad {
                let mut rp = replay.clone();
                rp["operations"] = json!(done.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>());
                rp["before"] = json!(rows.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>());
                rp["after"] = json!(stored.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>());
                obs.violate(&["C24"], what, rp);
                return;
            }
            // now and then a job leaves the status that makes it match
            if rng.pct(50) && !stored.is_empty() {
                let op = Op::Cancel(rng.pick(&stored).id, ErrorType::Cancelled, "x".into());
                let now = Utc::now();
                if let Some(r) = env.drive(perform_via(&bs[0], 0, &op)).await {
                    m.apply(&op, &r, None, now);
                }
            }
        }
        server_stats(env, obs);
    });
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&sig));
    obs.sample(json!({"workload": workload, "case_seed": seed, "rounds": log.iter().take(2).collect::<Vec<_>>()}));
}
