//! The global backend. A process has only one, so every case is a child process, which prints what
//! it observed as one line of JSON.
use crate::exec::Run;
use crate::model::*;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use crate::typed::{self, N_TYPED, Plain, World};
use crate::with_typed;
use chrono::{TimeDelta, Utc};
use rexecutor::RexecutorError;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::global_backend::GlobalBackend;
use rexecutor::job::query::Where;
use rexecutor::prelude::*;
use serde_json::{Value, json};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

pub fn case(seed: u64, obs: &mut Obs) {
    let exe = std::env::current_exe().expect("own path");
    let replay = json!({"workload": "global:global", "case_seed": seed});
    let mut child = std::process::Command::new(exe)
        .args(["child-global", &seed.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("child process");
    let t0 = std::time::Instant::now();
    let mut out = String::new();
    {
        use std::io::Read;
        // the child writes one short line at its end
        let mut pipe = child.stdout.take().unwrap();
        let h = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = pipe.read_to_string(&mut s);
            s
        });
        loop {
            if let Ok(Some(_)) = child.try_wait() {
                break;
            }
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = child.kill();
                obs.violate(&["C22"], "operations on the global backend do not come to an end", replay.clone());
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        out.push_str(&h.join().unwrap_or_default());
    }
    let status = child.wait();
    obs.evaluations += 1;
    match serde_json::from_str::<Value>(&out) {
        Ok(v) => {
            for b in v["bad"].as_array().into_iter().flatten() {
                let props: Vec<&'static str> = ["C22", "C28"].into_iter().filter(|p| b["props"].as_array().is_some_and(|a| a.iter().any(|x| x == p))).collect();
                let mut rp = replay.clone();
                rp["tail"] = v["log"].clone();
                obs.violate(&props, b["what"].as_str().unwrap_or("?"), rp);
            }
            for (k, n) in v["counters"].as_object().into_iter().flatten() {
                obs.count(k, n.as_u64().unwrap_or(0));
            }
            if let Some(h) = v["hash"].as_u64() {
                obs.distinct.insert(h);
            }
            obs.sample(json!({"workload": "global:global", "case_seed": seed, "operations": v["log"]}));
        }
        Err(_) if obs.violations.is_empty() => {
            let mut err = String::new();
            if let Some(mut e) = child.stderr.take() {
                use std::io::Read;
                let _ = e.read_to_string(&mut err);
            }
            obs.violate(&["C22"], format!("the process using the global backend ended without a report ({status:?}): {out} {err}"), replay);
        }
        Err(_) => {}
    }
}

struct Report {
    bad: Vec<(Vec<&'static str>, String)>,
    counters: std::collections::BTreeMap<&'static str, u64>,
    log: Vec<String>,
}

impl Report {
    fn bad(&mut self, what: impl Into<String>) {
        self.bad.push((vec!["C22"], what.into()));
    }
    fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
}

fn is_global_error<V>(r: &Result<V, RexecutorError>) -> bool {
    matches!(r, Err(RexecutorError::GlobalBackend))
}

/// Every kind of global operation; the names of those that did not fail as they have to while no
/// global backend is set.
async fn unset_ops(rng: &mut Rng, n: u64) -> Vec<&'static str> {
    let mut wrong = vec![];
    for _ in 0..n {
        let id = (rng.range(0, 3) as i32).into();
        let (name, ok) = match rng.below(8) {
            0 => ("enqueue", is_global_error(&Plain::builder().with_data("x".into()).enqueue().await)),
            1 => ("enqueue without data", is_global_error(&typed::Units::builder().enqueue().await)),
            2 => ("query", is_global_error(&Plain::query_jobs(!Where::id_equals(id)).await)),
            3 => ("cancel", is_global_error(&Plain::cancel_job(id, Box::new("no")).await)),
            4 => ("rerun", is_global_error(&Plain::rerun_job(id).await)),
            5 => ("as_ref", is_global_error(&GlobalBackend::as_ref().map(|_| ()))),
            6 => {
                // a job of some other backend
                let b = InMemoryBackend::new();
                let id = Plain::builder().with_data("x".into()).enqueue_to_backend(&b).await.expect("enqueue to a fresh backend");
                let mut js = Plain::query_jobs_on_backend(Where::id_equals(id), &b).await.expect("query");
                ("update", is_global_error(&Plain::update_job(js.pop().expect("the job")).await))
            }
            _ => {
                let a = crate::assertmac::args(rng, Utc::now(), &[]);
                ("assertion", !crate::assertmac::global(rng.below(crate::assertmac::TEMPLATES), None, &a).await.1)
            }
        };
        if !ok {
            wrong.push(name);
        }
    }
    wrong
}

pub fn child(seed: u64) {
    let mut rng = Rng::new(seed);
    let mut rep = Report { bad: vec![], counters: Default::default(), log: vec![] };
    let mut sig = vec![];
    // 1. nothing set
    let candidates: Vec<InMemoryBackend> = (0..rng.range(1, 6)).map(|_| InMemoryBackend::new()).collect();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    let n = rng.below(10);
    for name in rt.block_on(unset_ops(&mut rng, n)) {
        rep.bad(format!("global {name} did not fail with the global-backend error although no backend was set"));
    }
    rep.count("unset_operations", n);
    // instances that never set the global backend do not become it
    if rng.pct(40) {
        let _guard = rt.enter();
        let r = Rexecutor::new(candidates[0].clone()).with_executor::<Plain>();
        r.graceful_shutdown();
        if GlobalBackend::as_ref().is_ok() {
            rep.bad("an instance became the global backend without being set");
        }
    }
    // 2. setters race, with users
    let users = rng.below(4) as usize;
    let spread = *rng.pick(&[0u64, 0, 2, 40, 300]);
    crate::chaos::set_level(*rng.pick(&[0, 3, 10]));
    let barrier = Arc::new(Barrier::new(candidates.len() + users));
    let oks = Arc::new(Mutex::new(vec![]));
    let done = Arc::new(AtomicUsize::new(0));
    let any_ok = Arc::new(AtomicBool::new(false));
    let notes: Arc<Mutex<Vec<String>>> = Default::default();
    let used: Arc<Mutex<Vec<(String, i32)>>> = Default::default();
    let total = candidates.len();
    std::thread::scope(|s| {
        for (i, c) in candidates.iter().enumerate() {
            let (barrier, oks, done, any_ok, notes) = (barrier.clone(), oks.clone(), done.clone(), any_ok.clone(), notes.clone());
            let mut rng = rng.fork();
            s.spawn(move || {
                crate::chaos::enroll(rng.next());
                let wait = rng.below(spread + 1);
                barrier.wait();
                if wait > 0 {
                    std::thread::sleep(Duration::from_micros(wait));
                }
                let kind = rng.below(3);
                let before = any_ok.load(Ordering::SeqCst);
                let r = match kind {
                    0 => Rexecutor::new(c.clone()).set_global_backend().map(|_| ()),
                    1 => Rexecutor::new(Arc::new(c.clone())).set_global_backend().map(|_| ()),
                    _ => Rexecutor::new(Arc::new(Box::new(c.clone()))).set_global_backend().map(|_| ()),
                };
                match r {
                    Ok(()) => {
                        any_ok.store(true, Ordering::SeqCst);
                        oks.lock().unwrap().push(i);
                        if before {
                            notes.lock().unwrap().push(format!("set of candidate {i} succeeded although another had succeeded before"));
                        }
                    }
                    Err(RexecutorError::GlobalBackend) => {
                        if total == 1 {
                            notes.lock().unwrap().push("the only attempt to set the global backend failed".into());
                        }
                    }
                    Err(e) => notes.lock().unwrap().push(format!("set of candidate {i} failed with {e:?}")),
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        for u in 0..users {
            let (barrier, done, any_ok, notes, used) = (barrier.clone(), done.clone(), any_ok.clone(), notes.clone(), used.clone());
            let mut rng = rng.fork();
            s.spawn(move || {
                crate::chaos::enroll(rng.next());
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
                barrier.wait();
                rt.block_on(async {
                    let mut succeeded = false;
                    for k in 0..400 {
                        let last = done.load(Ordering::SeqCst) == total;
                        let set = any_ok.load(Ordering::SeqCst);
                        let data = format!("user {u} {k}");
                        match Plain::builder().with_data(data.clone()).enqueue().await {
                            Ok(id) => {
                                succeeded = true;
                                used.lock().unwrap().push((data, id.into()));
                            }
                            Err(RexecutorError::GlobalBackend) if !succeeded && !set => {}
                            Err(e) => {
                                notes.lock().unwrap().push(format!("global enqueue failed with {e:?} after the backend was set"));
                                break;
                            }
                        }
                        if last {
                            break;
                        }
                    }
                });
            });
        }
    });
    crate::chaos::set_level(0);
    rep.bad.extend(notes.lock().unwrap().drain(..).map(|n| (vec!["C22"], n)));
    let oks = oks.lock().unwrap().clone();
    let used = used.lock().unwrap().clone();
    rep.count("setters", total as u64);
    rep.count("operations_during_set", used.len() as u64);
    sig.push(hash_of((total, users, &oks, used.len().min(20))));
    if oks.len() != 1 {
        rep.bad(format!("{} of {total} concurrent attempts to set the global backend succeeded: {oks:?}", oks.len()));
    } else {
        let winner = oks[0];
        let base = crate::vclock::DEFAULT_BASE_MS + rng.range(0, 86_400) * 1000;
        let run = Run::new();
        crate::vclock::run_virtual(base, async {
            // what users enqueued meanwhile is on the winner and nowhere else
            for (i, c) in candidates.iter().enumerate() {
                let t = table(c).await.unwrap_or_default();
                let mut have: Vec<(String, i32)> = t.iter().map(|j| (j.data.as_str().unwrap_or("").to_owned(), j.id)).collect();
                have.sort();
                let mut want = if i == winner { used.clone() } else { vec![] };
                want.sort();
                if have != want {
                    rep.bad(format!("backend {i} (the global one is {winner}) holds {have:?} instead of {want:?}"));
                    return;
                }
            }
            let prune = rexecutor::pruner::PruneSpec {
                status: rexecutor::job::JobStatus::Scheduled,
                prune_by: rexecutor::pruner::PruneBy::MaxLength(0),
                executors: rexecutor::pruner::Spec::Except(vec![]),
            };
            if perform(&candidates[winner], &Op::Prune(prune)).await != Res::Ok {
                rep.bad("pruning failed");
            }
            // 3. every global operation acts on the winner like its explicit counterpart
            let mut types: Vec<u64> = (0..N_TYPED).collect();
            rng.shuffle(&mut types);
            types.truncate(rng.range(1, 3) as usize);
            let mut w = World::new(&candidates[winner], true, rng.fork(), run.id);
            w.model.used.extend(used.iter().map(|u| u.1));
            for _ in 0..rng.range(5, 30) {
                if rng.pct(20) {
                    tokio::time::advance(Duration::from_millis(*rng.pick(&[1, 999, 60_000]))).await;
                }
                w.global = rng.pct(85);
                match rng.below(10) {
                    0 => {
                        // later attempts fail and do not replace it
                        let c = rng.pick(&candidates).clone();
                        rep.count("late_sets", 1);
                        if !is_global_error(&Rexecutor::new(c).set_global_backend()) {
                            rep.bad("a later attempt to set the global backend did not fail with the global-backend error");
                        }
                    }
                    1 => {
                        let a = crate::assertmac::args(&mut rng, Utc::now(), &w.rows);
                        let mut count = crate::assertmac::counts(&mut rng);
                        let (q, passed) = if rng.pct(50) {
                            count = *rng.pick(&[None, Some((1, true)), Some((2, false))]);
                            crate::assertmac::forms_global(rng.below(crate::assertmac::FORMS), count, &a).await
                        } else {
                            crate::assertmac::global(rng.below(crate::assertmac::TEMPLATES), count, &a).await
                        };
                        let n = w.rows.iter().filter(|j| q.matches(j)).count();
                        rep.count("global_assertions", 1);
                        if passed != crate::assertmac::expected(count, n) {
                            rep.bad.push((vec!["C22", "C28"], format!("global assert_enqueued! with count {count:?} and {q:?}: passed = {passed}, {n} jobs match")));
                        }
                    }
                    _ => {
                        let t = *rng.pick(&types);
                        with_typed!(t, E => w.step::<E>().await);
                        rep.count("global_operations", 1);
                    }
                }
                if !w.bad.is_empty() || !rep.bad.is_empty() {
                    break;
                }
            }
            if w.bad.is_empty() {
                for (i, c) in candidates.iter().enumerate() {
                    let n = table(c).await.map_or(usize::MAX, |t| t.len());
                    if i != winner && n != 0 {
                        rep.bad(format!("{n} jobs on backend {i}, which is not the global one ({winner})"));
                    }
                }
                // and they are executed by an instance on that backend
                let mut rex = Rexecutor::new(candidates[winner].clone());
                let mut names = vec![];
                for t in &types {
                    with_typed!(*t, E => {
                        rex = rex.with_executor::<E>();
                        names.push(E::NAME);
                    });
                }
                let until = Utc::now() + TimeDelta::seconds(3);
                let edge = w.model.rows.values().any(|r| (-1_500..=400).contains(&(r.job.scheduled_at - until).num_milliseconds()));
                tokio::time::sleep(Duration::from_millis(3_200)).await;
                if !edge {
                    let mut bad = vec![];
                    let n = typed::executions(&w.model, &names, &run, until, &mut bad);
                    w.bad.extend(bad.into_iter().map(|b| (vec!["C22"], b.1)));
                    rep.count("executions", n);
                }
                rex.graceful_shutdown();
            }
            sig.extend(w.kinds.iter());
            rep.log = w.log.iter().rev().take(8).rev().cloned().collect();
            rep.bad.extend(w.bad.into_iter().map(|(mut p, b)| {
                p.push("C22");
                (p, b)
            }));
        });
    }
    println!(
        "{}",
        json!({
            "bad": rep.bad.iter().map(|(p, w)| json!({"props": p, "what": w})).collect::<Vec<_>>(),
            "counters": rep.counters,
            "log": rep.log,
            "hash": hash_of(&sig),
        })
    );
}
