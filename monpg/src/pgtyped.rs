//! The typed API (executors with many data types, job builder, typed queries, updates) on the
//! Postgres backend, compared with the reference model; finally the jobs are executed.
use crate::env::Env;
use crate::pgconf::{model, server_stats};
use chrono::{TimeDelta, Utc};
use mon::exec::Run;
use mon::report::Obs;
use mon::rng::{Rng, hash_of};
use mon::typed::{JSONB, N_TYPED, World, executions};
use mon::with_typed;
use rexecutor::prelude::*;
use serde_json::json;

pub fn case(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = mon::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let run = Run::new();
    let mut kinds = vec![];
    let mut log = vec![];
    let mut bad = vec![];
    JSONB.set(true);
    crate::env::run(rng.next(), base, async |env: &mut Env| {
        let bs = match env.backends(2, 3).await {
            Ok(b) => b,
            Err(e) => {
                match env.unsupported() {
                    Some(u) => obs.errors.push(format!("the emulated server does not support: {u}")),
                    None => bad.push((vec!["C23", "C24", "C26", "C29"], e)),
                }
                return;
            }
        };
        let mut types: Vec<u64> = (0..N_TYPED).collect();
        rng.shuffle(&mut types);
        types.truncate(rng.range(1, 4) as usize);
        let mut w = World::new(&bs[0], false, rng.fork(), run.id);
        w.pg = true;
        w.model = model();
        for _ in 0..rng.range(5, 40) {
            if rng.pct(30) {
                env.advance(*rng.pick(&[1, 999, 60_000, 3_600_000])).await;
                env.settle().await;
            }
            let t = *rng.pick(&types);
            let done = with_typed!(t, E => env.drive(w.step::<E>()).await);
            if let Some(u) = env.unsupported() {
                obs.errors.push(format!("the emulated server does not support: {u}"));
                return;
            }
            if done.is_none() {
                w.bad.push((vec!["C23", "C24", "C26"], "an operation does not end".into()));
            }
            if !w.bad.is_empty() {
                break;
            }
        }
        if w.bad.is_empty() {
            let registered: Vec<u64> = rng.subset(&types, 80);
            let mut rex = Rexecutor::new(bs[1].clone());
            let mut names = vec![];
            for t in &registered {
                with_typed!(*t, E => {
                    rex = rex.with_executor::<E>();
                    names.push(E::NAME);
                });
            }
            env.settle().await;
            let wait = *rng.pick(&[0, 5_000, 3_600_000, 90_000_000u64]);
            for _ in 0..10 {
                env.advance(wait / 10).await;
                env.settle().await;
            }
            for _ in 0..20 {
                env.advance(100).await;
                env.settle().await;
            }
            let until = Utc::now() - TimeDelta::milliseconds(200);
            let edge = w.model.rows.values().any(|r| (-1_500..=400).contains(&(r.job.scheduled_at - until).num_milliseconds()));
            if !edge {
                let mut found = vec![];
                let n = executions(&w.model, &names, &run, until, &mut found);
                w.bad.extend(found.into_iter().map(|b| (vec!["C29"], b.1)));
                obs.count("typed_executions_compared", n);
            }
            rex.graceful_shutdown();
            env.settle().await;
        }
        obs.count("typed_operations", w.log.len() as u64);
        kinds = w.kinds.clone();
        log = w.log.iter().rev().take(8).rev().cloned().collect();
        bad = w.bad;
        server_stats(env, obs);
    });
    JSONB.set(false);
    obs.evaluations += 1;
    if kinds.len() > 3 {
        obs.distinct.insert(hash_of(&kinds));
    }
    for (props, what) in bad {
        obs.violate(&props, what, json!({"workload": "pg_typed", "case_seed": seed, "tail": log}));
    }
    obs.sample(json!({"workload": "pg_typed", "case_seed": seed, "operations": log}));
}
