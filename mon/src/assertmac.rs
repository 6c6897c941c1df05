//! The `assert_enqueued!` macro against random populations: it must panic exactly when the number
//! of matching jobs is not the stated one, and leave the backend alone.
use crate::exec::BJob;
use crate::model::*;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use chrono::{TimeDelta, Utc};
use futures::FutureExt;
use rexecutor::assert_enqueued;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::job::ErrorType;
#[allow(unused_imports)]
use rexecutor::prelude::*;
use serde_json::json;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;

/// What the conditions of an assertion refer to.
#[derive(Debug, Clone)]
pub struct Args {
    pub data: serde_json::Value,
    pub meta: serde_json::Value,
    pub tag1: &'static str,
    pub tag2: &'static str,
    pub at: T,
    pub before: T,
    pub after: T,
}

fn tags(ts: &[&str]) -> Q {
    Q::TagsAll(ts.iter().map(|t| t.to_string()).collect())
}

/// Runs the assertion with the given number form and conditions; whether it passed.
macro_rules! run {
    ([$($to:tt)*] $count:expr; $($cond:tt)*) => {
        match $count {
            None => AssertUnwindSafe(async { assert_enqueued!($($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some((0, _)) => AssertUnwindSafe(async { assert_enqueued!(0 jobs, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some((1, true)) => AssertUnwindSafe(async { assert_enqueued!(1 job, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some((1, false)) => AssertUnwindSafe(async { assert_enqueued!(1 jobs, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some((2, _)) => AssertUnwindSafe(async { assert_enqueued!(2 jobs, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some((3, _)) => AssertUnwindSafe(async { assert_enqueued!(3 jobs, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some(_) => AssertUnwindSafe(async { assert_enqueued!(5 jobs, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
        }
    };
}

pub const TEMPLATES: u64 = 16;

/// All templates for one way of naming the backend; returns (meaning, passed).
macro_rules! templates {
    ($name:ident, ($($par:tt)*), [$($to:tt)*]) => {
        pub async fn $name($($par)* which: u64, count: Option<(u32, bool)>, a: &Args) -> (Q, bool) {
            let ex = |n: &str| Q::Executor(n.to_string());
            let (t1, t2, t12) = ([a.tag1], [a.tag2], [a.tag1, a.tag2]);
            match which {
                0 => (Q::Data(a.data.clone()), run!([$($to)*] count; with_data: a.data.clone())),
                1 => (Q::Metadata(a.meta.clone()), run!([$($to)*] count; with_metadata: &a.meta,)),
                2 => (tags(&[a.tag1]), run!([$($to)*] count; tagged_with: t1)),
                3 => (tags(&[a.tag1, a.tag2]), run!([$($to)*] count; tagged_with: t12,)),
                4 => (Q::At(a.at), run!([$($to)*] count; scheduled_at: a.at)),
                5 => (Q::Before(a.before), run!([$($to)*] count; scheduled_before: a.before,)),
                6 => (Q::After(a.after), run!([$($to)*] count; scheduled_after: a.after)),
                7 => (ex("alpha"), run!([$($to)*] count; for_executor: "alpha")),
                8 => (ex("plain"), run!([$($to)*] count; for_executor: crate::typed::Plain)),
                9 => (
                    Q::And(vec![Q::After(a.after), Q::Before(a.before)]),
                    run!([$($to)*] count; scheduled_after: a.after, scheduled_before: a.before),
                ),
                10 => (
                    Q::And(vec![Q::Data(a.data.clone()), ex("units")]),
                    run!([$($to)*] count; with_data: &a.data, for_executor: crate::typed::Units,),
                ),
                11 => (
                    Q::And(vec![Q::Data(a.data.clone()), Q::Metadata(a.meta.clone()), tags(&[a.tag1])]),
                    run!([$($to)*] count; with_data: a.data.clone(), with_metadata: a.meta.clone(), tagged_with: t1),
                ),
                12 => (
                    Q::And(vec![ex("alpha"), tags(&[a.tag1]), Q::Before(a.before)]),
                    run!([$($to)*] count; for_executor: "alpha", tagged_with: t1, scheduled_before: a.before),
                ),
                13 => (
                    Q::And(vec![ex("plain"), Q::Metadata(a.meta.clone()), Q::After(a.after)]),
                    run!([$($to)*] count; for_executor: crate::typed::Plain, with_metadata: a.meta.clone(), scheduled_after: a.after),
                ),
                14 => (
                    Q::And(vec![Q::At(a.at), Q::Data(a.data.clone()), ex("units")]),
                    run!([$($to)*] count; scheduled_at: a.at, with_data: a.data.clone(), for_executor: "units"),
                ),
                _ => (
                    Q::And(vec![Q::Data(a.data.clone()), Q::Metadata(a.meta.clone()), tags(&[a.tag2]), Q::After(a.after), Q::Before(a.before), ex("alpha")]),
                    run!([$($to)*] count; with_data: a.data.clone(), with_metadata: a.meta.clone(), tagged_with: t2,
                        scheduled_after: a.after, scheduled_before: a.before, for_executor: "alpha",),
                ),
            }
        }
    };
}

/// Every condition alone, first, last and with a trailing comma.
macro_rules! run_few {
    ([$($to:tt)*] $count:expr; $($cond:tt)*) => {
        match $count {
            None => AssertUnwindSafe(async { assert_enqueued!($($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some((1, _)) => AssertUnwindSafe(async { assert_enqueued!(1 job, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
            Some(_) => AssertUnwindSafe(async { assert_enqueued!(2 jobs, $($to)* $($cond)*); }).catch_unwind().await.is_ok(),
        }
    };
}
macro_rules! forms {
    ([$($to:tt)*] $form:expr, $count:expr, $q:expr, [$($c:tt)*], $dq:expr, [$($d:tt)*]) => {
        match $form {
            0 => ($q, run_few!([$($to)*] $count; $($c)*)),
            1 => ($q, run_few!([$($to)*] $count; $($c)*,)),
            2 => (Q::And(vec![$q, $dq]), run_few!([$($to)*] $count; $($c)*, $($d)*)),
            3 => (Q::And(vec![$dq, $q]), run_few!([$($to)*] $count; $($d)*, $($c)*)),
            _ => (Q::And(vec![$dq, $q]), run_few!([$($to)*] $count; $($d)*, $($c)*,)),
        }
    };
}
pub const FORMS: u64 = 40;
macro_rules! all_forms {
    ($name:ident, ($($par:tt)*), [$($to:tt)*]) => {
        pub async fn $name($($par)* which: u64, count: Option<(u32, bool)>, a: &Args) -> (Q, bool) {
            let ex = |n: &str| Q::Executor(n.to_string());
            let t12 = [a.tag1, a.tag2];
            let form = which % 5;
            match which / 5 {
                0 => forms!([$($to)*] form, count, Q::Data(a.data.clone()), [with_data: &a.data], tags(&t12), [tagged_with: t12]),
                1 => forms!([$($to)*] form, count, Q::Metadata(a.meta.clone()), [with_metadata: a.meta.clone()], Q::Before(a.before), [scheduled_before: a.before]),
                2 => forms!([$($to)*] form, count, tags(&t12), [tagged_with: t12], Q::Data(a.data.clone()), [with_data: a.data.clone()]),
                3 => forms!([$($to)*] form, count, Q::At(a.at), [scheduled_at: a.at], ex("plain"), [for_executor: crate::typed::Plain]),
                4 => forms!([$($to)*] form, count, Q::Before(a.before), [scheduled_before: a.before], Q::Metadata(a.meta.clone()), [with_metadata: &a.meta]),
                5 => forms!([$($to)*] form, count, Q::After(a.after), [scheduled_after: a.after], ex("alpha"), [for_executor: "alpha"]),
                6 => forms!([$($to)*] form, count, ex("alpha"), [for_executor: "alpha"], Q::After(a.after), [scheduled_after: a.after]),
                _ => forms!([$($to)*] form, count, ex("units"), [for_executor: crate::typed::Units], Q::At(a.at), [scheduled_at: a.at]),
            }
        }
    };
}
all_forms!(forms_to, (backend: &InMemoryBackend,), [to: backend,]);
all_forms!(forms_global, (), []);

templates!(owned, (backend: InMemoryBackend,), [to: backend,]);
templates!(shared, (backend: Arc<InMemoryBackend>,), [to: backend,]);
templates!(borrowed, (backend: &InMemoryBackend,), [to: backend,]);
templates!(global, (), []);

const TAG_POOL: [&str; 4] = ["a", "b", "ab", ""];

pub fn args(rng: &mut Rng, now: T, rows: &[BJob]) -> Args {
    let some = (!rows.is_empty() && rng.pct(85)).then(|| rng.pick(rows).clone());
    let at = some.as_ref().map_or(now, |j| j.scheduled_at);
    let us = |rng: &mut Rng| TimeDelta::microseconds(*rng.pick(&[-1, 0, 0, 1]));
    let other = if rows.is_empty() { now } else { rng.pick(rows).scheduled_at };
    Args {
        data: some.as_ref().map_or(json!("none"), |j| j.data.clone()),
        meta: if rng.pct(80) { some.as_ref().map_or(json!(7), |j| j.metadata.clone()) } else { json!({"m": 1}) },
        tag1: rng.pick(&TAG_POOL),
        tag2: rng.pick(&TAG_POOL),
        at: at + us(rng),
        before: at.max(other) + us(rng),
        after: at.min(other) + us(rng),
    }
}

pub fn population(rng: &mut Rng, now: T) -> Vec<New> {
    let pick = |rng: &mut Rng, n: u64| rng.below(n) as usize;
    (0..rng.range(0, 7))
        .map(|_| New {
            executor: ["alpha", "plain", "units", "Alpha"][pick(rng, 4)].into(),
            data: [json!("x"), json!(1), json!(null), json!({"a": [1]})][pick(rng, 3)].clone(),
            metadata: [json!(null), json!({"m": 1}), json!("x")][pick(rng, 2)].clone(),
            max_attempts: 3,
            scheduled_at: now + TimeDelta::seconds(*rng.pick(&[-60, 0, 0, 60])),
            tags: (0..rng.below(4)).map(|_| rng.pick(&TAG_POOL).to_string()).collect(),
            priority: rng.below(3) as u16,
            crit: None,
        })
        .collect()
}

/// Whether an assertion with this count passes on `n` matching jobs.
pub fn expected(count: Option<(u32, bool)>, n: usize) -> bool {
    match count {
        None => n >= 1,
        Some((k, _)) => n == k as usize,
    }
}

pub fn counts(rng: &mut Rng) -> Option<(u32, bool)> {
    *rng.pick(&[None, None, Some((0, false)), Some((1, true)), Some((1, true)), Some((1, false)), Some((2, false)), Some((3, false)), Some((5, false))])
}

pub fn case(seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = crate::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000;
    let replay = json!({"workload": "assert:assert", "case_seed": seed});
    let mut kinds = vec![];
    crate::vclock::run_virtual(base, async {
        let b = InMemoryBackend::new().paused();
        let now = Utc::now();
        for n in population(&mut rng, now) {
            let Res::Id(id) = perform(&b, &Op::Enqueue(n)).await else {
                obs.violate(&["C20"], "enqueue failed", replay.clone());
                return;
            };
            // jobs in other statuses are still enqueued jobs
            match rng.below(8) {
                0 => drop(perform(&b, &Op::Complete(id)).await),
                1 => drop(perform(&b, &Op::Cancel(id, ErrorType::Cancelled, "no".into())).await),
                _ => {}
            }
        }
        let rows = table(&b).await.unwrap_or_default();
        for _ in 0..12 {
            let a = args(&mut rng, now, &rows);
            let mut which = rng.below(TEMPLATES);
            let mut count = counts(&mut rng);
            let (q, passed) = match rng.below(6) {
                3..=5 => {
                    which = rng.below(FORMS);
                    count = *rng.pick(&[None, Some((1, true)), Some((2, false))]);
                    let r = forms_to(&b, which, count, &a).await;
                    which += TEMPLATES;
                    r
                }
                0 => owned(b.clone(), which, count, &a).await,
                1 => shared(Arc::new(b.clone()), which, count, &a).await,
                _ => borrowed(&b, which, count, &a).await,
            };
            let n = rows.iter().filter(|j| q.matches(j)).count();
            let want = expected(count, n);
            kinds.push((which, count.map(|c| c.0), n.min(6), passed));
            obs.count(if passed { "assertions_passed" } else { "assertions_failed" }, 1);
            if passed != want {
                obs.violate(
                    &["C28"],
                    format!("assert_enqueued! with count {count:?} and conditions {q:?} {} although {n} of {} jobs match", if passed { "passed" } else { "failed" }, rows.len()),
                    replay.clone(),
                );
                return;
            }
        }
        match table(&b).await {
            Ok(t) if t == rows => {}
            t => obs.violate(&["C28"], format!("assert_enqueued! changed the backend from {rows:?} to {t:?}"), replay.clone()),
        }
    });
    obs.evaluations += 1;
    obs.distinct.insert(hash_of(&kinds));
    obs.sample(json!({"workload": "assert:assert", "case_seed": seed, "template_count_matches_passed": kinds}));
}
