//! C19: every delay is compared with its formula, evaluated here in exact integer arithmetic.
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use async_trait::async_trait;
use chrono::TimeDelta;
use rexecutor::backoff::*;
use rexecutor::prelude::*;
use serde_json::json;

const NS: i128 = 1_000_000_000;

fn ns(d: TimeDelta) -> i128 {
    d.num_seconds() as i128 * NS + d.subsec_nanos() as i128
}

fn clamp(x: i128) -> i128 {
    x.clamp(ns(TimeDelta::MIN), ns(TimeDelta::MAX))
}

/// a * b, saturating far outside the range of delays.
fn mul(a: i128, b: i128) -> i128 {
    const LIM: i128 = 1 << 120;
    match a.checked_mul(b) {
        Some(x) => x.clamp(-LIM, LIM),
        None if (a < 0) != (b < 0) => -LIM,
        None => LIM,
    }
}

fn pow(b: i128, e: u64) -> i128 {
    let mut r: i128 = 1;
    if b == 0 {
        return (e == 0) as i128;
    }
    if b == 1 {
        return 1;
    }
    for _ in 0..e {
        r = mul(r, b);
        if r >= 1 << 100 {
            return 1 << 100;
        }
    }
    r
}

#[derive(Clone, Debug)]
enum Kind {
    Constant(TimeDelta),
    Linear(TimeDelta, Option<TimeDelta>),
    Polynomial(TimeDelta, u32, Option<TimeDelta>),
    Exponential(TimeDelta, Option<TimeDelta>),
    Custom(TimeDelta),
    ExecutorDefault,
}

#[derive(Clone, Debug)]
struct Config {
    kind: Kind,
    jitter: Option<Jitter>,
    min: Option<TimeDelta>,
}

/// A strategy of the user.
struct Twice(TimeDelta);
impl Strategy for Twice {
    fn backoff(&self, attempt: u16) -> TimeDelta {
        if attempt % 2 == 0 { self.0 } else { -self.0 }
    }
}

struct Plain;
#[async_trait]
impl Executor for Plain {
    type Data = String;
    type Metadata = ();
    const NAME: &'static str = "plain_backoff";
    async fn execute(_job: Job<String, ()>) -> ExecutionResult {
        ExecutionResult::Done
    }
}

fn delay(r: &mut Rng) -> TimeDelta {
    match r.below(8) {
        0 => TimeDelta::zero(),
        1 => TimeDelta::milliseconds(r.range(0, 5_000)),
        2 => TimeDelta::seconds(r.range(0, 100)),
        3 => TimeDelta::nanoseconds(r.range(0, 3_000_000_000)),
        4 => TimeDelta::days(r.range(0, 40_000)),
        5 => *r.pick(&[TimeDelta::MAX, TimeDelta::MAX - TimeDelta::nanoseconds(1), TimeDelta::milliseconds(i64::MAX / 2), TimeDelta::seconds(i64::MAX / 1_001)]),
        6 => -TimeDelta::milliseconds(r.range(0, 100_000)),
        _ => TimeDelta::seconds(1 << r.below(50)),
    }
}

fn whole(r: &mut Rng) -> TimeDelta {
    let s = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 10),
        3 => r.range(2, 100_000),
        _ => 1 << r.below(52),
    };
    TimeDelta::seconds(s)
}

/// The smallest and largest value allowed.
fn bounds(c: &Config, attempt: u16) -> (i128, i128) {
    let a = attempt as i128;
    let (raw, max) = match &c.kind {
        Kind::Constant(d) => (ns(*d), None),
        Kind::Linear(f, m) => (mul(ns(*f), a), *m),
        Kind::Polynomial(f, p, m) => (mul(ns(*f), pow(a, *p as u64)), *m),
        Kind::Exponential(b, m) => (mul(pow(b.num_seconds() as i128, attempt as u64), NS), *m),
        Kind::Custom(d) => (if attempt % 2 == 0 { ns(*d) } else { -ns(*d) }, None),
        Kind::ExecutorDefault => (mul(pow(4, attempt as u64), NS), Some(TimeDelta::days(7))),
    };
    // A power beyond the range of i64 may be saturated before it is multiplied with the factor.
    let other = match &c.kind {
        Kind::Polynomial(f, p, _) => mul(ns(*f), pow(a, *p as u64).min(i64::MAX as i128)),
        _ => raw,
    };
    let (x, y) = (around(c, other, max), around(c, raw, max));
    (x.0.min(y.0), x.1.max(y.1))
}

fn around(c: &Config, raw: i128, max: Option<TimeDelta>) -> (i128, i128) {
    let mut v = clamp(raw);
    if let Some(m) = max {
        v = v.min(ns(m));
    }
    let jitter = if matches!(c.kind, Kind::ExecutorDefault) { Some(Jitter::Relative(0.1)) } else { c.jitter };
    let slack = match jitter {
        None => 0,
        Some(Jitter::Absolute(d)) => ns(d).abs(),
        Some(Jitter::Relative(x)) if x.is_finite() => {
            let s = (v as f64 * x).abs();
            // rounding to milliseconds and floating point
            if s > 1e33 { 1 << 110 } else { s as i128 + (s / 1e12) as i128 + 1_000_000 }
        }
        Some(Jitter::Relative(_)) => 1 << 110,
    };
    let min = ns(c.min.unwrap_or(TimeDelta::zero()));
    (clamp(v - slack).max(min), clamp(v + slack).max(min))
}

fn build(c: &Config) -> Box<dyn Fn(u16) -> TimeDelta> {
    fn finish<S: Strategy + 'static>(mut b: BackoffStrategy<S>, c: &Config) -> Box<dyn Fn(u16) -> TimeDelta> {
        if let Some(j) = c.jitter {
            b = b.with_jitter(j);
        }
        if let Some(m) = c.min {
            b = b.with_min(m);
        }
        Box::new(move |a| b.backoff(a))
    }
    match &c.kind {
        Kind::Constant(d) => finish(BackoffStrategy::constant(*d), c),
        Kind::Linear(f, m) => {
            let b = BackoffStrategy::linear(*f);
            finish(if let Some(m) = m { b.with_max(*m) } else { b }, c)
        }
        Kind::Polynomial(f, p, m) => {
            let b = BackoffStrategy::polynomial(*f, *p);
            finish(if let Some(m) = m { b.with_max(*m) } else { b }, c)
        }
        Kind::Exponential(x, m) => {
            let b = BackoffStrategy::exponential(*x);
            finish(if let Some(m) = m { b.with_max(*m) } else { b }, c)
        }
        Kind::Custom(d) => finish(BackoffStrategy::new(Twice(*d)), c),
        Kind::ExecutorDefault => Box::new(|a| {
            let now = chrono::Utc::now();
            let j = Job::<String, ()> {
                id: 1.into(), status: JobStatus::Executing, executor: "plain_backoff".into(), data: String::new(), metadata: None,
                attempt: a, max_attempts: 3, priority: 0, tags: vec![], errors: vec![], inserted_at: now, scheduled_at: now,
                attempted_at: None, completed_at: None, cancelled_at: None, discarded_at: None,
            };
            Plain::backoff(&j)
        }),
    }
}

pub fn case(sweep: bool, seed: u64, obs: &mut Obs) {
    let mut r = Rng::new(seed);
    let kind = match r.below(16) {
        0..=1 => Kind::Constant(delay(&mut r)),
        2..=5 => Kind::Linear(delay(&mut r), r.pct(50).then(|| delay(&mut r))),
        6..=9 => {
            let p = *r.pick(&[0, 1, 2, 3, 4, 10, 63, 64, 1_000, u32::MAX]);
            Kind::Polynomial(delay(&mut r), p, r.pct(50).then(|| delay(&mut r)))
        }
        10..=13 => Kind::Exponential(whole(&mut r), r.pct(50).then(|| whole(&mut r))),
        14 => Kind::Custom(delay(&mut r)),
        _ => Kind::ExecutorDefault,
    };
    let jitter = r.pct(50).then(|| {
        if r.pct(50) {
            Jitter::Absolute(delay(&mut r))
        } else {
            Jitter::Relative(*r.pick(&[0.0, 0.1, 0.25, 0.5, 1.0, -0.3, 2.5, 1e300, f64::INFINITY, f64::NAN]))
        }
    });
    let min = r.pct(40).then(|| delay(&mut r));
    let c = Config { kind, jitter: if matches!(jitter, Some(Jitter::Relative(x)) if x.is_nan()) { Some(Jitter::Relative(f64::NAN)) } else { jitter }, min };
    let c = if matches!(c.kind, Kind::ExecutorDefault) { Config { jitter: None, min: None, ..c } } else { c };
    let f = build(&c);
    let attempts: Vec<u16> = if sweep {
        (0..=u16::MAX).collect()
    } else {
        let mut v: Vec<u16> = vec![0, 1, 2, 3, 4, 5, 10, 20, 31, 32, 33, 62, 63, 64, 65, 127, 255, 256, 1_000, i16::MAX as u16, u16::MAX - 1, u16::MAX];
        v.extend((0..10).map(|_| r.next() as u16));
        v
    };
    let mut values = std::collections::BTreeSet::new();
    for a in attempts {
        let (lo, hi) = bounds(&c, a);
        let d = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(a))) {
            Ok(d) => ns(d),
            Err(p) => {
                obs.violate(&["C19"], format!("the delay of attempt {a} of {c:?} panicked: {}", crate::report::panic_msg(&p)), json!({"workload": "backoff", "case_seed": seed}));
                return;
            }
        };
        obs.count("delays", 1);
        if c.jitter.is_some() {
            obs.count("delays_with_jitter", 1);
        }
        values.insert(d);
        if d < lo || d > hi {
            obs.violate(&["C19"], format!("the delay of attempt {a} of {c:?} is {d} ns, allowed are {lo} to {hi}"), json!({"workload": "backoff", "case_seed": seed}));
            return;
        }
    }
    obs.evaluations += 1;
    if values.len() > 1 {
        obs.distinct.insert(hash_of((format!("{c:?}"), sweep)));
        obs.sample(json!({"workload": "backoff", "case_seed": seed, "config": format!("{c:?}"), "distinct_delays": values.len()}));
    }
}
