//! Generators of jobs, criteria, queries and prune specifications, biased towards collisions with
//! what is already in the table.
use crate::exec::BJob;
use crate::model::*;
use crate::rng::Rng;
use chrono::TimeDelta;
use rexecutor::job::{ErrorType, JobStatus};
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde_json::{Value, json};

/// Names that are prefixes and case variants of each other, and odd ones.
pub const EXECUTORS: [&str; 7] = ["alpha", "alpha_serial", "Alpha", "beta", "", "al%ha", "gamma'; --"];
pub const TAGS: [&str; 8] = ["a", "b", "a b", "", "A", "tag,with,commas", "ü{}\"", "ab"];

pub struct Gen {
    pub rng: Rng,
    /// Datetime precision is limited to microseconds (Postgres).
    pub micros: bool,
}

impl Gen {
    pub fn new(rng: Rng) -> Self {
        Self { rng, micros: true }
    }
    pub fn value(&mut self, depth: u32) -> Value {
        let r = &mut self.rng;
        if r.pct(2) {
            return match r.below(3) {
                0 => json!("long text ☃ ".repeat(r.range(20, 60) as usize)),
                1 => Value::Array((0..r.range(10, 80)).map(|i| json!(i)).collect()),
                _ => Value::Object((0..r.range(9, 40)).map(|i| (format!("k{i}"), json!(i))).collect()),
            };
        }
        match r.below(if depth == 0 { 8 } else { 11 }) {
            0 => Value::Null,
            1 => json!(r.pct(50)),
            2 => json!(r.range(-2, 3)),
            3 => json!(["", "data", "Data", "null", "1", "O'Reilly", "ünïcode ☃", "a\\\"b\n"][r.below(8) as usize]),
            4 => json!(i64::MIN + r.range(0, 1)),
            5 => json!(u64::MAX - r.below(2)),
            6 => json!((r.range(-1000, 1000) as f64) / 8.0 + 0.5),
            7 => json!({}),
            8 => Value::Array((0..r.below(3)).map(|_| self.value(depth - 1)).collect()),
            _ => {
                let n = r.below(3);
                Value::Object(
                    (0..n)
                        .map(|_| {
                            let k = ["k", "K", "key with space", "0"][self.rng.below(4) as usize].to_owned();
                            (k, self.value(depth - 1))
                        })
                        .collect(),
                )
            }
        }
    }
    pub fn time(&mut self, now: T, rows: &[BJob]) -> T {
        if !rows.is_empty() && self.rng.pct(35) {
            // equal or next to an existing one
            let t = self.rng.pick(rows).scheduled_at;
            return match self.rng.below(8) {
                0 => t + TimeDelta::microseconds(1),
                1 => t - TimeDelta::microseconds(1),
                2 => t + TimeDelta::milliseconds(1),
                _ => t,
            };
        }
        let ms = *self.rng.pick(&[
            -86_400_000 * 3, -86_400_000, -3_600_000, -61_000, -10_000, -1_000, -100, -1, 0, 0, 0, 0, 1, 50, 99, 101, 150, 1_000,
            10_000, 61_000, 3_600_000, 86_400_000, 86_400_000 * 40,
        ]);
        let jit = if self.rng.pct(30) { self.rng.range(-500, 500) } else { 0 };
        now + TimeDelta::milliseconds(ms) + TimeDelta::microseconds(jit)
    }
    pub fn tags(&mut self) -> Vec<String> {
        let n = if self.rng.pct(4) { *self.rng.pick(&[9, 17, 40]) } else { *self.rng.pick(&[0, 0, 1, 1, 2, 2, 3, 4]) };
        if n > 8 {
            // many different tags
            return (0..n).map(|i| if i % 3 == 0 { self.rng.pick(&TAGS).to_string() } else { format!("tag{i}") }).collect();
        }
        (0..n).map(|_| self.rng.pick(&TAGS).to_string()).collect()
    }
    pub fn statuses(&mut self, p: u64) -> Vec<JobStatus> {
        let mut s = self.rng.subset(&JobStatus::ALL, p);
        self.rng.shuffle(&mut s);
        s
    }
    pub fn crit(&mut self) -> Crit {
        let within = self.rng.pct(40).then(|| {
            let ms = *self.rng.pick(&[0, 1, 50, 1_000, 5_000, 60_000, 3_600_000, 86_400_000, 86_400_000 * 2]);
            TimeDelta::milliseconds(ms)
        });
        let statuses = match self.rng.below(5) {
            0 => vec![JobStatus::Scheduled],
            1 => JobStatus::ALL.to_vec(),
            2 => vec![JobStatus::Scheduled, JobStatus::Retryable, JobStatus::Executing],
            _ => self.statuses(50),
        };
        let replace = self.rng.pct(60).then(|| Rep {
            scheduled_at: self.rng.pct(40),
            data: self.rng.pct(40),
            metadata: self.rng.pct(40),
            priority: self.rng.pct(40),
            max_attempts: self.rng.pct(40),
            statuses: if self.rng.pct(30) { vec![JobStatus::Scheduled] } else { self.statuses(60) },
        });
        Crit {
            key: self.rng.pct(65).then(|| if self.rng.pct(10) { *self.rng.pick(&[u64::MAX, 1 << 40, 255, 256]) } else { self.rng.below(4) }),
            executor: self.rng.pct(50),
            within,
            statuses,
            replace,
            shape: self.rng.next(),
        }
    }
    pub fn new_job(&mut self, now: T, rows: &[BJob], unique_pct: u64) -> New {
        let copy = (!rows.is_empty() && self.rng.pct(25)).then(|| self.rng.pick(rows).clone());
        let mut n = New {
            executor: copy.as_ref().map_or_else(|| self.rng.pick(&EXECUTORS[..4]).to_string(), |j| j.executor.clone()),
            data: copy.as_ref().map_or_else(|| self.value(2), |j| j.data.clone()),
            metadata: self.value(1),
            max_attempts: self.rng.wide(&[0, 1, 1, 2, 3, 5, 20, u16::MAX]),
            scheduled_at: self.time(now, rows),
            tags: self.tags(),
            priority: self.rng.wide(&[0, 0, 1, 1, 2, 3, 100, u16::MAX]),
            crit: self.rng.pct(unique_pct).then(|| self.crit()),
        };
        if let Some(w) = n.crit.as_ref().and_then(|c| c.within) {
            if !rows.is_empty() && self.rng.pct(25) {
                // just at the edge of the window around an existing job
                let t = self.rng.pick(rows).scheduled_at;
                let edge = w + TimeDelta::microseconds(*self.rng.pick(&[-1, 0, 0, 1]));
                n.scheduled_at = if self.rng.pct(50) { t + edge } else { t - edge };
            }
        }
        n
    }
    pub fn error_type(&mut self) -> ErrorType {
        match self.rng.below(4) {
            0 => ErrorType::Panic,
            1 => ErrorType::Timeout,
            2 => ErrorType::Cancelled,
            _ => ErrorType::Other(self.rng.pick(&["network", "", "Panic", "o'ther", "cancel"]).to_string()),
        }
    }
    pub fn text(&mut self) -> String {
        if self.rng.pct(4) {
            return "an unusually long message ☃ ".repeat(*self.rng.pick(&[10, 11, 45, 300]));
        }
        self.rng.pick(&["", "boom", "no longer needed", "ünïcode ☃", "quote ' \" \\", "line\nbreak"]).to_string()
    }
    pub fn update(&mut self, target: &BJob, now: T, rows: &[BJob]) -> BJob {
        let mut j = target.clone();
        if self.rng.pct(50) {
            j.data = self.value(2);
        }
        if self.rng.pct(50) {
            j.metadata = self.value(1);
        }
        if self.rng.pct(50) {
            j.tags = self.tags();
        }
        if self.rng.pct(50) {
            j.priority = self.rng.wide(&[0, 1, 2, 3, 7]).into();
        }
        if self.rng.pct(50) {
            j.scheduled_at = self.time(now, rows);
        }
        if self.rng.pct(50) {
            j.max_attempts = self.rng.wide(&[0, 1, 2, 5, 65_535]).into();
        }
        j
    }
    /// A copy with stale or made-up lifecycle state, which an update must not apply.
    pub fn stale(&mut self, j: &mut BJob, now: T) {
        j.status = *self.rng.pick(&JobStatus::ALL);
        j.attempt = self.rng.range(0, 9) as i32;
        if self.rng.pct(50) {
            j.errors.clear();
        }
        j.attempted_at = self.rng.pct(50).then_some(now - TimeDelta::hours(3));
        j.completed_at = self.rng.pct(50).then_some(now - TimeDelta::hours(2));
        j.cancelled_at = self.rng.pct(50).then_some(now - TimeDelta::hours(1));
        j.discarded_at = self.rng.pct(50).then_some(now);
        j.inserted_at = now - TimeDelta::days(9);
    }
    pub fn prune(&mut self, now: T, rows: &[BJob]) -> PruneSpec {
        let status = if rows.is_empty() || self.rng.pct(30) { *self.rng.pick(&JobStatus::ALL) } else { self.rng.pick(rows).status };
        let names = self.rng.subset(&EXECUTORS[..4], 40);
        let executors = match self.rng.below(4) {
            0 => Spec::Except(vec![]),
            1 => Spec::Only(names),
            _ => Spec::Except(names),
        };
        let prune_by = if self.rng.pct(50) {
            PruneBy::MaxLength(*self.rng.pick(&[0, 0, 1, 2, 3, 5, 8, 12, 20, 50, 100, 300, u32::MAX]))
        } else if rows.is_empty() || self.rng.pct(40) {
            PruneBy::MaxAge(TimeDelta::milliseconds(*self.rng.pick(&[0, 1, 1_000, 61_000, 3_600_000, 86_400_000])))
        } else {
            // just around the age of an existing job
            let d = (now - self.rng.pick(rows).scheduled_at).abs();
            PruneBy::MaxAge(d + TimeDelta::microseconds(*self.rng.pick(&[-1_000, -1, 0, 1, 1_000])))
        };
        PruneSpec { status, prune_by, executors }
    }
    pub fn query(&mut self, depth: u32, now: T, rows: &[BJob]) -> Q {
        if depth > 0 && self.rng.pct(65) {
            return match self.rng.below(5) {
                0 => Q::Not(Box::new(self.query(depth - 1, now, rows))),
                k => {
                    let n = if self.rng.pct(3) { *self.rng.pick(&[6, 9, 17]) } else { *self.rng.pick(&[0, 1, 2, 2, 2, 3, 3]) };
                    let qs = (0..n).map(|_| self.query(depth - 1, now, rows)).collect();
                    if k < 3 { Q::And(qs) } else { Q::Or(qs) }
                }
            };
        }
        let some = (!rows.is_empty() && self.rng.pct(75)).then(|| self.rng.pick(rows).clone());
        let ids = |g: &mut Self| {
            let n = if g.rng.pct(10) { *g.rng.pick(&[9, 17, 33, 100]) } else { *g.rng.pick(&[0, 1, 2, 3, 6]) };
            (0..n)
                .map(|_| if rows.is_empty() || g.rng.pct(15) { g.rng.range(-1, 9999) as i32 } else { g.rng.pick(rows).id })
                .collect()
        };
        match self.rng.below(11) {
            0 => Q::Executor(some.map_or_else(|| self.rng.pick(&EXECUTORS).to_string(), |j| j.executor)),
            1 => Q::Data(some.map_or_else(|| self.value(2), |j| j.data)),
            2 => Q::Metadata(some.map_or_else(|| self.value(1), |j| j.metadata)),
            3 => Q::Id(some.map_or_else(|| self.rng.range(-1, 50) as i32, |j| j.id)),
            4 => Q::IdIn(ids(self)),
            5 => Q::Status(some.map_or_else(|| *self.rng.pick(&JobStatus::ALL), |j| j.status)),
            6 | 7 => {
                let mut ts = match some {
                    Some(j) => self.rng.subset(&j.tags, 70),
                    None => self.tags(),
                };
                if self.rng.pct(25) {
                    ts.push(self.rng.pick(&TAGS).to_string());
                }
                if self.rng.pct(50) { Q::TagsAll(ts) } else { Q::TagsAny(ts) }
            }
            k => {
                let mut t = some.map_or(now, |j| j.scheduled_at);
                t += TimeDelta::microseconds(*self.rng.pick(&[0, 0, 0, 1, -1, 1_000_000, -1_000_000]));
                match k {
                    8 => Q::Before(t),
                    9 => Q::After(t),
                    _ => Q::At(t),
                }
            }
        }
    }
}

/// Values whose jsonb form is exactly the JSON one (no integral floats).
pub fn exact(v: &mut Value) {
    match v {
        Value::Number(n) => {
            if let Some(f) = n.as_f64().filter(|_| n.is_f64())
                && f.fract() == 0.0
            {
                *v = json!(f + 0.25);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(exact),
        Value::Object(o) => o.values_mut().for_each(exact),
        _ => {}
    }
}
