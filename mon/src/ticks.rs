//! Pruner (C17) and cron (C18) runs under virtual time. The instants of the schedules are computed
//! here independently, by matching every instant's local date and time with the fields.
use crate::exec::*;
use crate::model::{T, perform, Op, New, Res, table};
use crate::rec::Rec;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use crate::with_ex;
use async_trait::async_trait;
use chrono::{DateTime, Datelike, FixedOffset, MappedLocalTime, NaiveDate, NaiveDateTime, Offset, TimeDelta, TimeZone, Timelike, Utc};
use futures::Stream;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Query};
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::JobId;
use rexecutor::prelude::*;
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde_json::json;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// A time zone with one change of its offset.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Zone {
    before: i32,
    after: i32,
    change: i64,
}

#[derive(Clone, Copy, Debug)]
pub struct ZoneOffset(Zone, i32);

impl Offset for ZoneOffset {
    fn fix(&self) -> FixedOffset {
        FixedOffset::east_opt(self.1).unwrap()
    }
}
impl std::fmt::Display for ZoneOffset {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.fix())
    }
}

impl Zone {
    fn at_utc(&self, secs: i64) -> i32 {
        if secs < self.change { self.before } else { self.after }
    }
}

impl TimeZone for Zone {
    type Offset = ZoneOffset;
    fn from_offset(o: &ZoneOffset) -> Self {
        o.0
    }
    fn offset_from_local_date(&self, d: &NaiveDate) -> MappedLocalTime<ZoneOffset> {
        self.offset_from_local_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
    }
    fn offset_from_local_datetime(&self, l: &NaiveDateTime) -> MappedLocalTime<ZoneOffset> {
        let s = l.and_utc().timestamp();
        let b = s - (self.before as i64) < self.change;
        let a = s - (self.after as i64) >= self.change;
        let o = |x| ZoneOffset(*self, x);
        match (b, a) {
            (true, true) if self.before == self.after => MappedLocalTime::Single(o(self.before)),
            (true, true) => MappedLocalTime::Ambiguous(o(self.before), o(self.after)),
            (true, false) => MappedLocalTime::Single(o(self.before)),
            (false, true) => MappedLocalTime::Single(o(self.after)),
            (false, false) => MappedLocalTime::None,
        }
    }
    fn offset_from_utc_date(&self, d: &NaiveDate) -> ZoneOffset {
        self.offset_from_utc_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
    }
    fn offset_from_utc_datetime(&self, u: &NaiveDateTime) -> ZoneOffset {
        ZoneOffset(*self, self.at_utc(u.and_utc().timestamp()))
    }
}

#[derive(Clone, Debug)]
pub struct Cron {
    pub text: String,
    /// seconds, minutes, hours, days of the month, months, days of the week (1 = Sunday), years
    sets: [Option<Vec<u32>>; 7],
    /// How long a window makes sense for it.
    pub window_s: i64,
}

fn field(r: &mut Rng, lo: u32, hi: u32) -> (String, Option<Vec<u32>>) {
    match r.below(5) {
        0 => {
            let v = r.range(lo as i64, hi as i64) as u32;
            (v.to_string(), Some(vec![v]))
        }
        1 => {
            let mut v: Vec<u32> = (0..r.range(2, 4)).map(|_| r.range(lo as i64, hi as i64) as u32).collect();
            v.sort();
            v.dedup();
            (v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), Some(v))
        }
        2 => {
            let a = r.range(lo as i64, hi as i64) as u32;
            let b = r.range(a as i64, (a as i64 + 6).min(hi as i64)) as u32;
            (format!("{a}-{b}"), Some((a..=b).collect()))
        }
        3 => {
            let top = if hi == 28 { 31 } else { hi };
            let s = r.range(2, 20.min(hi as i64 / 2)) as u32;
            (format!("*/{s}"), Some((lo..=top).step_by(s as usize).collect()))
        }
        _ => ("*".into(), None),
    }
}

impl Cron {
    fn generate(r: &mut Rng, now: T, long: bool) -> Cron {
        let star = || ("*".to_owned(), None);
        let one = |v: u32| (v.to_string(), Some(vec![v]));
        let mut f: [(String, Option<Vec<u32>>); 7] = [star(), star(), star(), star(), star(), star(), star()];
        let window_s;
        match r.below(if long { 6 } else { 4 }) {
            0 => {
                f[0] = field(r, 0, 59);
                window_s = r.range(30, 200);
            }
            1 => {
                f[0] = one(r.below(60) as u32);
                f[1] = field(r, 0, 59);
                window_s = r.range(600, 7_200);
            }
            2 => {
                f[0] = one(r.below(60) as u32);
                f[1] = one(r.below(60) as u32);
                f[2] = field(r, 0, 23);
                window_s = r.range(20_000, 260_000);
            }
            3 => {
                f[0] = one(0);
                f[1] = one(r.below(60) as u32);
                f[2] = one(r.range(5, 23) as u32);
                if r.pct(50) {
                    f[5] = field(r, 1, 7);
                }
                window_s = r.range(86_400, 86_400 * 12);
            }
            4 => {
                f[0] = one(0);
                f[1] = one(0);
                f[2] = one(r.range(5, 23) as u32);
                f[3] = field(r, 1, 28);
                if r.pct(40) {
                    f[5] = field(r, 1, 7);
                }
                window_s = r.range(86_400 * 20, 86_400 * 200);
            }
            _ => {
                f[0] = one(0);
                f[1] = one(30);
                f[2] = one(r.range(5, 23) as u32);
                f[3] = one(r.range(1, 31) as u32);
                f[4] = field(r, 1, 12);
                window_s = r.range(86_400 * 200, 86_400 * 600);
            }
        }
        if r.pct(8) {
            let y = now.year() as u32 + r.below(2) as u32;
            f[6] = (format!("{y}-{}", y + 3), Some((y..=y + 3).collect()));
        }
        let n = if f[6].1.is_some() { 7 } else { 6 };
        let text = f[..n].iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
        Cron { text, sets: f.map(|x| x.1), window_s }
    }

    /// Every instant in `(from, to]`.
    pub fn instants(&self, zone: Zone, from: T, to: T) -> Vec<T> {
        let has = |i: usize, v: u32| self.sets[i].as_ref().is_none_or(|s| s.contains(&v));
        let mut out = vec![];
        let mut s = from.timestamp() + 1;
        while s <= to.timestamp() && out.len() < 400 {
            let off = zone.at_utc(s);
            let l = DateTime::from_timestamp(s + off as i64, 0).unwrap();
            if !(has(6, l.year() as u32) && has(4, l.month()) && has(3, l.day()) && has(5, l.weekday().number_from_sunday()) && has(2, l.hour())) {
                s = (s.div_euclid(900) + 1) * 900;
            } else if !has(1, l.minute()) {
                s = (s.div_euclid(60) + 1) * 60;
            } else {
                if has(0, l.second()) {
                    out.push(DateTime::from_timestamp(s, 0).unwrap());
                }
                s += 1;
            }
        }
        out
    }
}

const UTC_ZONE: Zone = Zone { before: 0, after: 0, change: 0 };

fn base(r: &mut Rng) -> i64 {
    let b = crate::vclock::DEFAULT_BASE_MS + r.range(0, 1_500 * 86_400) * 1000;
    match r.below(4) {
        0 => b,
        // close to a full minute, hour or day
        1 => b.div_euclid(60_000) * 60_000 - *r.pick(&[0, 1, 5, 9, 10, 11, 20, 1_000]),
        2 => b.div_euclid(86_400_000) * 86_400_000 - *r.pick(&[0, 1, 9, 10, 11, 500, 3_000]),
        _ => b + r.range(0, 999),
    }
}

async fn until(t: T) {
    let d = t - Utc::now();
    if let Ok(d) = d.to_std() {
        tokio::time::sleep(d).await;
    }
}

// ---------------------------------------------------------------- pruner

#[derive(Debug, Clone)]
enum PEv {
    Begin { inst: usize, spec: PruneSpec },
    End { spec: PruneSpec, ok: bool },
    Down { inst: usize },
}

/// Counts, delays and fails prunes; everything else goes straight to the in-memory backend.
#[derive(Clone)]
struct Spy {
    inner: InMemoryBackend,
    inst: usize,
    seed: u64,
    fail_pct: u64,
    delay_pct: u64,
    max_delay_ms: u64,
    n: Arc<std::sync::atomic::AtomicU64>,
    log: Arc<Mutex<Vec<(T, PEv)>>>,
}

impl Spy {
    fn push(&self, e: PEv) {
        let t = Utc::now();
        self.log.lock().unwrap().push((t, e));
    }
}

#[async_trait]
impl Backend for Spy {
    async fn subscribe_ready_jobs(&self, e: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        self.inner.subscribe_ready_jobs(e).await
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.inner.enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.inner.mark_job_complete(id).await
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: BErr) -> Result<(), BackendError> {
        self.inner.mark_job_retryable(id, at, e).await
    }
    async fn mark_job_discarded(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.inner.mark_job_discarded(id, e).await
    }
    async fn mark_job_cancelled(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.inner.mark_job_cancelled(id, e).await
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        self.inner.mark_job_snoozed(id, at).await
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        self.push(PEv::Begin { inst: self.inst, spec: spec.clone() });
        let n = self.n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut r = Rng::new(hash_of((self.seed, n)));
        if r.pct(self.delay_pct) {
            tokio::time::sleep(Duration::from_millis(r.below(self.max_delay_ms))).await;
        } else if r.pct(20) {
            tokio::task::yield_now().await;
        }
        let res = if r.pct(self.fail_pct) { Err(BackendError::BadState) } else { self.inner.prune_jobs(spec).await };
        self.push(PEv::End { spec: spec.clone(), ok: res.is_ok() });
        res
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.inner.rerun_job(id).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.inner.update_job(job).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.inner.query(query).await
    }
}

fn canon(s: &PruneSpec) -> String {
    let mut s = s.clone();
    match &mut s.executors {
        Spec::Except(v) | Spec::Only(v) => {
            v.sort();
            v.dedup();
        }
    }
    format!("{s:?}")
}

struct PrunerCase {
    inst: usize,
    cron: Cron,
    up: T,
    down: Option<T>,
    limit: Option<usize>,
    /// canonical specs with their multiplicity
    want: BTreeMap<String, usize>,
}

fn add_policy(c: PrunerConfig, r: &mut Rng, tag: i64, want: &mut BTreeMap<String, usize>) -> PrunerConfig {
    let status = *r.pick(&JobStatus::ALL);
    let by_age = r.pct(50);
    let (len, age) = (1_000 + tag as u32, TimeDelta::seconds(100_000 + tag));
    let p = if by_age { Pruner::max_age(age, status) } else { Pruner::max_length(len, status) };
    let prune_by = if by_age { PruneBy::MaxAge(age) } else { PruneBy::MaxLength(len) };
    let (a, b) = (r.below(8) as usize, r.below(8) as usize);
    let mut note = |executors| {
        *want.entry(canon(&PruneSpec { status, prune_by, executors })).or_default() += 1;
    };
    match r.below(5) {
        0 => {
            note(Spec::Except(vec![]));
            if r.pct(50) { c.with_pruner(p) } else { c.with_pruners([p]) }
        }
        1 => {
            note(Spec::Only(vec![CFGS[a].name]));
            with_ex!(a, E => c.with_pruner(p.only::<E>()))
        }
        2 => {
            note(Spec::Except(vec![CFGS[a].name]));
            with_ex!(a, E => c.with_pruner(p.except::<E>()))
        }
        3 => {
            note(Spec::Only(vec![CFGS[a].name, CFGS[b].name]));
            with_ex!(a, E => { let p = p.only::<E>(); with_ex!(b, F => c.with_pruners(vec![p.and::<F>()])) })
        }
        _ => {
            note(Spec::Except(vec![CFGS[a].name, CFGS[b].name]));
            with_ex!(a, E => { let p = p.except::<E>(); with_ex!(b, F => c.with_pruner(p.and::<F>())) })
        }
    }
}

pub fn pruner(seed: u64, obs: &mut Obs) {
    let mut r = Rng::new(seed);
    let base = base(&mut r);
    let log: Arc<Mutex<Vec<(T, PEv)>>> = Default::default();
    let mut cases: Vec<PrunerCase> = vec![];
    let fail_pct = *r.pick(&[0, 0, 20, 60, 100]);
    let delay_pct = *r.pick(&[0, 0, 50, 100]);
    let end = crate::vclock::run_virtual(base, async {
        let inner = InMemoryBackend::new();
        for i in 0..r.below(4) {
            let n = New { executor: CFGS[(i % 8) as usize].name.into(), data: json!(i), metadata: json!(null), max_attempts: 1, scheduled_at: Utc::now() - TimeDelta::days(r.range(0, 10)), tags: vec![], priority: 0, crit: None };
            let _ = perform(&inner, &Op::Enqueue(n)).await;
        }
        let mut tag = 0;
        let mut window = 0;
        let mut stops: Vec<(usize, Box<dyn FnOnce()>)> = vec![];
        for inst in 0..r.range(1, 3) as usize {
            if inst > 0 && r.pct(50) {
                tokio::time::sleep(Duration::from_millis(r.below(2_000))).await;
            }
            let now = Utc::now();
            let crons: Vec<Cron> = (0..*r.pick(&[1, 1, 1, 2])).map(|_| Cron::generate(&mut r, now, true)).collect();
            window = window.max(crons.iter().map(|c| c.window_s).min().unwrap());
            // slow policies take up to several periods
            let max_delay_ms = *r.pick(&[20, 900, 5_000, 90_000]);
            let spy = Spy { inner: inner.clone(), inst, seed: r.next(), fail_pct, delay_pct, max_delay_ms, n: Default::default(), log: log.clone() };
            let n_crons = crons.len();
            let mut x = Rexecutor::new(spy);
            for cron in crons {
                let mut want = BTreeMap::new();
                let mut c = PrunerConfig::new(cron::Schedule::from_str(&cron.text).unwrap_or_else(|e| panic!("{}: {e}", cron.text)));
                let mut limit = Some(10);
                let early = r.pct(50);
                let set = if r.pct(75) { Some(if r.pct(30) { None } else { Some(r.range(1, 4) as usize) }) } else { None };
                if let (Some(l), true) = (set, early) {
                    c = c.with_max_concurrency(l);
                    limit = l;
                }
                for _ in 0..*r.pick(&[0, 1, 2, 3, 4, 6, 13]) {
                    tag += 1;
                    c = add_policy(c, &mut r, tag, &mut want);
                }
                if let (Some(l), false) = (set, early) {
                    c = c.with_max_concurrency(l);
                    limit = l;
                }
                x = x.with_job_pruner(c);
                cases.push(PrunerCase { inst, cron, up: now, down: None, limit, want });
            }
            let _ = n_crons;
            let how = r.below(2);
            stops.push((inst, if how == 0 { Box::new(move || x.graceful_shutdown()) } else { let g = x.drop_guard(); Box::new(move || drop(g)) }));
        }
        // at most a few hundred ticks per pruner
        for c in &cases {
            let ts = c.cron.instants(UTC_ZONE, c.up, c.up + TimeDelta::seconds(window));
            if ts.len() > 150 {
                window = window.min((ts[150] - c.up).num_seconds());
            }
        }
        let start = cases[0].up;
        let mut plan: Vec<(T, usize)> = vec![];
        for (i, _) in stops.iter().enumerate() {
            if r.pct(70) {
                let c = cases.iter().find(|c| c.inst == i).unwrap();
                let ts = c.cron.instants(UTC_ZONE, c.up, start + TimeDelta::seconds(window));
                let at = match ts.is_empty() || r.pct(30) {
                    true => start + TimeDelta::milliseconds(r.range(1, window * 1000)),
                    // around a tick
                    false => *r.pick(&ts) - TimeDelta::milliseconds(*r.pick(&[0, 1, 9, 10, 11, 50, 500, -1, -5])),
                };
                plan.push((at.max(Utc::now()), i));
            }
        }
        plan.sort();
        let mut stops: BTreeMap<usize, Box<dyn FnOnce()>> = stops.into_iter().collect();
        for (at, i) in plan {
            until(at).await;
            log.lock().unwrap().push((Utc::now(), PEv::Down { inst: i }));
            for c in cases.iter_mut().filter(|c| c.inst == i) {
                c.down = Some(Utc::now());
            }
            (stops.remove(&i).unwrap())();
        }
        until(start + TimeDelta::seconds(window + 2)).await;
        let end = Utc::now();
        // instances still up are judged up to here
        drop(stops);
        tokio::time::sleep(Duration::from_millis(1)).await;
        end
    });
    let log = std::mem::take(&mut *log.lock().unwrap());
    let replay = json!({"workload": "ticks:pruner", "case_seed": seed});
    let mut sig = vec![];
    let mut total = 0;
    for c in &cases {
        let fail = |obs: &mut Obs, extra: &[&'static str], m: String| {
            let mut p = vec!["C17"];
            p.extend(extra);
            obs.violate(&p, format!("pruner {:?} (limit {:?}, {} policies, up {}): {m}", c.cron.text, c.limit, c.want.values().sum::<usize>(), c.up), replay.clone());
        };
        let stop = c.down.unwrap_or(end);
        let ticks = c.cron.instants(UTC_ZONE, c.up, stop + TimeDelta::seconds(1));
        let n_pol: usize = c.want.values().sum();
        let mut next = 0; // index of the next tick not yet dealt with
        let mut left: BTreeMap<String, usize> = BTreeMap::new(); // of the current run
        let mut inflight = 0usize;
        let mut free_since = c.up;
        let mut last_end = c.up;
        let early = TimeDelta::milliseconds(50);
        let late = TimeDelta::milliseconds(100);
        let mut runs = 0;
        let mut ok = true;
        let mut down = false;
        let ms = |n| TimeDelta::milliseconds(n);
        for (t, e) in &log {
            let t = *t;
            match e {
                PEv::Down { inst } if *inst == c.inst => down = true,
                PEv::Begin { inst, spec } if *inst == c.inst => {
                    let k = canon(spec);
                    if !c.want.contains_key(&k) {
                        // the other pruner of the instance, or nobody's
                        if !cases.iter().any(|o| o.inst == c.inst && o.want.contains_key(&k)) {
                            fail(obs, &[], format!("a policy nobody configured was applied: {spec:?}"));
                            ok = false;
                            break;
                        }
                        continue;
                    }
                    if left.is_empty() {
                        // a new run: which tick is it for?
                        if down {
                            fail(obs, &["C11"], format!("a prune run was begun at {t}, after the shutdown"));
                            ok = false;
                            break;
                        }
                        while next < ticks.len() && ticks[next] <= last_end + ms(5) && ticks[next] + late < t {
                            next += 1;
                            obs.count("ticks_passed_during_a_run", 1);
                        }
                        let Some(tick) = ticks.get(next).copied() else {
                            fail(obs, &[], format!("a prune run was begun at {t}, where no tick is left"));
                            ok = false;
                            break;
                        };
                        if t < tick - early || t > tick + late {
                            fail(obs, &[], format!("a prune run was begun at {t}; the next tick is {tick}"));
                            ok = false;
                            break;
                        }
                        next += 1;
                        runs += 1;
                        left = c.want.clone();
                        free_since = t;
                    }
                    match left.get_mut(&k) {
                        None => {
                            fail(obs, &[], format!("{spec:?} was applied twice in the run before {t}"));
                            ok = false;
                            break;
                        }
                        Some(n) => {
                            *n -= 1;
                            if *n == 0 {
                                left.remove(&k);
                            }
                        }
                    }
                    if t - free_since > late {
                        fail(obs, &[], format!("{spec:?} was applied only at {t}, although it could have been since {free_since}"));
                        ok = false;
                        break;
                    }
                    inflight += 1;
                    total += 1;
                    obs.max("max_policies_in_flight", inflight as u64);
                    if c.limit.is_some_and(|l| inflight > l) {
                        fail(obs, &[], format!("{inflight} policies in flight at {t}"));
                        ok = false;
                        break;
                    }
                    sig.push(hash_of((inflight, left.len())));
                }
                PEv::End { spec, ok } if c.want.contains_key(&canon(spec)) => {
                    inflight -= 1;
                    free_since = t;
                    last_end = t;
                    if !ok {
                        obs.count("failed_prunes", 1);
                    }
                }
                _ => {}
            }
        }
        if !ok {
            continue;
        }
        obs.count("prune_runs", runs);
        let busy = !left.is_empty() || inflight > 0;
        if !left.is_empty() && (inflight == 0 || c.limit.is_none_or(|l| inflight < l)) && end - free_since > late {
            fail(obs, &[], format!("policies {:?} were not applied in the run for the tick {:?}", left.keys().collect::<Vec<_>>(), ticks.get(next.saturating_sub(1))));
            continue;
        }
        if !busy && n_pol > 0 {
            let missed = ticks[next..].iter().find(|x| **x > last_end.max(c.up) + ms(5) && **x + late < stop);
            if let Some(m) = missed {
                fail(obs, &[], format!("no prune run for the tick {m} (last run ended {last_end}, shutdown {:?}, end {end})", c.down));
            }
        }
    }
    obs.evaluations += 1;
    obs.count("prunes", total);
    if total > 0 {
        obs.distinct.insert(hash_of(&sig));
        obs.sample(json!({"workload": "ticks:pruner", "case_seed": seed, "schedule": cases[0].cron.text, "prunes": total}));
    }
}

// ---------------------------------------------------------------- cron

struct Reg {
    inst: usize,
    ex: usize,
    data: Payload,
    cron: Cron,
    zone: Zone,
    up: T,
    down: Option<T>,
}

pub fn cron(seed: u64, obs: &mut Obs) {
    let mut r = Rng::new(seed);
    let base = base(&mut r);
    let run = Run::new();
    let log = run.log.clone();
    let mut regs: Vec<Reg> = vec![];
    let faults = *r.pick(&[0, 0, 0, 15, 50]);
    let mut final_rows = vec![];
    let end = crate::vclock::run_virtual(base, async {
        let backend = InMemoryBackend::new();
        let mut window = 0;
        let mut stops: Vec<Box<dyn FnOnce()>> = vec![];
        let shared: Vec<Cron> = (0..2).map(|_| { let long = r.pct(6); Cron::generate(&mut r, Utc::now(), long) }).collect();
        let shared_data: Vec<u64> = vec![1, 2];
        for inst in 0..r.range(1, 2) as usize {
            if inst > 0 && r.pct(50) {
                tokio::time::sleep(Duration::from_millis(r.below(2_000))).await;
            }
            let mut rec = Rec::new(backend.clone(), inst, log.clone());
            if faults > 0 {
                let s = r.next();
                rec = rec.with_faults(Arc::new(move |what, n| what == "enqueue" && hash_of((s, n)) % 100 < faults));
            }
            let mut x = Rexecutor::new(rec);
            let now = Utc::now();
            for _ in 0..r.range(1, 3) {
                let ex = *r.pick(&[0usize, 4, 6]);
                let cron = if r.pct(60) { r.pick(&shared).clone() } else { Cron::generate(&mut r, now, false) };
                // what happens to local times a change skips or repeats is left open
                let plain_hours = cron.sets[2].as_ref().is_some_and(|h| h.iter().all(|h| *h >= 5));
                let zone = match r.below(if plain_hours { 5 } else { 3 }) {
                    0 | 1 => UTC_ZONE,
                    2 => {
                        let o = *r.pick(&[3_600, -5 * 3_600, 20_700, -34_200, 14 * 3_600, -43_200]);
                        Zone { before: o, after: o, change: 0 }
                    }
                    _ => {
                        // the change is at about 02:00 local time within the window
                        let o = *r.pick(&[3_600, -5 * 3_600, 34_200]);
                        let day = (now + TimeDelta::seconds(r.range(0, cron.window_s))).timestamp().div_euclid(86_400) * 86_400;
                        Zone { before: o, after: o + *r.pick(&[3_600, -3_600]), change: day + 7_200 - o as i64 }
                    }
                };
                // the same data may be registered for different executors, not twice for one
                let mut key = *r.pick(&shared_data);
                if regs.iter().any(|g| g.ex == ex && g.data.key == key) {
                    key = 100 + regs.len() as u64;
                }
                let outcome = match r.below(10) {
                    0 => Outcome::Error(0, "no".into()),
                    1 => Outcome::SnoozeMs(*r.pick(&[1_000, 60_000, 3_600_000])),
                    2 => Outcome::Panic(0, "no".into()),
                    _ => Outcome::Done,
                };
                let mut steps = vec![Step { slices_ms: vec![], outcome }];
                if r.pct(50) && ex != 4 {
                    steps[0].slices_ms = vec![*r.pick(&[10, 1_000, 90_000])];
                }
                steps.push(Step { slices_ms: vec![], outcome: Outcome::Done });
                let data = Payload { run: run.id, key, version: 0, steps, backoffs_ms: vec![*r.pick(&[100, 30_000, 7_200_000])], timeouts_ms: vec![] };
                let schedule = cron::Schedule::from_str(&cron.text).unwrap_or_else(|e| panic!("{}: {e}", cron.text));
                window = window.max(cron.window_s);
                regs.push(Reg { inst, ex, data: data.clone(), cron, zone, up: now, down: None });
                x = with_ex!(ex, E => match (zone.before == zone.after, zone.before) {
                    (true, 0) if r.pct(50) => x.with_cron_executor::<E>(schedule, data),
                    (true, 0) => x.with_cron_executor_for_timezone::<E, _>(schedule, data, Utc),
                    (true, o) => x.with_cron_executor_for_timezone::<E, _>(schedule, data, FixedOffset::east_opt(o).unwrap()),
                    _ => x.with_cron_executor_for_timezone::<E, _>(schedule, data, zone),
                });
            }
            let how = r.below(2);
            stops.push(if how == 0 { Box::new(move || x.graceful_shutdown()) } else { let g = x.drop_guard(); Box::new(move || drop(g)) });
        }
        let start = regs[0].up;
        for c in &regs {
            let ts = c.cron.instants(c.zone, c.up, c.up + TimeDelta::seconds(window));
            if ts.len() > 60 {
                window = window.min((ts[60] - c.up).num_seconds());
            }
        }
        // an ordinary job with the same data, without key, never stands in for a tick
        if r.pct(40) {
            let g = r.pick(&regs);
            let at = g.cron.instants(g.zone, g.up, g.up + TimeDelta::seconds(window)).first().copied().unwrap_or(start);
            let n = New { executor: CFGS[g.ex].name.into(), data: serde_json::to_value(&g.data).unwrap(), metadata: json!(null), max_attempts: 1, scheduled_at: at, tags: vec!["manual".into()], priority: 0, crit: None };
            let res = perform(&backend, &Op::Enqueue(n)).await;
            assert!(matches!(res, Res::Id(_)));
        }
        let mut plan: Vec<(T, usize)> = vec![];
        for i in 0..stops.len() {
            if r.pct(70) {
                let mine: Vec<&Reg> = regs.iter().filter(|c| c.inst == i).collect();
                let c = *r.pick(&mine);
                let ts = c.cron.instants(c.zone, c.up, start + TimeDelta::seconds(window));
                let at = match ts.is_empty() || r.pct(30) {
                    true => start + TimeDelta::milliseconds(r.range(1, window * 1000)),
                    false => *r.pick(&ts) - TimeDelta::milliseconds(*r.pick(&[0, 1, 9, 10, 11, 50, 500, -1, -5])),
                };
                plan.push((at.max(Utc::now()), i));
            }
        }
        plan.sort();
        let mut stops: BTreeMap<usize, Box<dyn FnOnce()>> = stops.into_iter().enumerate().collect();
        for (at, i) in plan {
            until(at).await;
            log.push(Ev::Down { inst: i });
            for c in regs.iter_mut().filter(|c| c.inst == i) {
                c.down = Some(Utc::now());
            }
            (stops.remove(&i).unwrap())();
        }
        until(start + TimeDelta::seconds(window + 2)).await;
        let end = Utc::now();
        final_rows = table(&backend).await.unwrap_or_default();
        log.closed.store(true, std::sync::atomic::Ordering::SeqCst);
        drop(stops);
        end
    });
    let events = std::mem::take(&mut *log.events.lock().unwrap());
    let replay = json!({"workload": "ticks:cron", "case_seed": seed});
    let mut down: BTreeMap<usize, T> = BTreeMap::new();
    // (registration, instant) -> jobs, failed attempts
    let mut got: BTreeMap<(usize, T), Vec<(i32, T)>> = BTreeMap::new();
    let mut failed: BTreeMap<(usize, T), u64> = BTreeMap::new();
    let mut starts: BTreeMap<i32, Vec<T>> = BTreeMap::new();
    let find = |inst: usize, job: &BJob| regs.iter().position(|g| g.inst == inst && CFGS[g.ex].name == job.executor && job.data == serde_json::to_value(&g.data).unwrap());
    let mut sig = vec![];
    for e in &events {
        match &e.ev {
            Ev::Down { inst } => {
                down.insert(*inst, e.t);
            }
            Ev::Called { inst, job, ok, .. } => {
                let Some(g) = find(*inst, job) else {
                    obs.violate(&["C18"], format!("cron enqueued a job that no registration of instance {inst} describes: {job:?}"), replay.clone());
                    return;
                };
                if down.contains_key(inst) {
                    obs.violate(&["C18", "C11"], format!("a cron job for {} was enqueued at {}, after the shutdown at {}", job.scheduled_at, e.t, down[inst]), replay.clone());
                    return;
                }
                sig.push(hash_of((g, ok)));
                if *ok {
                    let mut want = crate::model::new_job(job.id, job.inserted_at);
                    want.executor = CFGS[regs[g].ex].name.into();
                    want.data = job.data.clone();
                    want.metadata = json!(null);
                    want.max_attempts = CFGS[regs[g].ex].max_attempts.into();
                    want.scheduled_at = job.scheduled_at;
                    let d = crate::model::diff(job, &want, TimeDelta::zero());
                    if !d.is_empty() {
                        obs.violate(&["C18", "C20"], format!("cron job with{}", crate::model::show(job, &want, &d)), replay.clone());
                        return;
                    }
                    got.entry((g, job.scheduled_at)).or_default().push((job.id, e.t));
                } else {
                    *failed.entry((g, job.scheduled_at)).or_default() += 1;
                    obs.count("failed_enqueues", 1);
                }
            }
            Ev::Start { job, ordinal: 0 } => starts.entry(job.id.into()).or_default().push(e.t),
            _ => {}
        }
    }
    let ms = TimeDelta::milliseconds;
    let mut total = 0;
    for (i, g) in regs.iter().enumerate() {
        let stop = g.down.unwrap_or(end);
        let about = format!("cron {:?} (offset {}/{}, executor {}, up {}, down {:?})", g.cron.text, g.zone.before, g.zone.after, CFGS[g.ex].name, g.up, g.down);
        let ticks = g.cron.instants(g.zone, g.up, stop + TimeDelta::seconds(2));
        for t in &ticks {
            let jobs = got.remove(&(i, *t)).unwrap_or_default();
            let must = *t > g.up + ms(5) && *t + ms(100) < stop && !failed.contains_key(&(i, *t));
            if jobs.len() > 1 {
                obs.violate(&["C18"], format!("{about}: {} jobs for the instant {t}", jobs.len()), replay.clone());
                return;
            }
            if jobs.is_empty() && must {
                obs.violate(&["C18"], format!("{about}: no job for the instant {t}"), replay.clone());
                return;
            }
            for (id, when) in jobs {
                total += 1;
                if when > *t + ms(100) || when < *t - ms(1_000) {
                    obs.violate(&["C18"], format!("{about}: the job for {t} was enqueued at {when}"), replay.clone());
                    return;
                }
                if !final_rows.iter().any(|j| j.id == id) {
                    obs.violate(&["C18"], format!("{about}: the job {id} for {t} is not there"), replay.clone());
                    return;
                }
                let ran = starts.get(&id).map_or(0, |s| s.len());
                let someone = regs.iter().any(|o| o.ex == g.ex && o.up < *t && o.down.unwrap_or(end) > *t + ms(1_100));
                if ran == 0 && someone {
                    obs.violate(&["C18", "C02"], format!("{about}: the job {id} for {t} was not executed"), replay.clone());
                    return;
                }
                if let Some(s) = starts.get(&id).and_then(|s| s.first()) {
                    if *s < *t - ms(100) || (someone && *s > *t + ms(1_000)) {
                        obs.violate(&["C18", "C03"], format!("{about}: the job {id} for {t} was executed at {s}"), replay.clone());
                        return;
                    }
                }
            }
        }
        obs.count("ticks", ticks.len() as u64);
    }
    if let Some(((g, t), _)) = got.first_key_value() {
        let g = &regs[*g];
        obs.violate(&["C18"], format!("cron {:?} (offset {}/{}): a job for {t}, which is not an instant of its schedule while it ran (up {}, down {:?})", g.cron.text, g.zone.before, g.zone.after, g.up, g.down), replay.clone());
        return;
    }
    obs.evaluations += 1;
    obs.count("cron_jobs", total);
    if total > 0 {
        obs.distinct.insert(hash_of((&sig, total)));
        obs.sample(json!({"workload": "ticks:cron", "case_seed": seed, "schedule": regs[0].cron.text, "jobs": total}));
    }
}
