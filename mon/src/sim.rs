//! Whole-system simulations: one to three Rexecutor instances with scripted executors share an
//! in-memory backend under virtual time, while the harness enqueues, cancels, reruns, updates,
//! replaces, shuts down, restarts and injects faults. The event log is judged by `simmon`.
use crate::exec::*;
use crate::model::*;
use crate::rec::Rec;
use crate::report::Obs;
use crate::rng::{Rng, hash_of};
use crate::simmon::Monitor;
use crate::with_ex;
use chrono::{TimeDelta, Utc};
use rexecutor::backend::Backend;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::prelude::*;
use rexecutor::job::ErrorType;
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
pub struct Knobs {
    pub name: &'static str,
    pub insts: (i64, i64),
    pub first_jobs: (i64, i64),
    pub checkpoints: (i64, i64),
    /// Executors in use (indices into CFGS).
    pub execs: &'static [usize],
    pub fail_pct: u64,
    pub snooze_pct: u64,
    pub cancel_pct: u64,
    pub timeout_pct: u64,
    pub long_pct: u64,
    pub same_time_pct: u64,
    pub future_pct: u64,
    pub extreme_pct: u64,
    pub undecodable_pct: u64,
    pub fault_pct: u64,
    pub restart_pct: u64,
    pub manage_pct: u64,
    pub unique_pct: u64,
    pub paused_pct: u64,
    pub double_reg_pct: u64,
    /// Jobs that fail dozens or hundreds of times.
    pub marathon_pct: u64,
}

pub const MIX: Knobs = Knobs {
    name: "sim", insts: (1, 3), first_jobs: (1, 14), checkpoints: (4, 24), execs: &[0, 1, 2, 3, 4, 5, 6, 7, 8], fail_pct: 35,
    snooze_pct: 12, cancel_pct: 6, timeout_pct: 15, long_pct: 5, same_time_pct: 30, future_pct: 35, extreme_pct: 3,
    undecodable_pct: 2, fault_pct: 10, restart_pct: 6, manage_pct: 35, unique_pct: 15, paused_pct: 8, double_reg_pct: 10, marathon_pct: 1,
};

struct Sim {
    rng: Rng,
    k: Knobs,
    run: Run,
    backend: InMemoryBackend,
    execs: Vec<usize>,
    next_key: u64,
    undecodable: BTreeSet<i32>,
    slots: Vec<T>,
    marathons: u32,
}

pub type Stop = Box<dyn FnOnce()>;

pub fn boot<B>(b: B, execs: &[usize], how: u64) -> Stop
where
    B: Backend + Send + Sync + Clone + 'static,
{
    let mut r = Rexecutor::new(b);
    for e in execs {
        r = with_ex!(*e, E => r.with_executor::<E>());
    }
    if how % 2 == 0 {
        Box::new(move || r.graceful_shutdown())
    } else {
        let g = r.drop_guard();
        Box::new(move || drop(g))
    }
}

/// Lets every task run until nothing is left to do at this instant (time moves by a millisecond).
async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

impl Sim {
    fn step(&mut self, blocking: bool, last: bool, finite: bool) -> Step {
        let k = self.k;
        let r = &mut self.rng;
        let n = if blocking { 0 } else { *r.pick(&[0, 0, 1, 1, 1, 2, 3]) };
        let slices_ms = (0..n)
            .map(|_| {
                if r.pct(k.long_pct) { r.range(1, 60) as u64 * 60_000 } else { *r.pick(&[10, 10, 20, 50, 100, 300, 1_000, 3_000]) }
            })
            .collect();
        let x = r.below(100);
        let msg = r.pick(&["boom", "", "ünï", "a longer message: 'quoted' \"text\"", "line\nbreak"]).to_string();
        let msg = if r.pct(3) { "a very long message ☃ ".repeat(*r.pick(&[13, 60, 400])) } else { msg };
        let outcome = if x < k.fail_pct && (!last || finite) {
            match r.below(5) {
                0 => Outcome::Panic(0, msg),
                1 => Outcome::Panic(1, msg),
                2 => Outcome::Panic(2, msg),
                _ => Outcome::Error(r.below(4) as u8, msg),
            }
        } else if x < k.fail_pct + k.snooze_pct && !last {
            if r.pct(k.extreme_pct) {
                Outcome::SnoozeMs(*r.pick(&[i64::MAX, i64::MIN, 9_000_000_000_000_000, -5_000]))
            } else {
                Outcome::SnoozeMs(*r.pick(&[0, 10, 50, 100, 200, 1_000, 5_000, 60_000, 600_000]))
            }
        } else if x < k.fail_pct + k.snooze_pct + k.cancel_pct {
            Outcome::Cancel(msg)
        } else {
            Outcome::Done
        };
        Step { slices_ms, outcome }
    }

    fn payload(&mut self, ex: usize, max_attempts: u16) -> Payload {
        let blocking = CFGS[ex].blocking;
        let n = *self.rng.pick(&[1, 1, 2, 2, 3, 4, 6]);
        let finite = max_attempts <= 6;
        let mut steps: Vec<Step> = (0..n).map(|i| self.step(blocking, i == n - 1, finite)).collect();
        let k = self.k;
        let r = &mut self.rng;
        let mut timeouts_ms = vec![];
        if !blocking && r.pct(k.timeout_pct) {
            // per attempt; never equal to the length of a script
            for _ in 0..r.range(1, 4) {
                timeouts_ms.push(r.pct(75).then(|| *r.pick(&[5, 15, 45, 95, 205, 1_005, 2_995, 60_005])));
            }
            if steps.iter().all(|s| s.slices_ms.iter().sum::<u64>() > 0) && r.pct(15) {
                // no time at all: nothing that waits can finish
                timeouts_ms.push(Some(0));
                r.shuffle(&mut timeouts_ms);
            }
            if r.pct(5) {
                timeouts_ms.insert(0, Some(*r.pick(&[34_560_000_000, u64::MAX])));
            }
            if finite && timeouts_ms.iter().all(|t| t.is_some_and(|t| t < 1_000_000)) && r.pct(30) {
                let i = r.below(n as u64) as usize;
                steps[i].outcome = Outcome::Hang;
            }
            if !finite {
                timeouts_ms.push(None);
            }
        }
        let nb = r.range(1, 3);
        let backoffs_ms = (0..nb)
            .map(|_| {
                if r.pct(k.extreme_pct) {
                    *r.pick(&[i64::MAX, -1_000, 8_000_000_000_000_000])
                } else {
                    *r.pick(&[0, 0, 10, 10, 90, 110, 500, 1_000, 4_000, 16_000, 300_000])
                }
            })
            .collect();
        self.next_key += 1;
        Payload { run: self.run.id, key: self.next_key, version: 0, steps, backoffs_ms, timeouts_ms }
    }

    /// Fails until the attempts are used up.
    fn marathon(&mut self, blocking: bool) -> Payload {
        let r = &mut self.rng;
        let n = r.range(1, 4);
        let steps = (0..n)
            .map(|_| {
                let slices_ms = if blocking || r.pct(60) { vec![] } else { vec![10] };
                let m = r.pick(&["boom", "", "again"]).to_string();
                let outcome = match r.below(6) {
                    0 => Outcome::Panic(0, m),
                    1 => Outcome::Panic(1, m),
                    2 => Outcome::SnoozeMs(10),
                    _ => Outcome::Error(r.below(4) as u8, m),
                };
                Step { slices_ms, outcome }
            })
            .chain(std::iter::once(Step { slices_ms: vec![], outcome: Outcome::Error(0, "last".into()) }))
            .collect();
        let backoffs_ms = (0..r.range(1, 3)).map(|_| *r.pick(&[0, 0, 10, 110, 500])).collect();
        self.next_key += 1;
        Payload { run: self.run.id, key: self.next_key, version: 0, steps, backoffs_ms, timeouts_ms: vec![] }
    }

    fn when(&mut self, now: T) -> T {
        if !self.slots.is_empty() && self.rng.pct(self.k.same_time_pct) {
            return *self.rng.pick(&self.slots);
        }
        let ms = if self.rng.pct(self.k.future_pct) {
            *self.rng.pick(&[10, 50, 90, 100, 110, 200, 1_000, 2_500, 10_000, 29_990, 30_010, 31_000, 120_000, 1_800_000])
        } else {
            *self.rng.pick(&[0, 0, 0, 0, -10, -1_000, -86_400_000])
        };
        let t = now + TimeDelta::milliseconds(ms);
        self.slots.push(t);
        if self.slots.len() > 4 {
            self.slots.remove(0);
        }
        t
    }

    /// Enqueues through the builder of the executor.
    async fn enqueue(&mut self, crit: Option<Crit>) {
        let now = Utc::now();
        let ex = *self.rng.pick(&self.execs);
        let explicit = self.rng.pct(40).then(|| *self.rng.pick(&[1u16, 2, 3, 4, 6]));
        let mut explicit = explicit;
        if crit.is_none() && self.rng.pct(self.k.extreme_pct) {
            explicit = Some(*self.rng.pick(&[0, u16::MAX]));
        }
        let marathon = crit.is_none() && self.marathons < 2 && self.rng.pct(self.k.marathon_pct);
        if marathon {
            self.marathons += 1;
            explicit = Some(*self.rng.pick(&[22, 40, 40, 70, 140, 300]));
        }
        let max = explicit.unwrap_or(CFGS[ex].max_attempts);
        let data = if marathon { self.marathon(CFGS[ex].blocking) } else { self.payload(ex, max) };
        let meta = self.rng.pct(50).then(|| Meta { note: self.rng.pick(&["", "n", "ünï"]).to_string(), n: self.rng.range(-5, 5) });
        let prio = self.rng.pct(60).then(|| self.rng.wide(&[0, 1, 2, 3, 9, u16::MAX]));
        let at = self.rng.pct(85).then(|| self.when(now));
        let tags: Vec<String> = (0..self.rng.below(3)).map(|i| format!("t{i}")).collect();
        let undec = crit.is_none() && self.rng.pct(self.k.undecodable_pct);
        let n = New {
            executor: CFGS[ex].name.to_owned(),
            data: serde_json::to_value(&data).unwrap(),
            metadata: serde_json::to_value(&meta).unwrap(),
            max_attempts: max,
            scheduled_at: at.unwrap_or(now),
            tags: tags.clone(),
            priority: prio.unwrap_or(0),
            crit,
        };
        if undec {
            let mut n = n;
            match self.rng.below(3) {
                0 => n.data = json!("not a payload"),
                1 => n.data = json!({"run": "x"}),
                _ => n.metadata = json!([1, 2]),
            }
            let op = Op::Enqueue(n);
            let res = perform(&self.backend, &op).await;
            if let Res::Id(id) = res {
                self.undecodable.insert(id);
            }
            self.run.log.push(Ev::Op { op: Box::new(op), res, after: None });
            return;
        }
        let res = {
            let crit = n.crit.as_ref().map(|c| c.build());
            let b = &self.backend;
            let r = with_ex!(ex, E => {
                let mut j = E::builder().with_data(data);
                if let Some(m) = meta { j = j.with_metadata(m); }
                if let Some(m) = explicit { j = j.with_max_attempts(m); }
                if let Some(p) = prio { j = j.with_priority(p); }
                if let Some(at) = at { j = j.schedule_at(at); }
                if tags.len() == 1 { j = j.add_tag(tags[0].clone()); } else { j = j.with_tags(tags); }
                if let Some(c) = crit { j = j.unique(c); }
                j.enqueue_to_backend(b).await
            });
            match r {
                Ok(id) => Res::Id(id.into()),
                Err(e) => Res::Err(format!("{e:?}")),
            }
        };
        self.run.log.push(Ev::Op { op: Box::new(Op::Enqueue(n)), res, after: None });
    }

    fn crit(&mut self) -> Crit {
        let r = &mut self.rng;
        let statuses = match r.below(4) {
            0 => vec![JobStatus::Scheduled],
            1 => vec![JobStatus::Scheduled, JobStatus::Retryable],
            2 => vec![JobStatus::Scheduled, JobStatus::Retryable, JobStatus::Executing],
            _ => JobStatus::ALL.to_vec(),
        };
        let replace = r.pct(75).then(|| Rep {
            scheduled_at: r.pct(50),
            data: false,
            metadata: r.pct(30),
            priority: r.pct(40),
            max_attempts: r.pct(30),
            statuses: match r.below(3) {
                0 => vec![JobStatus::Scheduled],
                1 => vec![JobStatus::Scheduled, JobStatus::Retryable],
                _ => vec![JobStatus::Scheduled, JobStatus::Retryable, JobStatus::Complete, JobStatus::Executing],
            },
        });
        let replace = replace.map(|mut r| {
            if r.statuses.contains(&JobStatus::Executing) {
                r.max_attempts = false;
            }
            r
        });
        Crit { key: Some(r.below(3)), executor: r.pct(90), within: None, statuses, replace, shape: r.next() }
    }

    async fn manage(&mut self) {
        let now = Utc::now();
        let Ok(rows) = table(&self.backend).await else { return };
        let rows: Vec<BJob> = rows.into_iter().filter(|j| !self.undecodable.contains(&j.id)).collect();
        if rows.is_empty() {
            return;
        }
        let j = self.rng.pick(&rows).clone();
        let ex = CFGS.iter().position(|c| c.name == j.executor).unwrap();
        let (op, after) = if terminal(j.status) {
            if self.rng.pct(80) {
                let b = &self.backend;
                let r = with_ex!(ex, E => E::rerun_job_on_backend(j.id.into(), b).await);
                let after = table(&self.backend).await.ok().and_then(|t| t.into_iter().find(|x| x.id == j.id));
                ((Op::Rerun(j.id), r.map_err(|e| format!("{e:?}"))), after)
            } else {
                // cancelling a finished job records the cancellation
                let b = &self.backend;
                let r = with_ex!(ex, E => E::cancel_job_on_backend(j.id.into(), Box::new("again"), b).await);
                ((Op::Cancel(j.id, ErrorType::Cancelled, "again".into()), r.map_err(|e| format!("{e:?}"))), None)
            }
        } else if waiting(j.status) && self.rng.pct(35) {
            let reason = format!("no longer needed {}", self.rng.below(3));
            let b = &self.backend;
            let rs = reason.clone();
            let r = with_ex!(ex, E => E::cancel_job_on_backend(j.id.into(), Box::new(rs), b).await);
            ((Op::Cancel(j.id, ErrorType::Cancelled, reason), r.map_err(|e| format!("{e:?}"))), None)
        } else {
            let when = self.when(now);
            let executing = j.status == JobStatus::Executing;
            let mut r2 = self.rng.fork();
            let b = &self.backend;
            let id = j.id;
            let res = with_ex!(ex, E => {
                match E::query_jobs_on_backend(Where::id_equals(id.into()), b).await {
                    Ok(js) if js.len() == 1 => {
                        let mut x = js.into_iter().next().unwrap();
                        let d0 = x.data.clone();
                        if r2.pct(40) { x.data.version += 1; }
                        if r2.pct(30) { x.metadata = Some(Meta { note: "updated".into(), n: 1 }); }
                        if r2.pct(30) { x.tags = vec!["updated".into()]; }
                        if r2.pct(50) { x.priority = r2.wide(&[0, 1, 2, 5]); }
                        if r2.pct(60) && !executing { x.scheduled_at = when; }
                        if r2.pct(40) && !executing { x.max_attempts = *r2.pick(&[1, 2, 3, 5]); }
                        let _ = d0;
                        let op = Op::Update(to_b(&x));
                        let r = E::update_job_on_backend(x, b).await;
                        Some((op, r.map_err(|e| format!("{e:?}"))))
                    }
                    Ok(js) => Some((Op::Query(Q::Id(id)), Err(format!("{} jobs for one id", js.len())))),
                    Err(e) => Some((Op::Query(Q::Id(id)), Err(format!("{e:?}")))),
                }
            });
            match res {
                Some(x) => (x, None),
                None => return,
            }
        };
        let (op, r) = op;
        let res = match r {
            Ok(()) => Res::Ok,
            Err(e) => Res::Err(e),
        };
        self.run.log.push(Ev::Op { op: Box::new(op), res, after: after.map(Box::new) });
    }

    fn start_instance(&mut self, inst: usize, faults: bool, seed: u64) -> Stop {
        let mut execs = self.execs.clone();
        if inst > 0 {
            execs = self.rng.subset(&execs, 75);
            if execs.is_empty() {
                execs = vec![*self.rng.pick(&self.execs)];
            }
        }
        if self.rng.pct(self.k.double_reg_pct) {
            execs.push(*self.rng.pick(&execs));
        }
        self.rng.shuffle(&mut execs);
        let mut rec = Rec::new(self.backend.clone(), inst, self.run.log.clone());
        if faults {
            let rate = *self.rng.pick(&[5, 20, 50]);
            rec = rec.with_faults(Arc::new(move |what, n| hash_of((seed, what, n)) % 100 < rate));
        }
        self.run.log.push(Ev::Up { inst, execs: execs.clone() });
        let how = self.rng.next();
        if self.rng.pct(50) { boot(rec, &execs, how) } else { boot(Arc::new(rec), &execs, how) }
    }
}

pub fn case(k: Knobs, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = crate::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000;
    let run = Run::new();
    let log = run.log.clone();
    let paused = rng.pct(k.paused_pct);
    let faults = rng.pct(k.fault_pct);
    let mut n_ex = rng.range(1, 4.min(k.execs.len() as i64)) as usize;
    if rng.pct(20) {
        n_ex = k.execs.len();
    }
    let mut execs = k.execs.to_vec();
    rng.shuffle(&mut execs);
    execs.truncate(n_ex);
    let replay = json!({"workload": format!("sim:{}", k.name), "case_seed": seed});
    let mut undecodable = BTreeSet::new();
    crate::vclock::run_virtual(base, async {
        let backend = if paused { InMemoryBackend::new().paused() } else { InMemoryBackend::new() };
        let mut s = Sim { rng: rng.fork(), k, run, backend, execs, next_key: 0, undecodable: BTreeSet::new(), slots: vec![], marathons: 0 };
        let n_inst = rng.range(k.insts.0, k.insts.1) as usize;
        let mut stops: Vec<Option<Stop>> = vec![];
        let before = rng.pct(50);
        if !before {
            for i in 0..n_inst {
                let st = s.start_instance(i, faults, rng.next());
                stops.push(Some(st));
            }
            if rng.pct(70) {
                settle().await;
            }
        }
        for _ in 0..rng.range(k.first_jobs.0, k.first_jobs.1) {
            let c = s.rng.pct(k.unique_pct).then(|| s.crit());
            s.enqueue(c).await;
        }
        if before {
            for i in 0..n_inst {
                let st = s.start_instance(i, faults, rng.next());
                stops.push(Some(st));
            }
        }
        for _ in 0..rng.range(k.checkpoints.0, k.checkpoints.1) {
            let ms = *rng.pick(&[1, 10, 10, 40, 90, 100, 200, 500, 1_000, 1_100, 3_000, 20_000, 40_000]);
            tokio::time::sleep(Duration::from_millis(ms)).await;
            if rng.pct(30) {
                tokio::task::yield_now().await;
            }
            for _ in 0..rng.range(0, 3) {
                let x = rng.below(100);
                if x < k.manage_pct {
                    s.manage().await;
                } else if x < k.manage_pct + k.unique_pct {
                    let c = s.crit();
                    s.enqueue(Some(c)).await;
                } else if rng.pct(60) {
                    s.enqueue(None).await;
                }
            }
            if rng.pct(k.restart_pct) {
                let live: Vec<usize> = stops.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
                if !live.is_empty() {
                    let i = *rng.pick(&live);
                    let stop = stops[i].take().unwrap();
                    s.run.log.push(Ev::Down { inst: i });
                    stop();
                }
            }
            if rng.pct(k.restart_pct) && stops.len() < 6 {
                let i = stops.len();
                let st = s.start_instance(i, faults, rng.next());
                stops.push(Some(st));
            }
            if paused && rng.pct(50) {
                s.run.log.push(Ev::Wake);
                let _ = s.backend.notify_all();
            }
            settle().await;
            if let Ok(t) = table(&s.backend).await {
                s.run.log.push(Ev::Table { jobs: t });
            }
        }
        if stops.iter().all(|s| s.is_none()) && rng.pct(70) {
            let st = s.start_instance(stops.len(), faults, rng.next());
            stops.push(Some(st));
        }
        // let everything finish
        for ms in [2_000, 10_000, 60_000, 400_000, 700_000, 2_000_000] {
            if paused {
                s.run.log.push(Ev::Wake);
                let _ = s.backend.notify_all();
            }
            tokio::time::sleep(Duration::from_millis(ms)).await;
            settle().await;
            if let Ok(t) = table(&s.backend).await {
                s.run.log.push(Ev::Table { jobs: t });
            }
        }
        s.run.log.closed.store(true, std::sync::atomic::Ordering::SeqCst);
        undecodable = s.undecodable.clone();
        drop(stops);
    });
    let events = std::mem::take(&mut *log.events.lock().unwrap());
    let start = events.first().map_or_else(Utc::now, |e| e.t);
    obs.count("events", events.len() as u64);
    if std::env::var_os("MON_DUMP").is_some() {
        println!("paused={paused} faults={faults}");
        for e in &events {
            println!("{} {:?}", e.t.format("%H:%M:%S%.3f"), e.ev);
        }
    }
    let before = obs.violations.len();
    let mut mon = Monitor::new(obs, replay, start, paused, faults, undecodable);
    for e in &events {
        mon.event(e);
    }
    let (sig, len) = mon.finish();
    obs.evaluations += 1;
    if len >= 3 {
        obs.distinct.insert(sig);
    }
    if obs.violations.len() == before {
        let head: Vec<String> = events.iter().take(5).map(|e| {
            let mut s = format!("{} {:?}", e.t.format("%H:%M:%S%.3f"), e.ev);
            s.truncate(s.char_indices().nth(220).map_or(s.len(), |x| x.0));
            s
        }).collect();
        obs.sample(json!({"workload": format!("sim:{}", k.name), "case_seed": seed, "events": events.len(), "first_events": head}));
    }
}
