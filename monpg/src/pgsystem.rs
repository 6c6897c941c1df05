//! Whole Rexecutor instances with scripted executors on one server: a monitor over the committed
//! changes of the table and the executions.
use crate::env::{Env, job_of};
use crate::pgconf::server_stats;
use crate::val::Val;
use chrono::{TimeDelta, Utc};
use mon::exec::*;
use mon::model::*;
use mon::rec::Rec;
use mon::report::Obs;
use mon::rng::{Rng, hash_of};
use mon::sim::{Stop, boot};
use mon::with_ex;
use rexecutor::job::{ErrorType, JobStatus};
use rexecutor::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering;

#[derive(Clone, Copy)]
pub struct Knobs {
    pub name: &'static str,
    pub pause_pct: u64,
    /// An instance is shut down, at rest or in the middle of something.
    pub stop_pct: u64,
    pub same_time_pct: u64,
    pub steps: (i64, i64),
    pub burst: i64,
}

/// Executors that do not block a thread.
const EXECS: [usize; 7] = [0, 1, 2, 3, 6, 8, 9];
const LATE: TimeDelta = TimeDelta::milliseconds(1_000);
const STEP: u64 = 100;

enum Fin {
    Ended(Outcome),
    TimedOut,
}

#[derive(Default)]
struct Inst {
    up: bool,
    /// executor -> registrations
    regs: BTreeMap<usize, usize>,
    /// executor -> jobs being executed
    running: BTreeMap<usize, BTreeSet<i32>>,
    free_since: BTreeMap<usize, T>,
}

#[derive(Default)]
struct Mon {
    insts: Vec<Inst>,
    /// job -> instance whose stream yielded it, and as what
    yielded: BTreeMap<i32, VecDeque<(usize, BJob)>>,
    starts: BTreeMap<i32, VecDeque<BJob>>,
    ends: BTreeMap<i32, VecDeque<(T, Fin)>>,
    /// executing: instance, the job as claimed
    running: BTreeMap<i32, usize>,
    claimed: BTreeMap<i32, (BJob, BJob)>,
    /// The table as committed.
    rows: BTreeMap<i32, BJob>,
    since: BTreeMap<i32, T>,
    last_down: Option<T>,
    ops: BTreeSet<i32>,
    seen: usize,
    max_late_ms: i64,
    trace: Vec<String>,
    sig: Vec<u64>,
}

fn index(executor: &str) -> usize {
    CFGS.iter().position(|c| c.name == executor).expect("executor")
}

impl Mon {
    fn events(&mut self, log: &RunLog, obs: &mut Obs) -> Vec<String> {
        let mut bad = vec![];
        let events = log.events.lock().unwrap();
        for e in &events[self.seen..] {
            let t = e.t;
            match &e.ev {
                Ev::Up { inst, execs } => {
                    while self.insts.len() <= *inst {
                        self.insts.push(Inst::default());
                    }
                    let i = &mut self.insts[*inst];
                    i.up = true;
                    for ex in execs {
                        *i.regs.entry(*ex).or_default() += 1;
                        i.free_since.insert(*ex, t);
                    }
                    self.trace.push(format!("{t} instance {inst} starts with {execs:?}"));
                }
                Ev::Down { inst } => {
                    self.insts[*inst].up = false;
                    self.insts[*inst].free_since.clear();
                    self.last_down = Some(t);
                    self.trace.push(format!("{t} instance {inst} is shut down"));
                }
                Ev::Claim { inst, job } => {
                    self.trace.push(format!("{t} instance {inst} gets job {} (attempt {})", job.id, job.attempt));
                    let ex = index(&job.executor);
                    if !self.insts[*inst].up {
                        bad.push(format!("instance {inst} took job {} after it was shut down", job.id));
                    }
                    if !self.insts[*inst].regs.contains_key(&ex) {
                        bad.push(format!("instance {inst} took job {} of {}, an executor it does not have", job.id, job.executor));
                    }
                    self.yielded.entry(job.id).or_default().push_back((*inst, job.clone()));
                }
                Ev::Start { job, ordinal } => {
                    let b = to_b(job);
                    self.trace.push(format!("{t} job {} starts (execution {ordinal})", b.id));
                    self.sig.push(hash_of((b.id, b.attempt)));
                    obs.count("executions", 1);
                    if self.running.contains_key(&b.id) {
                        bad.push(format!("job {} is executed twice at the same time", b.id));
                    }
                    let Some((inst, y)) = self.yielded.get_mut(&b.id).and_then(VecDeque::pop_front) else {
                        bad.push(format!("job {} is executed without having been claimed", b.id));
                        continue;
                    };
                    let d = diff(&b, &y, TimeDelta::zero());
                    if !d.is_empty() {
                        bad.push(format!("the executor received another job than was claimed:{}", show(&b, &y, &d)));
                    }
                    let ex = index(&y.executor);
                    self.running.insert(b.id, inst);
                    let i = &mut self.insts[inst];
                    let n = i.running.entry(ex).or_default();
                    n.insert(b.id);
                    obs.max("max_parallel_executions", n.len() as u64);
                    if let Some(max) = CFGS[ex].max_concurrency {
                        if n.len() > max * i.regs.get(&ex).copied().unwrap_or(0) {
                            bad.push(format!("instance {inst} executes {} jobs of {} at once", n.len(), y.executor));
                        }
                    }
                    self.starts.entry(b.id).or_default().push_back(b);
                }
                Ev::End { id, outcome, .. } => {
                    self.trace.push(format!("{t} job {id} ends: {outcome:?}"));
                    self.ended(*id, t, Fin::Ended(outcome.clone()));
                }
                Ev::Dropped { id, .. } => {
                    self.trace.push(format!("{t} job {id} is stopped"));
                    obs.count("timeouts", 1);
                    self.ended(*id, t, Fin::TimedOut);
                }
                Ev::StreamErr { .. } | Ev::Call { .. } | Ev::Called { .. } | Ev::Slice { .. } => {}
                Ev::Runaway => bad.push("jobs are executed over and over without end".into()),
                _ => {}
            }
        }
        self.seen = events.len();
        bad
    }
    fn ended(&mut self, id: i32, t: T, how: Fin) {
        if let Some(inst) = self.running.remove(&id) {
            for s in self.insts[inst].running.values_mut() {
                s.remove(&id);
            }
        }
        self.ends.entry(id).or_default().push_back((t, how));
    }
    fn changes(&mut self, env: &Env, obs: &mut Obs) -> Vec<String> {
        let mut bad = vec![];
        let (cols, changes) = {
            let mut db = env.srv.db.lock().unwrap();
            let cols: Vec<String> = db.tables["rexecutor_jobs"].cols.iter().map(|c| c.name.clone()).collect();
            (cols, std::mem::take(&mut db.changes))
        };
        let cols: Vec<&str> = cols.iter().map(String::as_str).collect();
        let job = |r: &Option<Vec<Val>>| r.as_ref().map(|r| job_of(&cols, r));
        for c in changes {
            let at = crate::val::epoch() + TimeDelta::microseconds(c.at);
            let (old, new) = (job(&c.old), job(&c.new));
            let Some(new) = new else {
                bad.push(format!("job {:?} was deleted", old.map(|j| j.id)));
                continue;
            };
            let id = new.id;
            self.since.insert(id, at);
            self.rows.insert(id, new.clone());
            let Some(old) = old else {
                self.trace.push(format!("{at} job {id} of {} is there, scheduled for {}", new.executor, new.scheduled_at));
                continue;
            };
            if old == new {
                continue;
            }
            self.trace.push(format!("{at} job {id} {:?} -> {:?} (attempt {}, scheduled for {})", old.status, new.status, new.attempt, new.scheduled_at));
            match (old.status, new.status) {
                (_, JobStatus::Executing) => {
                    obs.count("claims", 1);
                    if !waiting(old.status) {
                        bad.push(format!("job {id} was claimed while {:?}", old.status));
                    }
                    if old.scheduled_at - at > EARLY {
                        bad.push(format!("job {id} was claimed at {at}, before its time {}", old.scheduled_at));
                    }
                    let mut want = old.clone();
                    want.status = JobStatus::Executing;
                    want.attempt += 1;
                    want.attempted_at = Some(at);
                    let d = diff(&new, &want, TimeDelta::zero());
                    if !d.is_empty() {
                        bad.push(format!("claimed job {id} has{}", show(&new, &want, &d)));
                    }
                    self.claimed.insert(id, (old, new));
                }
                (JobStatus::Executing, _) => {
                    let Some((before, claimed)) = self.claimed.remove(&id) else {
                        bad.push(format!("the end of job {id} was recorded twice"));
                        continue;
                    };
                    // given back by an instance that is shut down before the job was started
                    let back = waiting(new.status) && new.scheduled_at == before.scheduled_at && new.attempt == before.attempt && new.errors == before.errors;
                    if back && self.last_down.is_some() {
                        obs.count("claims_given_back", 1);
                        continue;
                    }
                    let Some(start) = self.starts.get_mut(&id).and_then(VecDeque::pop_front) else {
                        bad.push(format!("job {id} became {:?} without having been executed", new.status));
                        continue;
                    };
                    let d = diff(&start, &claimed, TimeDelta::zero());
                    if !d.is_empty() {
                        bad.push(format!("the executor received another job than was stored:{}", show(&start, &claimed, &d)));
                    }
                    let Some((t, fin)) = self.ends.get_mut(&id).and_then(VecDeque::pop_front) else {
                        bad.push(format!("job {id} became {:?} while it is still being executed", new.status));
                        continue;
                    };
                    let p: Payload = match serde_json::from_value(start.data.clone()) {
                        Ok(p) => p,
                        Err(e) => {
                            bad.push(format!("data of job {id}: {e}"));
                            continue;
                        }
                    };
                    let fail = |e: ErrorType, m: &str| {
                        if start.attempt >= start.max_attempts {
                            Op::Discard(id, e, m.to_owned())
                        } else {
                            Op::Retry(id, t + p.backoff(start.attempt as u16), e, m.to_owned())
                        }
                    };
                    let op = match &fin {
                        Fin::TimedOut => fail(ErrorType::Timeout, ANY_TEXT),
                        Fin::Ended(o) => match o {
                            Outcome::Done => Op::Complete(id),
                            Outcome::Cancel(r) => Op::Cancel(id, ErrorType::Cancelled, r.clone()),
                            Outcome::SnoozeMs(ms) => Op::Snooze(id, t + delta_ms(*ms)),
                            Outcome::Error(k, m) => fail(ErrorType::Other(ERR_TYPES[*k as usize % ERR_TYPES.len()].to_owned()), m),
                            Outcome::Panic(k, m) => fail(ErrorType::Panic, if *k > 1 { ANY_TEXT } else { m }),
                            Outcome::Hang => unreachable!(),
                        },
                    };
                    let name = mon::conf::op_name(&op);
                    obs.count(&format!("outcome_{name}"), 1);
                    self.sig.push(hash_of((id, name)));
                    let mut m = crate::pgconf::model();
                    m.rows.insert(id, Row { job: old, key: None });
                    for (_, what) in m.apply(&op, &Res::Ok, Some(std::slice::from_ref(&new)), at) {
                        bad.push(format!("{op:?}: {what}"));
                    }
                    for (_, _, what) in m.compare(std::slice::from_ref(&new)) {
                        bad.push(format!("after {op:?}: {what}"));
                    }
                }
                _ => {
                    if !self.ops.contains(&id) {
                        bad.push(format!("job {id} changed from {:?} to {:?} although nobody asked for it", old.status, new.status));
                    }
                }
            }
        }
        bad
    }
    fn at_rest(&mut self) -> Vec<String> {
        let mut bad = vec![];
        let now = Utc::now();
        for (id, y) in &self.yielded {
            if let Some((i, j)) = y.front() {
                bad.push(format!("instance {i} took job {id} (attempt {}) and does not execute it", j.attempt));
            }
        }
        for (id, e) in &self.ends {
            if !e.is_empty() {
                bad.push(format!("the end of job {id} has not been recorded"));
            }
        }
        for i in &mut self.insts {
            if !i.up {
                continue;
            }
            for (ex, n) in &i.regs {
                let busy = i.running.get(ex).map_or(0, BTreeSet::len);
                if CFGS[*ex].max_concurrency.is_some_and(|m| busy >= m * n) {
                    i.free_since.remove(ex);
                } else {
                    i.free_since.entry(*ex).or_insert(now);
                }
            }
        }
        for j in self.rows.values() {
            if j.status == JobStatus::Executing && !self.running.contains_key(&j.id) {
                bad.push(format!("job {} is stored as executing (attempt {}), but nobody executes it", j.id, j.attempt));
            }
            if waiting(j.status) {
                let ex = index(&j.executor);
                let Some(free) = self.insts.iter().filter(|i| i.up).filter_map(|i| i.free_since.get(&ex)).min() else { continue };
                let known = self.since.get(&j.id).copied().unwrap_or(j.inserted_at);
                let late = now - j.scheduled_at.max(known).max(*free);
                self.max_late_ms = self.max_late_ms.max(late.num_milliseconds());
                if late > LATE + TimeDelta::milliseconds(STEP as i64) {
                    bad.push(format!("job {} of {}, scheduled for {} and known since {known}, is still not executed at {now}", j.id, j.executor, j.scheduled_at));
                }
            }
        }
        bad
    }
}

fn payload(rng: &mut Rng, run: u64, key: u64) -> Payload {
    let n = *rng.pick(&[1, 1, 2, 2, 3, 5]);
    let hang = rng.pct(12);
    let steps: Vec<Step> = (0..n)
        .map(|i| {
            let slices_ms = (0..*rng.pick(&[0, 0, 1, 1, 2])).map(|_| *rng.pick(&[10, 20, 50, 100, 300, 1_000, 4_000])).collect();
            let msg = rng.pick(&["boom", "", "ünï", "a 'quoted' \"text\"", "line\nbreak"]).to_string();
            let outcome = match rng.below(10) {
                0 => Outcome::Panic(rng.below(3) as u8, msg),
                1 | 2 => Outcome::Error(rng.below(4) as u8, msg),
                3 if i + 1 < n => Outcome::SnoozeMs(*rng.pick(&[137, 200, 1_000, 5_000])),
                4 => Outcome::Cancel(msg),
                5 if hang => Outcome::Hang,
                _ => Outcome::Done,
            };
            Step { slices_ms, outcome }
        })
        .collect();
    let timeouts_ms = if hang { vec![Some(*rng.pick(&[35, 95, 1_005, 2_995]))] } else { vec![] };
    let backoffs_ms = (0..rng.range(1, 3)).map(|_| *rng.pick(&[0, 0, 10, 90, 110, 500, 4_000])).collect();
    Payload { run, key, version: 0, steps, backoffs_ms, timeouts_ms }
}

pub fn case(k: Knobs, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = mon::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let replay = json!({"workload": k.name, "case_seed": seed});
    let n_inst = rng.range(1, 3) as usize;
    let run = Run::new();
    let mut sig = vec![];
    let mut sample = vec![];
    let run_id = run.id;
    let log = run.log.clone();
    crate::env::run(rng.next(), base, async |env: &mut Env| {
        let conns = rng.range(2, 5) as u32;
        let bs = match env.backends(n_inst, conns).await {
            Ok(b) => b,
            Err(e) => {
                match env.unsupported() {
                    Some(u) => obs.errors.push(format!("the emulated server does not support: {u}")),
                    None => obs.violate(&["C29"], e, replay.clone()),
                }
                return;
            }
        };
        {
            let mut db = env.srv.db.lock().unwrap();
            db.watch = Some("rexecutor_jobs".into());
            db.watch_alone = true;
            if rng.pct(k.pause_pct) {
                db.pause_pct = *rng.pick(&[10, 30, 60]);
                env.srv.jitter.store(*rng.pick(&[1, 4, 12]), Ordering::Relaxed);
            }
        }
        let mut execs = EXECS.to_vec();
        rng.shuffle(&mut execs);
        execs.truncate(rng.range(1, 4) as usize);
        let mut m = Mon::default();
        let mut stops: Vec<Option<Stop>> = vec![];
        let start = |rng: &mut Rng, stops: &mut Vec<Option<Stop>>, inst_of: usize| {
            let i = stops.len();
            let mut ex = if i == 0 { execs.clone() } else { rng.subset(&execs, 75) };
            if rng.pct(8) && !ex.is_empty() {
                ex.push(*rng.pick(&ex));
            }
            log.push(Ev::Up { inst: i, execs: ex.clone() });
            let b = bs[inst_of].clone();
            let how = rng.next();
            let rec = Rec::new(b, i, log.clone());
            stops.push(Some(if rng.pct(70) { boot(rec, &ex, how) } else { boot(std::sync::Arc::new(rec), &ex, how) }));
        };
        if rng.pct(60) {
            for i in 0..n_inst {
                start(&mut rng, &mut stops, i);
            }
        }
        let steps = rng.range(k.steps.0, k.steps.1);
        let same = Utc::now() + TimeDelta::milliseconds(rng.range(0, 15_000));
        let mut key = 0;
        for step in 0..steps + 8 {
            let last = step >= steps;
            let now = Utc::now();
            let mut bad = vec![];
            let b = rng.pick(&bs).clone();
            let most = if rng.pct(20) { k.burst } else { 3 };
            let n_ops = if last { 0 } else { rng.range(0, most) };
            for _ in 0..n_ops {
                match rng.below(10) {
                    0..7 => {
                        let ex = *rng.pick(&execs);
                        key += 1;
                        let data = payload(&mut rng, run_id, key);
                        let at = if rng.pct(k.same_time_pct) {
                            Some(same)
                        } else if rng.pct(50) {
                            Some(now + TimeDelta::milliseconds(*rng.pick(&[-60_000, -1, 0, 10, 90, 150, 1_000, 5_000, 12_000, 29_990, 31_000])))
                        } else {
                            None
                        };
                        let max = rng.pct(50).then(|| *rng.pick(&[1u16, 2, 3, 4]));
                        let meta = rng.pct(40).then(|| Meta { note: rng.pick(&["", "n", "ünï"]).to_string(), n: rng.range(-5, 5) });
                        let prio = rng.pct(40).then(|| *rng.pick(&[0u16, 1, 2, 9]));
                        let tags: Vec<String> = (0..rng.below(3)).map(|i| format!("t{i}")).collect();
                        let (b, d2) = (&b, data.clone());
                        let (meta2, tags2) = (meta.clone(), tags.clone());
                        let r = with_ex!(ex, E => {
                            let mut j = E::builder().with_data(d2).with_tags(tags2);
                            if let Some(x) = meta2 { j = j.with_metadata(x); }
                            if let Some(x) = max { j = j.with_max_attempts(x); }
                            if let Some(x) = prio { j = j.with_priority(x); }
                            if let Some(x) = at { j = j.schedule_at(x); }
                            env.drive(j.enqueue_to_backend(b)).await
                        });
                        obs.count("enqueued", 1);
                        let id: i32 = match r {
                            Some(Ok(id)) => id.into(),
                            r => {
                                bad.push(format!("enqueueing failed: {r:?}"));
                                break;
                            }
                        };
                        // (by now it may have been executed: only what does not change is looked at)
                        match env.stored_job(id) {
                            None => bad.push(format!("job {id} was enqueued and is not there")),
                            Some(j) => {
                                let mut want = j.clone();
                                want.executor = CFGS[ex].name.into();
                                want.data = serde_json::to_value(&data).unwrap();
                                want.metadata = serde_json::to_value(&meta).unwrap();
                                want.max_attempts = max.unwrap_or(CFGS[ex].max_attempts).into();
                                want.priority = prio.unwrap_or(0).into();
                                want.tags = tags;
                                let d = diff(&j, &want, TimeDelta::zero());
                                if !d.is_empty() {
                                    bad.push(format!("enqueued job {id} has{}", show(&j, &want, &d)));
                                }
                            }
                        }
                    }
                    7 => {
                        let rows = env.stored();
                        let fin: Vec<&BJob> = rows.iter().filter(|j| terminal(j.status) && j.max_attempts < 6).collect();
                        if fin.is_empty() {
                            continue;
                        }
                        let j = (*rng.pick(&fin)).clone();
                        m.ops.insert(j.id);
                        let b = &b;
                        m.trace.push(format!("{now} rerun of job {}", j.id));
                        let r = with_ex!(index(&j.executor), E => env.drive(E::rerun_job_on_backend(j.id.into(), b)).await);
                        if !matches!(r, Some(Ok(()))) {
                            bad.push(format!("rerun of job {} failed: {r:?}", j.id));
                        }
                        obs.count("reruns", 1);
                    }
                    x => {
                        // jobs nobody is going to claim meanwhile
                        let rows = env.stored();
                        let w: Vec<&BJob> = rows.iter().filter(|j| waiting(j.status) && j.scheduled_at > now + TimeDelta::milliseconds(500)).collect();
                        if w.is_empty() {
                            continue;
                        }
                        let j = (*rng.pick(&w)).clone();
                        m.ops.insert(j.id);
                        let b = &b;
                        let cancel = x == 8;
                        let (prio, at) = (rng.pct(50).then(|| rng.below(4) as u16), rng.pct(60).then(|| now + TimeDelta::milliseconds(*rng.pick(&[-5, 0, 700, 3_000]))));
                        m.trace.push(format!("{now} {} job {}", if cancel { "cancel" } else { "update" }, j.id));
                        let r = with_ex!(index(&j.executor), E => {
                            if cancel {
                                env.drive(E::cancel_job_on_backend(j.id.into(), Box::new("not needed"), b)).await
                            } else {
                                match env.drive(E::query_jobs_on_backend(Where::id_equals(j.id.into()), b)).await {
                                    Some(Ok(js)) if js.len() == 1 => {
                                        let mut t = js.into_iter().next().unwrap();
                                        t.data.version += 1;
                                        if let Some(p) = prio { t.priority = p; }
                                        if let Some(at) = at { t.scheduled_at = at; }
                                        env.drive(E::update_job_on_backend(t, b)).await
                                    }
                                    r => {
                                        bad.push(format!("query of job {} failed: {:?}", j.id, r.map(|r| r.map(|v| v.len()))));
                                        break;
                                    }
                                }
                            }
                        });
                        if !matches!(r, Some(Ok(()))) {
                            bad.push(format!("{} of job {} failed: {r:?}", if cancel { "cancellation" } else { "update" }, j.id));
                        }
                        obs.count(if cancel { "cancellations" } else { "updates" }, 1);
                    }
                }
            }
            // an instance starts or is shut down, perhaps in the middle of something
            if !last && rng.pct(k.stop_pct) {
                for _ in 0..rng.below(60) {
                    tokio::task::yield_now().await;
                }
                let live: Vec<usize> = stops.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
                if !live.is_empty() && rng.pct(60) {
                    let i = *rng.pick(&live);
                    let stop = stops[i].take().unwrap();
                    log.push(Ev::Down { inst: i });
                    stop();
                    obs.count("shutdowns", 1);
                } else if stops.len() < 7 {
                    let of = rng.below(n_inst as u64) as usize;
                    start(&mut rng, &mut stops, of);
                }
            }
            if step == steps && stops.iter().all(Option::is_none) {
                start(&mut rng, &mut stops, 0);
            }
            let mut left = if last { 4_000 } else { *rng.pick(&[1u64, 10, 50, 100, 200, 500, 1_000, 3_000, 12_000]) };
            loop {
                env.settle().await;
                bad.extend(m.events(&log, obs));
                bad.extend(m.changes(env, obs));
                if bad.is_empty() {
                    bad.extend(m.at_rest());
                }
                if let Some(u) = env.problem.take() {
                    bad.push(u);
                }
                if left == 0 || !bad.is_empty() {
                    break;
                }
                let d = left.min(if last { STEP } else { rng.range(1, STEP as i64) as u64 });
                left -= d;
                env.advance(d).await;
            }
            m.ops.clear();
            if let Some(u) = env.unsupported() {
                obs.errors.push(format!("the emulated server does not support: {u}"));
                return;
            }
            if !bad.is_empty() {
                for what in bad {
                    let mut rp = replay.clone();
                    rp["tail"] = json!(m.trace.iter().rev().take(40).rev().collect::<Vec<_>>());
                    obs.violate(&["C29"], what, rp);
                }
                break;
            }
        }
        obs.max("max_lateness_ms", m.max_late_ms.max(0) as u64);
        server_stats(env, obs);
        sample = m.trace.iter().take(8).cloned().collect();
        sig = std::mem::take(&mut m.sig);
        log.closed.store(true, Ordering::SeqCst);
        drop(stops);
    });
    drop(run);
    obs.evaluations += 1;
    if sig.len() > 3 {
        obs.distinct.insert(hash_of(&sig));
    }
    obs.sample(json!({"workload": k.name, "case_seed": seed, "trace": sample}));
}
