//! The trace monitor of the simulations: consumes the event log of a run in order and checks it
//! against the trace specification (claims, executions, outcomes, limits, promptness) with the
//! reference model inside.
use crate::exec::*;
use crate::model::*;
use crate::report::Obs;
use crate::rng::hash_of;
use chrono::TimeDelta;
use rexecutor::job::{ErrorType, JobStatus};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const PROMPT: TimeDelta = TimeDelta::milliseconds(1_000);

#[derive(Debug, Clone)]
struct Active {
    ordinal: usize,
    inst: usize,
    start: T,
    /// None: never ends.
    ends: Option<(T, bool)>,
    backoff: TimeDelta,
    is_final: bool,
    outcome: Outcome,
}

#[derive(Debug, Clone, Default)]
struct Inst {
    up: bool,
    ever_down: bool,
    /// executor -> registrations
    regs: BTreeMap<usize, usize>,
    /// executor -> claimed and not ended
    inflight: BTreeMap<usize, BTreeSet<i32>>,
    /// executor -> since when there is a free slot
    free_since: BTreeMap<usize, Option<T>>,
}

pub struct Monitor<'a> {
    pub m: Model,
    obs: &'a mut Obs,
    replay: Value,
    now: T,
    insts: BTreeMap<usize, Inst>,
    active: HashMap<i32, Vec<Active>>,
    claimed: HashMap<i32, Vec<(usize, T)>>,
    /// Ended executions whose outcome has not been recorded yet: (execution, timed out, when, recording failed).
    pending: HashMap<i32, (Active, bool, T, bool)>,
    /// When the outcome of the job was last recorded (table rows may lag within this instant).
    ended_at: HashMap<i32, T>,
    waiting_since: HashMap<i32, T>,
    changed_at: HashMap<i32, T>,
    undecodable: BTreeSet<i32>,
    tainted: BTreeSet<i32>,
    touched: HashMap<i32, BTreeSet<&'static str>>,
    paused: bool,
    last_wake: Option<T>,
    /// Jobs unchanged since the last wake-up call (paused backends).
    armed: BTreeSet<i32>,
    any_failure: bool,
    any_faults: bool,
    any_down: bool,
    restarted: bool,
    reported: bool,
    sig: Vec<u64>,
    recent: std::collections::VecDeque<String>,
}

fn exec_index(name: &str) -> Option<usize> {
    CFGS.iter().position(|c| c.name == name)
}

fn sat_add(t: T, d: TimeDelta) -> T {
    t.checked_add_signed(d).unwrap_or(if d < TimeDelta::zero() { T::MIN_UTC } else { T::MAX_UTC })
}

impl<'a> Monitor<'a> {
    pub fn new(obs: &'a mut Obs, replay: Value, start: T, paused: bool, faults: bool, undecodable: BTreeSet<i32>) -> Self {
        Self {
            m: Model { tol: TimeDelta::milliseconds(5), ..Model::new() },
            obs,
            replay,
            now: start,
            insts: Default::default(),
            active: Default::default(),
            claimed: Default::default(),
            pending: Default::default(),
            ended_at: Default::default(),
            waiting_since: Default::default(),
            changed_at: Default::default(),
            undecodable,
            tainted: Default::default(),
            touched: Default::default(),
            paused,
            last_wake: None,
            armed: Default::default(),
            any_failure: false,
            any_faults: faults,
            any_down: false,
            restarted: false,
            reported: false,
            sig: vec![],
            recent: Default::default(),
        }
    }

    fn violate(&mut self, props: &[&'static str], id: Option<i32>, msg: String) {
        let mut p: Vec<&'static str> = props.to_vec();
        if let Some(t) = id.and_then(|id| self.touched.get(&id)) {
            p.extend(t.iter());
        }
        if self.any_failure || self.any_faults || !self.undecodable.is_empty() {
            p.push("C08");
        }
        if self.any_down {
            p.push("C11");
        }
        p.sort();
        p.dedup();
        let mut r = self.replay.clone();
        r["tail"] = json!(self.recent.iter().cloned().collect::<Vec<_>>());
        r["at"] = json!(self.now.to_string());
        self.obs.violate(&p, msg, r);
        self.reported = true;
    }

    fn touch(&mut self, id: i32, p: &'static str) {
        self.touched.entry(id).or_default().insert(p);
    }

    fn set_waiting(&mut self, id: i32, t: T) {
        self.waiting_since.insert(id, t);
        self.changed_at.insert(id, t);
        self.armed.remove(&id);
    }

    fn update_free(&mut self, inst: usize, ex: usize) {
        let now = self.now;
        let Some(i) = self.insts.get_mut(&inst) else { return };
        let regs = i.regs.get(&ex).copied().unwrap_or(0);
        let free = i.up
            && regs > 0
            && CFGS[ex].max_concurrency.is_none_or(|l| i.inflight.get(&ex).map_or(0, |s| s.len()) < l * regs);
        let e = i.free_since.entry(ex).or_default();
        match (free, &e) {
            (true, None) => *e = Some(now),
            (false, _) => *e = None,
            _ => {}
        }
    }

    fn release(&mut self, id: i32, inst: usize) {
        let exs: Vec<usize> = self.insts.get(&inst).map(|i| i.inflight.iter().filter(|(_, s)| s.contains(&id)).map(|(e, _)| *e).collect()).unwrap_or_default();
        for ex in exs {
            if let Some(i) = self.insts.get_mut(&inst) {
                i.inflight.get_mut(&ex).unwrap().remove(&id);
            }
            self.update_free(inst, ex);
        }
    }

    /// Checks everything that must have happened by `t`.
    fn deadlines(&mut self, t: T) {
        // executions that should have ended
        let late: Vec<(i32, Active)> = self
            .active
            .iter()
            .flat_map(|(id, a)| a.iter().map(move |a| (*id, a.clone())))
            .filter(|(_, a)| a.ends.is_some_and(|(e, _)| t - e > TimeDelta::milliseconds(100)))
            .collect();
        for (id, a) in late {
            let timeout = a.ends.unwrap().1;
            let p: &[&'static str] = if timeout { &["C10", "C05"] } else { &["C05"] };
            self.violate(p, Some(id), format!("execution {} of job {id}, started {}, should have ended at {} ({}), still running at {t}", a.ordinal, a.start, a.ends.unwrap().0, if timeout { "timeout" } else { "its script" }));
            self.active.remove(&id);
        }
        // outcomes must be recorded
        let lost: Vec<i32> = self.pending.iter().filter(|(_, p)| !p.3 && t - p.2 > TimeDelta::milliseconds(100)).map(|p| *p.0).collect();
        for id in lost {
            let (a, ..) = self.pending.remove(&id).unwrap();
            self.violate(&["C05"], Some(id), format!("the outcome of execution {} of job {id} ({:?}) was not recorded", a.ordinal, a.outcome));
        }
        // claimed jobs must be started
        let unstarted: Vec<i32> = self.claimed.iter().filter(|(_, c)| c.iter().any(|c| t - c.1 > PROMPT)).map(|c| *c.0).collect();
        for id in unstarted {
            self.violate(&["C01", "C02", "C05"], Some(id), format!("job {id} was handed out but its execution was not started within a second"));
            self.claimed.remove(&id);
        }
        // due jobs must be handed out
        let mut starved = vec![];
        for (id, row) in &self.m.rows {
            let j = &row.job;
            if !waiting(j.status) || self.tainted.contains(id) {
                continue;
            }
            let Some(ex) = exec_index(&j.executor) else { continue };
            let changed = self.changed_at.get(id).copied().unwrap_or(j.inserted_at);
            let mut since = j.scheduled_at.max(self.waiting_since.get(id).copied().unwrap_or(j.inserted_at)).max(changed);
            if self.paused {
                match self.last_wake {
                    Some(w) if self.armed.contains(id) => since = since.max(w),
                    _ => continue,
                }
            }
            let slot = self.insts.iter().filter_map(|(k, i)| i.free_since.get(&ex).copied().flatten().map(|f| (f, *k))).min();
            if let Some((f, k)) = slot {
                if t - since.max(f) > PROMPT + TimeDelta::milliseconds(20) {
                    starved.push((*id, ex, since.max(f), k));
                }
            }
        }
        for (id, ex, since, k) in starved {
            let mut p = vec!["C02"];
            if CFGS[ex].max_concurrency.is_none() {
                p.push("C09");
                p.push("C04");
            } else {
                p.push("C09");
            }
            if self.restarted {
                p.push("C11");
            }
            let j = self.m.get(id).unwrap();
            if j.attempt > 0 {
                p.push("C05");
                p.push("C06");
            }
            let msg = format!("job {id} ({:?}, executor {}, scheduled for {}) could start at {since} on instance {k} but was not started by {t}", j.status, j.executor, j.scheduled_at);
            self.violate(&p, Some(id), msg);
            self.tainted.insert(id);
        }
    }

    fn settle_outcome(&mut self, id: i32, a: &Active, timed_out: bool) {
        let now = self.now;
        let Some(row) = self.m.rows.get(&id).cloned() else {
            self.tainted.insert(id);
            return;
        };
        if row.job.status != JobStatus::Executing {
            // somebody changed it while it was executing
            self.tainted.insert(id);
            return;
        }
        self.ended_at.insert(id, now);
        let fail = |e: ErrorType, m: &str| {
            if a.is_final { Op::Discard(id, e, m.to_owned()) } else { Op::Retry(id, sat_add(now, a.backoff), e, m.to_owned()) }
        };
        let op = if timed_out {
            self.any_failure = true;
            self.touch(id, "C10");
            fail(ErrorType::Timeout, ANY_TEXT)
        } else {
            match &a.outcome {
                Outcome::Done => Op::Complete(id),
                Outcome::Cancel(r) => Op::Cancel(id, ErrorType::Cancelled, r.clone()),
                Outcome::SnoozeMs(ms) => Op::Snooze(id, sat_add(now, delta_ms(*ms))),
                Outcome::Error(k, m) => {
                    self.any_failure = true;
                    fail(ErrorType::Other(ERR_TYPES[*k as usize % ERR_TYPES.len()].to_owned()), m)
                }
                Outcome::Panic(k, m) => {
                    self.any_failure = true;
                    fail(ErrorType::Panic, if *k > 1 { ANY_TEXT } else { m })
                }
                Outcome::Hang => unreachable!(),
            }
        };
        self.sig.push(hash_of((std::mem::discriminant(&op), a.ordinal, timed_out)));
        self.obs.count(&format!("outcome_{}{}", crate::conf::op_name(&op), if timed_out { "_timeout" } else { "" }), 1);
        if matches!(op, Op::Discard(..)) {
            self.touch(id, "C06");
        }
        self.m.apply(&op, &Res::Ok, None, now);
        self.set_waiting(id, now);
    }

    pub fn event(&mut self, e: &Event) {
        if self.reported {
            return;
        }
        let t = e.t;
        self.deadlines(t);
        if self.reported {
            return;
        }
        self.now = t;
        if !matches!(e.ev, Ev::Table { .. }) {
            if self.recent.len() >= 40 {
                self.recent.pop_front();
            }
            let s = match &e.ev {
                Ev::Start { job, ordinal } => format!("Start job={} ordinal={ordinal} attempt={}/{}", i32::from(job.id), job.attempt, job.max_attempts),
                Ev::Claim { inst, job } => format!("Claim inst={inst} job={} executor={} attempt={}/{} scheduled={} priority={}", job.id, job.executor, job.attempt, job.max_attempts, job.scheduled_at, job.priority),
                Ev::Op { op, res, .. } => format!("{op:?} -> {res:?}"),
                x => format!("{x:?}"),
            };
            self.recent.push_back(format!("{} {s}", t.format("%H:%M:%S%.3f")));
        }
        match &e.ev {
            Ev::Up { inst, execs } => {
                self.restarted |= self.any_down;
                let i = self.insts.entry(*inst).or_default();
                i.up = true;
                for ex in execs {
                    *i.regs.entry(*ex).or_default() += 1;
                }
                for ex in execs {
                    self.update_free(*inst, *ex);
                }
            }
            Ev::Down { inst } => {
                self.any_down = true;
                let i = self.insts.entry(*inst).or_default();
                i.up = false;
                i.ever_down = true;
                let exs: Vec<usize> = i.regs.keys().copied().collect();
                for ex in exs {
                    self.update_free(*inst, ex);
                }
            }
            Ev::Runaway => self.violate(&["C01", "C02", "C05", "C06", "C08", "C10"], None, "jobs are executed over and over without end".into()),
            Ev::Typed { .. } => {}
            Ev::Wake => {
                self.last_wake = Some(t);
                self.armed = self.m.rows.values().filter(|r| waiting(r.job.status)).map(|r| r.job.id).collect();
            }
            Ev::Op { op, res, after } => {
                let ids: Vec<i32> = match &**op {
                    Op::Cancel(id, ..) | Op::Rerun(id) => vec![*id],
                    Op::Update(j) => vec![j.id],
                    Op::Enqueue(_) => match res {
                        Res::Id(id) => vec![*id],
                        _ => vec![],
                    },
                    _ => vec![],
                };
                for id in &ids {
                    let executing = self.m.get(*id).is_some_and(|j| j.status == JobStatus::Executing);
                    match &**op {
                        Op::Cancel(..) => self.touch(*id, "C21"),
                        Op::Update(_) => {
                            self.touch(*id, "C21");
                            self.touch(*id, "C01");
                        }
                        Op::Rerun(_) => {
                            self.touch(*id, "C07");
                            self.touch(*id, "C01");
                        }
                        Op::Enqueue(n) if n.crit.is_some() => {
                            self.touch(*id, "C12");
                            self.touch(*id, "C01");
                        }
                        _ => {}
                    }
                    if executing && matches!(&**op, Op::Cancel(..) | Op::Rerun(_)) {
                        self.tainted.insert(*id);
                    }
                }
                let after: Option<Vec<BJob>> = after.as_ref().map(|a| vec![(**a).clone()]);
                self.sig.push(hash_of(("op", std::mem::discriminant(&**op))));
                self.obs.count(&format!("op_{}", crate::conf::op_name(op)), 1);
                let bad = self.m.apply(op, res, after.as_deref(), t);
                for (p, what) in bad {
                    self.violate(&[p], ids.first().copied(), what);
                }
                for id in ids {
                    // a change of a waiting job restarts its promptness clock only if it wakes
                    self.changed_at.insert(id, t);
                    self.armed.remove(&id);
                    if matches!(&**op, Op::Rerun(_)) {
                        self.waiting_since.insert(id, t);
                    }
                }
            }
            Ev::Called { .. } | Ev::StreamErr { .. } | Ev::Slice { .. } => {}
            Ev::Claim { inst, job } => {
                let id = job.id;
                self.obs.count("claims", 1);
                let Some(ex) = exec_index(&job.executor) else {
                    self.violate(&["C20"], Some(id), format!("job {id} of unregistered executor {} handed out", job.executor));
                    return;
                };
                let i = self.insts.entry(*inst).or_default();
                if i.ever_down && !i.up {
                    self.violate(&["C11"], Some(id), format!("instance {inst} took job {id} after its shutdown"));
                    return;
                }
                if i.regs.get(&ex).copied().unwrap_or(0) == 0 {
                    self.violate(&["C20"], Some(id), format!("instance {inst} took job {id} of executor {}, which it does not run", job.executor));
                    return;
                }
                if self.tainted.contains(&id) {
                    self.claimed.entry(id).or_default().push((*inst, t));
                    self.m.claim(id, t);
                    return;
                }
                if self.active.get(&id).is_some_and(|a| !a.is_empty()) {
                    self.violate(&["C01"], Some(id), format!("job {id} handed out while it is being executed"));
                    return;
                }
                if let Some(w) = self.m.get(id) {
                    if waiting(w.status) {
                        let late = t - w.scheduled_at.max(self.waiting_since.get(&id).copied().unwrap_or(w.inserted_at));
                        self.obs.max("max_start_delay_ms", late.num_milliseconds().max(0) as u64);
                        self.obs.max("max_start_early_ms", (w.scheduled_at - t).num_milliseconds().max(0) as u64);
                    }
                    let tie = self.m.rows.values().filter(|r| r.job.executor == w.executor && waiting(r.job.status) && r.job.scheduled_at == w.scheduled_at && r.job.priority != w.priority).count();
                    if tie > 0 {
                        self.obs.count("claims_with_priority_choice", 1);
                    }
                }
                let bad = self.m.claim_errors(job, CFGS[ex].name, t);
                for (p, what) in bad {
                    self.violate(&[p], Some(id), what);
                }
                if self.reported {
                    return;
                }
                let in_row = self.m.get(id).unwrap().attempt;
                self.m.claim(id, t);
                let w = self.m.get(id).unwrap().clone();
                let d = diff(job, &w, self.m.tol);
                if !d.is_empty() {
                    let mut p = vec!["C20", "C05"];
                    if d.contains(&"attempt") || d.contains(&"max_attempts") {
                        p.push("C06");
                    }
                    self.violate(&p, Some(id), format!("job {id} (attempt {in_row} before) handed out with{}", show(job, &w, &d)));
                    return;
                }
                if self.undecodable.contains(&id) {
                    self.tainted.insert(id);
                    self.obs.count("undecodable_claimed", 1);
                    return;
                }
                self.claimed.entry(id).or_default().push((*inst, t));
                let i = self.insts.get_mut(inst).unwrap();
                let s = i.inflight.entry(ex).or_default();
                s.insert(id);
                let n = s.len();
                let regs = i.regs[&ex];
                self.obs.max(&format!("max_inflight_{}", CFGS[ex].name), n as u64);
                if let Some(l) = CFGS[ex].max_concurrency {
                    if n == l * regs {
                        self.obs.count("limit_reached", 1);
                    }
                    if n > l * regs {
                        self.violate(&["C09"], Some(id), format!("instance {inst} has {n} jobs of {} in flight, limit {}", CFGS[ex].name, l * regs));
                    }
                }
                self.update_free(*inst, ex);
            }
            Ev::Start { job, ordinal } => {
                let id: i32 = job.id.into();
                self.obs.count("executions", 1);
                let Some((inst, _)) = self.claimed.get_mut(&id).and_then(|c| if c.is_empty() { None } else { Some(c.remove(0)) }) else {
                    self.violate(&["C01"], Some(id), format!("job {id} executed (attempt {}) without having been handed out for it", job.attempt));
                    return;
                };
                if self.claimed.get(&id).is_some_and(|c| c.is_empty()) {
                    self.claimed.remove(&id);
                }
                let tainted = self.tainted.contains(&id);
                let n_active = self.active.get(&id).map_or(0, |a| a.len());
                if n_active > 0 && !tainted {
                    self.violate(&["C01"], Some(id), format!("two executions of job {id} at the same time"));
                    return;
                }
                if let (Some(w), false) = (self.m.get(id).cloned(), tainted) {
                    let got = to_b(job);
                    let d: Vec<_> = diff(&got, &w, self.m.tol).into_iter().filter(|f| !(matches!(*f, "attempt" | "max_attempts" | "priority") && (w.max_attempts > 65_535 || w.attempt > 65_535))).collect();
                    // the copy was taken when the job was claimed: later changes need not be in it
                    let changed_later = self.changed_at.get(&id).is_some_and(|c| w.attempted_at.is_some_and(|a| *c >= a));
                    if !d.is_empty() && !changed_later {
                        let mut p = vec!["C20"];
                        if d.contains(&"attempt") || d.contains(&"max_attempts") {
                            p.push("C06");
                        }
                        self.violate(&p, Some(id), format!("job {id} executed with{}", show(&got, &w, &d)));
                        return;
                    }
                }
                let Some(step) = step_of(&job.data, *ordinal).cloned() else { return };
                let len = (step.outcome != Outcome::Hang).then(|| step.slices_ms.iter().sum::<u64>());
                let to = job.data.timeout(job.attempt).map(|d| d.as_millis() as u64);
                let ends = match (len, to) {
                    (Some(l), Some(o)) if l < o => Some((l, false)),
                    (_, Some(o)) => Some((o, true)),
                    (Some(l), None) => Some((l, false)),
                    (None, None) => None,
                };
                self.sig.push(hash_of(("start", *ordinal, job.attempt, n_active, ends.map(|e| e.1))));
                self.active.entry(id).or_default().push(Active {
                    ordinal: *ordinal,
                    inst,
                    start: t,
                    ends: ends.map(|(ms, to)| (t + TimeDelta::milliseconds(ms as i64), to)),
                    backoff: job.data.backoff(job.attempt),
                    is_final: i32::from(job.attempt) >= i32::from(job.max_attempts),
                    outcome: step.outcome,
                });
                if to.is_some() {
                    self.touch(id, "C10");
                }
                let total: usize = self.active.values().map(|a| a.len()).sum();
                self.obs.max("max_concurrent_executions", total as u64);
            }
            Ev::End { id, ordinal, .. } | Ev::Dropped { id, ordinal } => {
                let dropped = matches!(e.ev, Ev::Dropped { .. });
                let id = *id;
                let Some(a) = self.active.get_mut(&id).and_then(|v| v.iter().position(|a| a.ordinal == *ordinal).map(|i| v.remove(i))) else {
                    return;
                };
                if self.active.get(&id).is_some_and(|v| v.is_empty()) {
                    self.active.remove(&id);
                }
                let inst = a.inst;
                if self.insts.get(&inst).is_some_and(|i| !i.up) {
                    self.obs.count("finished_after_shutdown", 1);
                    self.touch(id, "C11");
                }
                match a.ends {
                    Some((at, timeout)) => {
                        let off = (t - at).abs();
                        if dropped && !timeout {
                            self.violate(&["C10", "C05"], Some(id), format!("execution of job {id} started {} was stopped at {t}, although it would have finished at {at} in time", a.start));
                            return;
                        }
                        if !dropped && timeout {
                            self.violate(&["C10"], Some(id), format!("execution of job {id} started {} ran on to {t}, past its timeout at {at}", a.start));
                            return;
                        }
                        if off > TimeDelta::milliseconds(20) {
                            self.violate(&["C10", "C05"], Some(id), format!("execution of job {id} ended at {t} instead of {at}"));
                            return;
                        }
                        if timeout {
                            self.obs.count("timeouts", 1);
                        }
                    }
                    None if dropped => {
                        self.violate(&["C10", "C05"], Some(id), format!("execution of job {id} without a timeout was stopped"));
                        return;
                    }
                    None => {}
                }
                self.ended_at.insert(id, t);
                if !self.tainted.contains(&id) {
                    if dropped {
                        self.touch(id, "C10");
                    }
                    self.pending.insert(id, (a, dropped, t, false));
                }
                self.release(id, inst);
            }
            Ev::Call { what, id, ok, inst } => {
                if let Some(id) = id {
                    if !what.starts_with("mark_") || self.tainted.contains(id) {
                        return;
                    }
                    match (self.pending.get_mut(id), ok) {
                        (Some(p), false) => {
                            p.3 = true;
                            self.obs.count("recording_faults", 1);
                        }
                        (Some(_), true) => {
                            let (a, dropped, ..) = self.pending.remove(id).unwrap();
                            self.settle_outcome(*id, &a, dropped);
                        }
                        (None, true) => self.violate(&["C01", "C05", "C07"], Some(*id), format!("instance {inst} recorded an outcome ({what}) for job {id} that no execution produced")),
                        (None, false) => {}
                    }
                }
            }
            Ev::Table { jobs } => {
                self.obs.count("tables_compared", 1);
                let diffs = self.m.compare(jobs);
                for (id, fields, what) in diffs {
                    if self.tainted.contains(&id) || self.ended_at.get(&id) == Some(&t) {
                        continue;
                    }
                    let mut p = vec!["C05"];
                    if let Some(w) = self.m.get(id) {
                        if terminal(w.status) {
                            p.push("C07");
                        }
                    }
                    for f in &fields {
                        match *f {
                            "attempt" | "max_attempts" => p.push("C06"),
                            "scheduled_at" => p.push("C03"),
                            "data" | "metadata" | "tags" | "priority" | "missing" | "extra" | "duplicate" | "executor" => p.push("C20"),
                            _ => {}
                        }
                    }
                    self.violate(&p, Some(id), format!("table at {t}: {what}"));
                }
            }
        }
    }

    /// Ids of jobs the monitor no longer judges, and a signature of the run.
    pub fn finish(self) -> (u64, usize) {
        (hash_of(&self.sig), self.sig.len())
    }
}
