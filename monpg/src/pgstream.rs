//! Ready-job streams of several instances on one server: an online monitor over the committed
//! changes of the table and the items of the streams.
use crate::env::{Env, job_of};
use crate::pgconf::{exact_op, perform_via, server_stats};
use crate::val::Val;
use crate::wire::Fault;
use chrono::{TimeDelta, Utc};
use futures::StreamExt;
use mon::exec::BJob;
use mon::generate::*;
use mon::model::*;
use mon::report::Obs;
use mon::rng::{Rng, hash_of};
use rexecutor::backend::{Backend, BackendError};
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::{ErrorType, JobStatus};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy)]
pub struct Knobs {
    pub name: &'static str,
    pub fault_pct: u64,
    pub pause_pct: u64,
    pub outage_pct: u64,
    pub same_time_pct: u64,
    /// Streams that are not asked for the next job for a while after one.
    pub busy_pct: u64,
    pub steps: (i64, i64),
}

enum Item {
    Got(BJob),
    Failed(String),
    Ended,
}

struct Mon {
    /// (id, attempt) -> (claimed row, when)
    claims: BTreeMap<(i32, i32), Vec<(BJob, T)>>,
    since: BTreeMap<i32, T>,
    delivered: u64,
    errors: u64,
    executors: Vec<String>,
    stream_of: Vec<String>,
    ready_from: T,
    /// notifications sent between these times may be lost
    deaf: Vec<(T, T)>,
    /// since when each stream has been waiting for a job; `None`: busy elsewhere
    free: Arc<Mutex<Vec<Option<T>>>>,
    exact_order: bool,
    max_late_ms: i64,
    trace: Vec<String>,
    sig: Vec<u64>,
}

const LATE: TimeDelta = TimeDelta::milliseconds(1_000);
const STEP: u64 = 100;

impl Mon {
    fn changes(&mut self, env: &Env, obs: &mut Obs) -> Vec<String> {
        let mut bad = vec![];
        let (cols, changes) = {
            let mut db = env.srv.db.lock().unwrap();
            let cols: Vec<String> = db.tables["rexecutor_jobs"].cols.iter().map(|c| c.name.clone()).collect();
            (cols, std::mem::take(&mut db.changes))
        };
        let cols: Vec<&str> = cols.iter().map(String::as_str).collect();
        let job = |r: &Option<Vec<Val>>| r.as_ref().map(|r| job_of(&cols, r));
        for c in changes {
            let at = crate::val::epoch() + TimeDelta::microseconds(c.at);
            let (old, new) = (job(&c.old), job(&c.new));
            let Some(new) = new else {
                continue;
            };
            self.since.insert(new.id, at);
            let Some(old) = old else {
                self.trace.push(format!("{at} job {} of {:?} is there, scheduled for {}", new.id, new.executor, new.scheduled_at));
                continue;
            };
            let claimed = new.status == JobStatus::Executing && (old.status != JobStatus::Executing || new.attempt != old.attempt || new.attempted_at != old.attempted_at);
            if !claimed {
                self.trace.push(format!("{at} job {} {:?} -> {:?}, scheduled for {}", new.id, old.status, new.status, new.scheduled_at));
                continue;
            }
            self.trace.push(format!("{at} job {} claimed by session {}", new.id, c.sid));
            obs.count("claims", 1);
            if !waiting(old.status) {
                bad.push(format!("job {} was claimed while {:?}", new.id, old.status));
            }
            let early = old.scheduled_at - at;
            if early > EARLY {
                bad.push(format!("job {} was claimed at {at}, {early} before its time", new.id));
            }
            if early > TimeDelta::zero() {
                obs.count("claims_slightly_early", 1);
            }
            let mut want = old.clone();
            want.status = JobStatus::Executing;
            want.attempt += 1;
            want.attempted_at = Some(at);
            let d = diff(&new, &want, TimeDelta::zero());
            if !d.is_empty() {
                bad.push(format!("claimed job {} has{}", new.id, show(&new, &want, &d)));
            }
            if !self.executors.contains(&new.executor) {
                bad.push(format!("job {} of executor {:?} was claimed, which nobody listens for", new.id, new.executor));
            }
            if self.exact_order {
                for o in c.others.iter().map(|r| job_of(&cols, r)) {
                    if o.executor == old.executor && waiting(o.status) && o.scheduled_at == old.scheduled_at && o.priority < old.priority {
                        bad.push(format!(
                            "job {} (priority {}) was claimed before job {} (priority {}), both scheduled for {}",
                            new.id, old.priority, o.id, o.priority, o.scheduled_at
                        ));
                    }
                    if o.executor == old.executor && waiting(o.status) && o.scheduled_at == old.scheduled_at && o.priority > old.priority {
                        obs.count("claims_of_higher_priority", 1);
                    }
                }
            }
            // (a snooze takes an attempt back: the same attempt may be claimed again)
            self.claims.entry((new.id, new.attempt)).or_default().push((new.clone(), at));
        }
        bad
    }
    fn items(&mut self, items: Vec<(T, usize, Item)>, obs: &mut Obs) -> Vec<String> {
        let mut bad = vec![];
        for (at, s, item) in items {
            match item {
                Item::Ended => bad.push(format!("stream {s} ended")),
                Item::Failed(e) => {
                    self.errors += 1;
                    self.trace.push(format!("{at} stream {s} failed: {e}"));
                }
                Item::Got(j) => {
                    self.trace.push(format!("{at} stream {s} delivers job {}", j.id));
                    self.sig.push(hash_of((s, j.id, j.attempt)));
                    self.delivered += 1;
                    obs.count("jobs_delivered", 1);
                    if j.executor != self.stream_of[s] {
                        bad.push(format!("the stream of {:?} delivered job {} of {:?}", self.stream_of[s], j.id, j.executor));
                    }
                    let open = self.claims.entry((j.id, j.attempt)).or_default();
                    match open.iter().position(|(want, _)| diff(&j, want, TimeDelta::zero()).is_empty()) {
                        Some(i) => {
                            open.remove(i);
                        }
                        None => match open.pop() {
                            None => bad.push(format!("stream {s} delivered job {} (attempt {}), which it has not claimed or was delivered already", j.id, j.attempt)),
                            Some((want, _)) => {
                                let d = diff(&j, &want, TimeDelta::zero());
                                bad.push(format!("job {} was delivered with{}", j.id, show(&j, &want, &d)));
                            }
                        },
                    }
                }
            }
        }
        bad
    }
    /// At rest: everything claimed has been delivered, nothing is overdue.
    fn at_rest(&mut self, env: &Env, slow_ms: i64) -> Vec<String> {
        let mut bad = vec![];
        let now = Utc::now();
        for ((id, a), (_, at)) in self.claims.iter().flat_map(|(k, v)| v.iter().map(move |c| (k, c))) {
            if now - *at > TimeDelta::milliseconds(slow_ms) {
                bad.push(format!("job {id} (attempt {a}) was claimed at {at} and delivered to no stream"));
            }
        }
        for j in env.stored() {
            if waiting(j.status) && self.executors.contains(&j.executor) {
                let free = self.free.lock().unwrap();
                let Some(free) = self.stream_of.iter().zip(free.iter()).filter(|(e, _)| **e == j.executor).filter_map(|(_, f)| *f).min() else {
                    continue;
                };
                let due = j.scheduled_at.max(self.since.get(&j.id).copied().unwrap_or(j.inserted_at)).max(self.ready_from).max(free);
                // the announcement may be lost: the streams look for themselves every 30 s
                let told = self.since.get(&j.id).copied().unwrap_or(j.inserted_at);
                let late = match self.deaf.iter().any(|(a, b)| *a <= told && told <= *b) {
                    true => now - due.max(told + TimeDelta::seconds(30)),
                    false => now - due,
                };
                self.max_late_ms = self.max_late_ms.max(late.num_milliseconds());
                if late > LATE + TimeDelta::milliseconds(STEP as i64 + 2 * slow_ms) {
                    bad.push(format!(
                        "job {} of {:?}, scheduled for {} and known since {}, is still not delivered at {now}",
                        j.id,
                        j.executor,
                        j.scheduled_at,
                        self.since.get(&j.id).copied().unwrap_or(j.inserted_at)
                    ));
                }
            }
        }
        bad
    }
}

pub fn case(k: Knobs, seed: u64, obs: &mut Obs) {
    let mut rng = Rng::new(seed);
    let base = mon::vclock::DEFAULT_BASE_MS + rng.range(0, 400 * 86_400) * 1000 + rng.range(0, 999);
    let replay = json!({"workload": k.name, "case_seed": seed});
    let insts = rng.range(1, 3) as usize;
    let dump = std::env::var_os("MON_DUMP").is_some();
    let mut sample = vec![];
    let mut sig = vec![];
    crate::env::run(rng.next(), base, async |env: &mut Env| {
        let conns = rng.range(2, 5) as u32;
        let bs = match env.backends(insts, conns).await {
            Ok(b) => b,
            Err(e) => {
                match env.unsupported() {
                    Some(u) => obs.errors.push(format!("the emulated server does not support: {u}")),
                    None => obs.violate(&["C27"], e, replay.clone()),
                }
                return;
            }
        };
        let faulty = rng.pct(k.fault_pct);
        let paused = rng.pct(k.pause_pct);
        {
            let mut db = env.srv.db.lock().unwrap();
            db.watch = Some("rexecutor_jobs".into());
            if paused {
                db.pause_pct = *rng.pick(&[15, 40, 70]);
                env.srv.jitter.store(*rng.pick(&[1, 4, 12]), Ordering::Relaxed);
            }
        }
        // streams
        let items: Arc<Mutex<Vec<(T, usize, Item)>>> = Arc::default();
        let back_off = Arc::new(AtomicU64::new(0));
        let n_exec = rng.range(1, 3) as usize;
        let mut plan: Vec<(usize, &'static str)> = vec![];
        for e in &EXECUTORS[..n_exec] {
            for i in 0..insts {
                for _ in 0..*rng.pick(&[0, 1, 1, 1, 2]) {
                    plan.push((i, e));
                }
            }
        }
        if plan.is_empty() {
            plan.push((0, EXECUTORS[0]));
        }
        rng.shuffle(&mut plan);
        let mut g = Gen::new(rng.fork());
        let mut m = Mon {
            claims: BTreeMap::new(),
            since: BTreeMap::new(),
            delivered: 0,
            errors: 0,
            executors: vec![],
            stream_of: vec![],
            ready_from: Utc::now(),
            deaf: vec![],
            free: Arc::default(),
            exact_order: !paused,
            max_late_ms: 0,
            trace: vec![],
            sig: vec![],
        };
        let mut slow_ms = 0i64;
        let mut deaf_left = 0;
        let faults_hit = Arc::new(AtomicU64::new(0));
        let down = Arc::new(AtomicU64::new(0));
        let steps = rng.range(k.steps.0, k.steps.1);
        let same = Utc::now() + TimeDelta::milliseconds(rng.range(0, 20_000));
        for step in 0..steps {
            // a stream subscribes
            if !plan.is_empty() && (step == 0 || rng.pct(40)) {
                let take = if step == 0 && rng.pct(70) { plan.len() } else { 1 };
                for (i, e) in plan.drain(..take) {
                    let idx = m.stream_of.len();
                    m.stream_of.push(e.to_owned());
                    if !m.executors.iter().any(|x| x == e) {
                        m.executors.push(e.to_owned());
                    }
                    m.ready_from = Utc::now();
                    let (b, items, down, free) = (bs[i].clone(), items.clone(), down.clone(), m.free.clone());
                    free.lock().unwrap().push(Some(Utc::now()));
                    let mut r = rng.fork();
                    let (busy_first, busy_pct) = (rng.pct(k.busy_pct), if rng.pct(k.busy_pct) { 70 } else { 0 });
                    tokio::spawn(async move {
                        let mut s = b.subscribe_ready_jobs(ExecutorIdentifier::from(e)).await;
                        let mut busy = busy_first;
                        loop {
                            if busy {
                                free.lock().unwrap()[idx] = None;
                                let ms = *r.pick(&[1, 20, 300, 2_000, 9_000, 25_000]);
                                tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                                free.lock().unwrap()[idx] = Some(Utc::now());
                            }
                            let x: Option<Result<BJob, BackendError>> = s.next().await;
                            let item = match x {
                                Some(Ok(j)) => Item::Got(j),
                                Some(Err(e)) => Item::Failed(format!("{e:?}")),
                                None => Item::Ended,
                            };
                            let ended = matches!(item, Item::Ended);
                            let failed = matches!(item, Item::Failed(_));
                            busy = !failed && r.pct(busy_pct);
                            items.lock().unwrap().push((Utc::now(), idx, item));
                            if ended {
                                return;
                            }
                            if failed && down.load(Ordering::Relaxed) > 0 {
                                tokio::time::sleep(std::time::Duration::from_millis(200)).await;
                            }
                        }
                    });
                }
            }
            // an operation
            let rows = env.stored();
            let now = Utc::now();
            let mut executing: Vec<i32> = rows.iter().filter(|j| j.status == JobStatus::Executing && m.claims.get(&(j.id, j.attempt)).is_none_or(Vec::is_empty)).map(|j| j.id).collect();
            let soon = |g: &mut Gen, rng: &mut Rng| {
                if rng.pct(k.same_time_pct) {
                    same
                } else {
                    match g.time(now, &rows) {
                        t if t > now + TimeDelta::seconds(70) => now + TimeDelta::milliseconds(rng.range(0, 40_000)),
                        t => t,
                    }
                }
            };
            let n_ops = *rng.pick(&[0, 1, 1, 1, 2, 5]);
            for _ in 0..n_ops {
                let op = match rng.below(12) {
                    0..5 => {
                        let mut n = g.new_job(now, &rows, 15);
                        n.executor = rng.pick(&EXECUTORS[..(n_exec + 1).min(4)]).to_string();
                        n.scheduled_at = soon(&mut g, &mut rng);
                        Some(Op::Enqueue(n))
                    }
                    5..9 if !executing.is_empty() => {
                        // every execution ends once
                        let id = executing.swap_remove(rng.below(executing.len() as u64) as usize);
                        Some(match rng.below(6) {
                            0 => Op::Complete(id),
                            1 | 2 => Op::Retry(id, soon(&mut g, &mut rng), g.error_type(), g.text()),
                            3 => Op::Discard(id, g.error_type(), g.text()),
                            4 => Op::Snooze(id, soon(&mut g, &mut rng)),
                            _ => Op::Cancel(id, ErrorType::Cancelled, g.text()),
                        })
                    }
                    9 => rows.iter().find(|j| terminal(j.status)).map(|j| Op::Rerun(j.id)),
                    10 => {
                        let w: Vec<&BJob> = rows.iter().filter(|j| waiting(j.status)).collect();
                        (!w.is_empty()).then(|| {
                            let mut u = (*rng.pick(&w)).clone();
                            u.scheduled_at = soon(&mut g, &mut rng);
                            u.priority = *rng.pick(&[0, 1, 2]);
                            exact(&mut u.data);
                            Op::Update(u)
                        })
                    }
                    _ => {
                        let w: Vec<&BJob> = rows.iter().filter(|j| waiting(j.status)).collect();
                        (!w.is_empty() && rng.pct(40)).then(|| Op::Cancel(rng.pick(&w).id, ErrorType::Cancelled, "x".into()))
                    }
                };
                if let Some(mut op) = op {
                    exact_op(&mut op);
                    let b = rng.pick(&bs).clone();
                    m.trace.push(format!("{now} {op:?}"));
                    if dump {
                        eprintln!("{now} {op:?}");
                    }
                    let r = env.drive(perform_via(&b, 0, &op)).await;
                    obs.count("operations", 1);
                    if matches!(r, None | Some(Res::Err(_))) {
                        let mut rp = replay.clone();
                        rp["tail"] = json!(m.trace.iter().rev().take(30).rev().collect::<Vec<_>>());
                        obs.violate(&["C27", "C26"], format!("{op:?} failed: {r:?}"), rp);
                        return;
                    }
                }
            }
            // a nuisance
            let mut outage = 0;
            let mut deaf = deaf_left > 0;
            if deaf {
                deaf_left -= 1;
            } else if rng.pct(k.outage_pct) {
                match rng.below(5) {
                    4 => {
                        // the listening connections are lost and cannot be replaced for a while
                        deaf = true;
                        deaf_left = rng.range(1, 6);
                        let n = env.srv.kill(|s| !s.listening.is_empty());
                        m.trace.push(format!("{now} {n} listening connections are closed and cannot be replaced"));
                        obs.count("listeners_locked_out", n as u64);
                        m.ready_from = now;
                        m.deaf.push((now, T::MAX_UTC));
                        *env.srv.plan.lock().unwrap() = Some(Box::new(move |sql, _| sql.starts_with("LISTEN").then_some(Fault::Error)));
                    }
                    0 => {
                        let n = env.srv.kill(|s| !s.listening.is_empty());
                        m.trace.push(format!("{now} {n} listening connections are closed"));
                        obs.count("listeners_disconnected", n as u64);
                        m.ready_from = now;
                    }
                    1 => {
                        // somebody else's notification
                        let payload = rng.pick(&["", "x", "{}", "[1]", "{\"executor\": 3}", "{\"executor\": \"alpha\"}"]).to_string();
                        m.trace.push(format!("{now} foreign notification {payload:?}"));
                        obs.count("foreign_notifications", 1);
                        let mut db = env.srv.db.lock().unwrap();
                        for s in db.sessions.values_mut() {
                            for c in s.listening.clone() {
                                s.inbox.push((0, c, payload.clone()));
                            }
                        }
                        drop(db);
                        env.srv.act();
                        env.srv.changed.notify_waiters();
                    }
                    _ => {
                        outage = rng.range(200, 45_000) as u64;
                    }
                }
            }
            if faulty && rng.pct(40) && outage == 0 && !deaf {
                let slow = Fault::Slow(rng.range(1, 400) as u64);
                let f = *rng.pick(&[Fault::Error, Fault::Error, Fault::DropBefore, slow]);
                if let Fault::Slow(ms) = f {
                    slow_ms = slow_ms.max(ms as i64);
                }
                let (mut left, hits) = (rng.below(6), faults_hit.clone());
                let mut used = false;
                *env.srv.plan.lock().unwrap() = Some(Box::new(move |sql, _| {
                    if used || sql.starts_with("LISTEN") {
                        return None;
                    }
                    if left > 0 {
                        left -= 1;
                        return None;
                    }
                    used = true;
                    if !matches!(f, Fault::Slow(_)) {
                        hits.fetch_add(1, Ordering::Relaxed);
                    }
                    Some(f)
                }));
            }
            // time passes
            let mut left = *rng.pick(&[1u64, 5, 15, 16, 50, 99, 100, 101, 250, 1_000, 3_000, 12_000, 31_000]);
            if outage > 0 {
                m.trace.push(format!("{now} the server is away for {outage} ms"));
                obs.count("outages", 1);
                down.store(1, Ordering::Relaxed);
                env.srv.refuse.store(u64::MAX / 2, Ordering::Relaxed);
                env.srv.kill(|_| true);
                left = outage;
            }
            let mut bad = vec![];
            loop {
                env.settle().await;
                bad.extend(m.changes(env, obs));
                let got = std::mem::take(&mut *items.lock().unwrap());
                bad.extend(m.items(got, obs));
                if outage == 0 {
                    bad.extend(m.at_rest(env, slow_ms));
                }
                if let Some(u) = env.problem.take() {
                    bad.push(u);
                }
                if left == 0 || !bad.is_empty() {
                    break;
                }
                let d = left.min(if outage > 0 { STEP } else { rng.range(1, STEP as i64) as u64 });
                left -= d;
                env.advance(d).await;
                if left == 0 && outage > 0 {
                    // back again; everybody has had time to notice
                    env.srv.refuse.store(0, Ordering::Relaxed);
                    for _ in 0..60 {
                        env.advance(STEP).await;
                        env.settle().await;
                    }
                    down.store(0, Ordering::Relaxed);
                    m.trace.push(format!("{} the server is back", Utc::now()));
                    m.ready_from = Utc::now();
                    let got = std::mem::take(&mut *items.lock().unwrap());
                    bad.extend(m.changes(env, obs));
                    bad.extend(m.items(got, obs));
                    // failures while it was away are expected and not counted
                    faults_hit.store(m.errors, Ordering::Relaxed);
                    outage = 0;
                }
            }
            if deaf_left == 0 {
                *env.srv.plan.lock().unwrap() = None;
            }
            if deaf && deaf_left == 0 {
                m.deaf.last_mut().unwrap().1 = Utc::now() + TimeDelta::milliseconds(3_000);
            }
            if let Some(u) = env.unsupported() {
                obs.errors.push(format!("the emulated server does not support: {u}"));
                return;
            }
            let f = faults_hit.load(Ordering::Relaxed);
            if m.errors != f && bad.is_empty() && slow_ms == 0 {
                bad.push(format!("{f} polls of the streams met a failing server, {} errors were reported", m.errors));
            }
            if !bad.is_empty() {
                for what in bad {
                    let mut rp = replay.clone();
                    rp["tail"] = json!(m.trace.iter().rev().take(40).rev().collect::<Vec<_>>());
                    obs.violate(&["C27"], what, rp);
                }
                return;
            }
        }
        let _ = back_off;
        obs.max("max_lateness_ms", m.max_late_ms.max(0) as u64);
        obs.count("stream_errors_reported", m.errors);
        server_stats(env, obs);
        sample = m.trace.iter().take(8).cloned().collect();
        sig = m.sig;
    });
    obs.evaluations += 1;
    if sig.len() > 2 {
        obs.distinct.insert(hash_of(&sig));
    }
    obs.sample(json!({"workload": k.name, "case_seed": seed, "trace": sample}));
}
