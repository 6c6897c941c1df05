//! One case: a runtime with a virtual clock, an emulated server and backends connected to it.
use crate::val::*;
use crate::wire::*;
use chrono::{DateTime, TimeDelta, Utc};
use mon::exec::BJob;
use mon::rng::Rng;
use rexecutor::job::{ErrorType, JobError, JobStatus};
use rexecutor_sqlx::RexecutorPgBackend;
use sqlx::postgres::{PgConnectOptions, PgPoolOptions};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::Duration;

/// Scheduling rounds without any activity after which nothing is left to do.
const QUIET: u32 = 8;
const TABLE: &str = "rexecutor_jobs";

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join(".s.PGSQL.5432"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

pub struct Env {
    pub srv: Arc<Server>,
    dir: Scratch,
    pub problem: Option<String>,
    _hold: std::sync::mpsc::Sender<()>,
}

/// Runs a case. Time stands still except for `Env::advance`.
pub fn run<F, O>(seed: u64, base_ms: i64, f: F) -> O
where
    F: AsyncFnOnce(&mut Env) -> O,
{
    mon::vclock::run_virtual(base_ms, async move {
        // a blocking task keeps the paused clock from advancing by itself
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!("monpg.{}.{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let dir = Scratch(dir);
        let l = tokio::net::UnixListener::bind(dir.0.join(".s.PGSQL.5432")).expect("socket");
        let srv = Server::new(seed);
        srv.db.lock().unwrap().now = ts_of(Utc::now());
        tokio::spawn(srv.clone().serve(l));
        let mut env = Env { srv, dir, problem: None, _hold: tx };
        f(&mut env).await
    })
}

impl Env {
    pub fn options(&self) -> PgConnectOptions {
        PgConnectOptions::new_without_pgpass().socket(&self.dir.0).port(5432).username("rex").database("rex")
    }
    pub fn url(&self) -> String {
        format!("postgres://rex@localhost:5432/rex?host={}", self.dir.0.display().to_string().replace('/', "%2F"))
    }
    pub fn pool(&self, max: u32) -> sqlx::PgPool {
        PgPoolOptions::new().max_connections(max).acquire_timeout(Duration::from_secs(20)).connect_lazy_with(self.options())
    }
    /// One poll of everything else.
    async fn round(&self) {
        tokio::task::yield_now().await;
    }
    fn activity(&self) -> u64 {
        self.srv.activity.load(Ordering::Relaxed)
    }
    /// Until nothing is left to do at this instant.
    pub async fn settle(&mut self) {
        let mut quiet = 0;
        let mut last = self.activity();
        let mut n = 0;
        while quiet < QUIET {
            self.round().await;
            let a = self.activity();
            quiet = if a == last { quiet + 1 } else { 0 };
            last = a;
            n += 1;
            if n > 200_000 {
                self.problem.get_or_insert("the code under test does not come to rest: it keeps sending statements without time passing".into());
                return;
            }
        }
    }
    /// Lets time pass (whole milliseconds).
    pub async fn advance(&mut self, ms: u64) {
        let to = Utc::now() + TimeDelta::milliseconds(ms as i64);
        self.srv.db.lock().unwrap().now = ts_of(to);
        tokio::time::advance(Duration::from_millis(ms)).await;
    }
    /// Drives an operation to its end; lets time pass only if it needs that. `None`: it did not end
    /// within two (virtual) minutes.
    pub async fn drive<O>(&mut self, fut: impl Future<Output = O>) -> Option<O> {
        let mut v = self.drive_all(vec![Box::pin(fut)], None).await;
        v.pop().unwrap()
    }
    /// Several at once, polled in an order drawn from `rng`.
    pub async fn drive_all<'f, O>(&mut self, futs: Vec<Pin<Box<dyn Future<Output = O> + 'f>>>, mut rng: Option<&mut Rng>) -> Vec<Option<O>> {
        let mut futs: Vec<_> = futs.into_iter().map(Some).collect();
        let mut out: Vec<Option<O>> = futs.iter().map(|_| None).collect();
        let mut order: Vec<usize> = (0..futs.len()).collect();
        let mut quiet = 0;
        let mut last = self.activity();
        let mut waited = 0;
        let mut n = 0;
        loop {
            if let Some(r) = rng.as_deref_mut() {
                r.shuffle(&mut order);
            }
            let mut left = 0;
            for i in &order {
                if let Some(f) = &mut futs[*i] {
                    let p = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
                    if let std::task::Poll::Ready(o) = p {
                        out[*i] = Some(o);
                        futs[*i] = None;
                        quiet = 0;
                    } else {
                        left += 1;
                    }
                }
            }
            if left == 0 {
                return out;
            }
            self.round().await;
            n += 1;
            let a = self.activity();
            quiet = if a == last { quiet + 1 } else { 0 };
            last = a;
            if quiet >= QUIET {
                if waited >= 120_000 || n > 500_000 {
                    return out;
                }
                let d = if waited < 200 { 5 } else { 250 };
                self.advance(d).await;
                waited += d;
                quiet = 0;
            }
        }
    }
    /// The table as it is stored, decoded without the code under test.
    pub fn stored(&self) -> Vec<BJob> {
        let db = self.srv.db.lock().unwrap();
        let Some(t) = db.tables.get(TABLE) else { return vec![] };
        let cols: Vec<&str> = t.cols.iter().map(|c| c.name.as_str()).collect();
        let mut v: Vec<BJob> = db.committed(TABLE).iter().map(|r| job_of(&cols, r)).collect();
        v.sort_by_key(|j| j.id);
        v
    }
    pub fn stored_job(&self, id: i32) -> Option<BJob> {
        let db = self.srv.db.lock().unwrap();
        let cols: Vec<&str> = db.tables.get(TABLE)?.cols.iter().map(|c| c.name.as_str()).collect();
        let key = cols.iter().position(|c| *c == "id")?;
        db.committed(TABLE).iter().find(|r| matches!(r[key], Val::Int(i) if i == id as i64)).map(|r| job_of(&cols, r))
    }
    pub fn unsupported(&self) -> Option<String> {
        self.srv.db.lock().unwrap().unsupported.first().cloned()
    }
    /// A migrated database and `n` backends, each with a pool of its own.
    pub async fn backends(&mut self, n: usize, conns: u32) -> Result<Vec<RexecutorPgBackend>, String> {
        let mut v = vec![];
        for i in 0..n {
            let pool = self.pool(conns);
            let b = self.drive(RexecutorPgBackend::from_pool(pool)).await.ok_or("from_pool hangs")?.map_err(|e| format!("from_pool: {e:?}"))?;
            if i == 0 {
                self.drive(b.run_migrations()).await.ok_or("run_migrations hangs")?.map_err(|e| format!("run_migrations: {e:?}"))?;
            }
            v.push(b);
        }
        Ok(v)
    }
}

fn ts(v: &Val) -> Option<DateTime<Utc>> {
    match v {
        Val::Ts(t) => Some(epoch() + TimeDelta::microseconds(*t)),
        _ => None,
    }
}

pub fn status_of(s: &str) -> JobStatus {
    match s {
        "scheduled" => JobStatus::Scheduled,
        "executing" => JobStatus::Executing,
        "retryable" => JobStatus::Retryable,
        "complete" => JobStatus::Complete,
        "cancelled" => JobStatus::Cancelled,
        "discarded" => JobStatus::Discarded,
        s => panic!("status {s}"),
    }
}

pub fn job_of(cols: &[&str], r: &[Val]) -> BJob {
    let g = |n: &str| &r[cols.iter().position(|c| *c == n).unwrap_or_else(|| panic!("no column {n}"))];
    let int = |n: &str| match g(n) {
        Val::Int(i) => *i as i32,
        v => panic!("{n}: {v:?}"),
    };
    let text = |v: &Val| match v {
        Val::Str(s) => s.clone(),
        v => panic!("{v:?}"),
    };
    let json = |n: &str| match g(n) {
        Val::Jsonb(j) => j.clone(),
        _ => serde_json::Value::Null,
    };
    let arr = |n: &str| match g(n) {
        Val::Arr(v) => v.clone(),
        v => panic!("{n}: {v:?}"),
    };
    let at = |n: &str| ts(g(n));
    BJob {
        id: int("id"),
        status: status_of(&text(g("status"))),
        executor: text(g("executor")),
        data: json("data"),
        metadata: json("metadata"),
        attempt: int("attempt"),
        max_attempts: int("max_attempts"),
        priority: int("priority"),
        tags: arr("tags").iter().map(text).collect(),
        errors: arr("errors")
            .iter()
            .map(|e| {
                let Val::Jsonb(e) = e else { panic!("{e:?}") };
                let t = e["error_type"].as_str().unwrap_or("?");
                JobError {
                    attempt: e["attempt"].as_i64().unwrap_or(-1) as u16,
                    error_type: match t {
                        "panic" => ErrorType::Panic,
                        "timeout" => ErrorType::Timeout,
                        "cancelled" => ErrorType::Cancelled,
                        t => ErrorType::Other(t.to_owned()),
                    },
                    details: e["details"].as_str().unwrap_or("?").to_owned(),
                    recorded_at: e["recorded_at"].as_str().and_then(|s| s.parse().ok()).unwrap_or(DateTime::UNIX_EPOCH),
                }
            })
            .collect(),
        inserted_at: at("inserted_at").unwrap_or_default(),
        scheduled_at: at("scheduled_at").unwrap_or_default(),
        attempted_at: at("attempted_at"),
        completed_at: at("completed_at"),
        cancelled_at: at("cancelled_at"),
        discarded_at: at("discarded_at"),
    }
}
