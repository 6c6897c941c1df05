//! The emulated server's connections: the Postgres wire protocol over a Unix socket, served by
//! tasks of the same single-threaded runtime as the code under test, so that a run is a
//! deterministic function of its seed and "nothing left to do" can be recognised.
use crate::analyze::AStmt;
use crate::db::*;
use crate::sql::{Parser, PgErr, R, Stmt, UNSUPPORTED, err};
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{UnixListener, UnixStream};
use tokio::sync::Notify;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    /// The statement fails, nothing is done.
    Error,
    /// The connection is closed before the statement is executed.
    DropBefore,
    /// The statement is executed and (outside an explicit transaction) committed; the answer is lost.
    DropAfter,
    /// The answer takes this many (virtual) milliseconds longer.
    Slow(u64),
}

/// What a statement asks the fault plan: its text (whitespace normalised) and whether it runs in an
/// explicit transaction.
pub type Plan = Box<dyn FnMut(&str, bool) -> Option<Fault> + Send>;

pub struct Server {
    pub db: Mutex<Db>,
    pub plan: Mutex<Option<Plan>>,
    /// Everything the server does counts, so that quiescence can be recognised.
    pub activity: AtomicU64,
    /// Statements waiting for another transaction.
    pub blocked: AtomicU64,
    pub changed: Notify,
    /// Upper bound of the random number of scheduling rounds before a message is looked at.
    pub jitter: AtomicU64,
    pub refuse: AtomicU64,
    next_sid: AtomicU64,
    /// Ask connections to close: session ids.
    pub kill: Mutex<Vec<u32>>,
    pub killed: Notify,
    pub faults: Mutex<BTreeMap<String, u64>>,
    pub log: Mutex<Vec<String>>,
    pub logging: bool,
}

impl Server {
    pub fn new(seed: u64) -> Arc<Self> {
        Arc::new(Self {
            db: Mutex::new(Db::new(seed)),
            plan: Mutex::new(None),
            activity: AtomicU64::new(0),
            blocked: AtomicU64::new(0),
            changed: Notify::new(),
            jitter: AtomicU64::new(0),
            refuse: AtomicU64::new(0),
            next_sid: AtomicU64::new(1),
            kill: Mutex::new(vec![]),
            killed: Notify::new(),
            faults: Mutex::new(BTreeMap::new()),
            log: Mutex::new(vec![]),
            logging: std::env::var_os("MON_DUMP").is_some(),
        })
    }
    pub fn act(&self) {
        self.activity.fetch_add(1, Ordering::Relaxed);
    }
    fn note(&self, s: impl FnOnce() -> String) {
        if self.logging {
            let s = s();
            eprintln!("  [pg] {s}");
            self.log.lock().unwrap().push(s);
        }
    }
    pub async fn serve(self: Arc<Self>, l: UnixListener) {
        while let Ok((s, _)) = l.accept().await {
            self.act();
            if self.refuse.load(Ordering::Relaxed) > 0 {
                self.refuse.fetch_sub(1, Ordering::Relaxed);
                continue;
            }
            let sid = self.next_sid.fetch_add(1, Ordering::Relaxed) as u32;
            let this = self.clone();
            tokio::spawn(async move {
                let mut c = Conn {
                    srv: this.clone(),
                    sid,
                    sock: s,
                    inb: vec![],
                    out: vec![],
                    stmts: HashMap::new(),
                    portals: HashMap::new(),
                    started: false,
                    skip: false,
                };
                let r = c.run().await;
                this.note(|| format!("{sid} closed {r:?}"));
                if c.started {
                    this.db.lock().unwrap().disconnect(sid);
                }
                drop(c);
                this.act();
                this.changed.notify_waiters();
            });
        }
    }
    /// Closes all connections (a server restart), or those whose session satisfies `f`.
    pub fn kill(&self, f: impl Fn(&Session) -> bool) -> usize {
        let ids: Vec<u32> = self.db.lock().unwrap().sessions.iter().filter(|(_, s)| f(s)).map(|(i, _)| *i).collect();
        let n = ids.len();
        self.kill.lock().unwrap().extend(ids);
        self.killed.notify_waiters();
        n
    }
}

struct Portal {
    stmt: Arc<Prepared>,
    params: Vec<Val>,
    formats: Vec<i16>,
}

struct Conn {
    srv: Arc<Server>,
    sid: u32,
    sock: UnixStream,
    inb: Vec<u8>,
    out: Vec<u8>,
    stmts: HashMap<String, Arc<Prepared>>,
    portals: HashMap<String, Portal>,
    started: bool,
    skip: bool,
}

enum End {
    Closed,
    Terminated,
    Faulted,
    Killed,
}
impl std::fmt::Debug for End {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            End::Closed => "by the client",
            End::Terminated => "terminated",
            End::Faulted => "by a fault",
            End::Killed => "killed",
        })
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return err("08P01", "message too short");
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn i16(&mut self) -> R<i16> {
        Ok(i16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn i32(&mut self) -> R<i32> {
        Ok(i32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn cstr(&mut self) -> R<String> {
        let Some(n) = self.0.iter().position(|b| *b == 0) else { return err("08P01", "unterminated string") };
        let s = self.take(n)?;
        self.take(1)?;
        match std::str::from_utf8(s) {
            Ok(s) => Ok(s.to_owned()),
            Err(_) => err("22021", "invalid byte sequence for encoding"),
        }
    }
}

impl Conn {
    fn msg(&mut self, t: u8, body: &[u8]) {
        self.out.push(t);
        self.out.extend((body.len() as i32 + 4).to_be_bytes());
        self.out.extend(body);
    }
    async fn flush(&mut self) -> Result<(), End> {
        if self.out.is_empty() {
            return Ok(());
        }
        self.srv.act();
        let b = std::mem::take(&mut self.out);
        self.sock.write_all(&b).await.map_err(|_| End::Closed)
    }
    fn ready(&mut self) {
        let s = match self.srv.db.lock().unwrap().sessions[&self.sid].tx {
            Tx::None | Tx::Implicit => b'I',
            Tx::Explicit => b'T',
            Tx::Failed => b'E',
        };
        self.notifications();
        self.msg(b'Z', &[s]);
    }
    fn notifications(&mut self) {
        let notes = {
            let mut db = self.srv.db.lock().unwrap();
            let s = db.sessions.get_mut(&self.sid).unwrap();
            if s.tx != Tx::None { vec![] } else { std::mem::take(&mut s.inbox) }
        };
        for (from, chan, payload) in notes {
            let mut b = (from as i32).to_be_bytes().to_vec();
            b.extend(chan.as_bytes());
            b.push(0);
            b.extend(payload.as_bytes());
            b.push(0);
            self.msg(b'A', &b);
        }
    }
    fn error(&mut self, e: &PgErr) {
        {
            let mut db = self.srv.db.lock().unwrap();
            db.stats.errors += 1;
            if e.code == UNSUPPORTED {
                db.unsupported.push(e.msg.clone());
            }
        }
        self.srv.note(|| format!("{} ERROR {} {}", self.sid, e.code, e.msg));
        let mut b = vec![];
        for (k, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', &e.code[..]), (b'M', &e.msg[..])] {
            b.push(k);
            b.extend(v.as_bytes());
            b.push(0);
        }
        b.push(0);
        self.msg(b'E', &b);
    }
    /// Waits for input; delivers notifications meanwhile.
    async fn fill(&mut self) -> Result<(), End> {
        let mut buf = [0u8; 8192];
        let n = loop {
            let srv = self.srv.clone();
            let changed = srv.changed.notified();
            let killed = srv.killed.notified();
            tokio::pin!(changed, killed);
            changed.as_mut().enable();
            killed.as_mut().enable();
            {
                let mut k = self.srv.kill.lock().unwrap();
                if let Some(i) = k.iter().position(|x| *x == self.sid) {
                    k.remove(i);
                    return Err(End::Killed);
                }
            }
            if self.started && self.inb.is_empty() {
                self.notifications();
                self.flush().await?;
            }
            tokio::select! {
                biased;
                _ = killed => {}
                r = self.sock.read(&mut buf) => break r.map_err(|_| End::Closed)?,
                _ = changed => {}
            }
        };
        if n == 0 {
            return Err(End::Closed);
        }
        self.srv.act();
        self.inb.extend(&buf[..n]);
        Ok(())
    }
    async fn jitter(&mut self) {
        let k = self.srv.jitter.load(Ordering::Relaxed);
        if k > 0 {
            let n = self.srv.db.lock().unwrap().rng.below(k);
            for _ in 0..n {
                self.srv.act();
                tokio::task::yield_now().await;
            }
        }
    }
    async fn run(&mut self) -> Result<(), End> {
        // startup
        loop {
            while self.inb.len() < 8 || self.inb.len() < i32::from_be_bytes(self.inb[..4].try_into().unwrap()) as usize {
                self.fill().await?;
            }
            let n = i32::from_be_bytes(self.inb[..4].try_into().unwrap()) as usize;
            let code = i32::from_be_bytes(self.inb[4..8].try_into().unwrap());
            self.inb.drain(..n);
            match code {
                80877103 | 80877104 => {
                    self.out.push(b'N');
                    self.flush().await?;
                }
                _ => break,
            }
        }
        self.srv.db.lock().unwrap().connect(self.sid);
        self.started = true;
        self.msg(b'R', &0i32.to_be_bytes());
        for (k, v) in [("server_version", "16.4"), ("client_encoding", "UTF8"), ("TimeZone", "UTC"), ("integer_datetimes", "on"), ("standard_conforming_strings", "on")] {
            let mut b = k.as_bytes().to_vec();
            b.push(0);
            b.extend(v.as_bytes());
            b.push(0);
            self.msg(b'S', &b);
        }
        let mut b = (self.sid as i32).to_be_bytes().to_vec();
        b.extend(42i32.to_be_bytes());
        self.msg(b'K', &b);
        self.ready();
        self.flush().await?;
        loop {
            while self.inb.len() < 5 || self.inb.len() < 1 + i32::from_be_bytes(self.inb[1..5].try_into().unwrap()) as usize {
                self.flush().await?;
                self.fill().await?;
            }
            let t = self.inb[0];
            let n = i32::from_be_bytes(self.inb[1..5].try_into().unwrap()) as usize;
            let body: Vec<u8> = self.inb[5..1 + n].to_vec();
            self.inb.drain(..1 + n);
            self.srv.act();
            match t {
                b'X' => {
                    return Err(End::Terminated);
                }
                b'Q' => {
                    self.jitter().await;
                    self.simple(&body).await?;
                    self.ready();
                    self.flush().await?;
                }
                b'S' => {
                    self.skip = false;
                    self.end_implicit();
                    self.ready();
                    self.flush().await?;
                }
                b'H' => self.flush().await?,
                _ if self.skip => {}
                _ => {
                    let r = match t {
                        b'P' => self.parse(&body),
                        b'D' => self.describe(&body),
                        b'B' => self.bind(&body),
                        b'C' => self.close(&body),
                        b'E' => {
                            self.jitter().await;
                            self.execute(&body).await?
                        }
                        _ => err(UNSUPPORTED, format!("message {:?}", t as char)),
                    };
                    if let Err(e) = r {
                        self.fail(&e);
                        self.skip = true;
                    }
                }
            }
        }
    }
    /// An error aborts the transaction.
    fn fail(&mut self, e: &PgErr) {
        self.error(e);
        {
            let mut db = self.srv.db.lock().unwrap();
            match db.sessions[&self.sid].tx {
                Tx::Explicit => {
                    db.rollback(self.sid);
                    db.sessions.get_mut(&self.sid).unwrap().tx = Tx::Failed;
                }
                Tx::Implicit => db.rollback(self.sid),
                _ => {}
            }
        }
        self.srv.changed.notify_waiters();
    }
    fn end_implicit(&mut self) {
        let mut db = self.srv.db.lock().unwrap();
        if db.sessions[&self.sid].tx == Tx::Implicit {
            db.commit(self.sid);
            drop(db);
            self.srv.changed.notify_waiters();
        }
    }
    fn parse(&mut self, b: &[u8]) -> R<()> {
        let mut r = Rd(b);
        let name = r.cstr()?;
        let sql = r.cstr()?;
        let n = r.i16()?;
        let mut tys = vec![];
        for _ in 0..n {
            let oid = r.i32()? as u32;
            match Ty::from_oid(oid) {
                Some(t) => tys.push(t),
                None => return err(UNSUPPORTED, format!("parameter type {oid}")),
            }
        }
        let p = self.srv.db.lock().unwrap().prepare(&sql, tys)?;
        self.stmts.insert(name, Arc::new(p));
        self.msg(b'1', &[]);
        Ok(())
    }
    fn row_description(&mut self, stmt: &AStmt, formats: &[i16]) {
        match stmt.columns() {
            None => self.msg(b'n', &[]),
            Some(cols) => {
                let mut b = (cols.len() as i16).to_be_bytes().to_vec();
                for (i, (n, ty)) in cols.iter().enumerate() {
                    b.extend(n.as_bytes());
                    b.push(0);
                    b.extend(0i32.to_be_bytes());
                    b.extend(0i16.to_be_bytes());
                    b.extend(ty.oid().to_be_bytes());
                    b.extend((-1i16).to_be_bytes());
                    b.extend((-1i32).to_be_bytes());
                    b.extend(format_of(formats, i).to_be_bytes());
                }
                self.msg(b'T', &b);
            }
        }
    }
    fn describe(&mut self, b: &[u8]) -> R<()> {
        let mut r = Rd(b);
        let kind = r.take(1)?[0];
        let name = r.cstr()?;
        if kind == b'S' {
            let Some(p) = self.stmts.get(&name).cloned() else { return err("26000", format!("prepared statement \"{name}\" does not exist")) };
            let mut d = (p.params.len() as i16).to_be_bytes().to_vec();
            for t in &p.params {
                d.extend(t.oid().to_be_bytes());
            }
            self.msg(b't', &d);
            self.row_description(&p.stmt, &[]);
        } else {
            let Some((p, f)) = self.portals.get(&name).map(|p| (p.stmt.clone(), p.formats.clone())) else {
                return err("34000", format!("portal \"{name}\" does not exist"));
            };
            self.row_description(&p.stmt, &f);
        }
        Ok(())
    }
    fn bind(&mut self, b: &[u8]) -> R<()> {
        let mut r = Rd(b);
        let portal = r.cstr()?;
        let name = r.cstr()?;
        let Some(stmt) = self.stmts.get(&name).cloned() else { return err("26000", format!("prepared statement \"{name}\" does not exist")) };
        let nf = r.i16()?;
        let fmts: Vec<i16> = (0..nf).map(|_| r.i16()).collect::<R<_>>()?;
        let np = r.i16()? as usize;
        if np != stmt.params.len() {
            return err("08P01", format!("bind message supplies {np} parameters, but prepared statement \"{name}\" requires {}", stmt.params.len()));
        }
        let db = self.srv.db.lock().unwrap();
        let labels = |o: u32| db.labels(o);
        let mut params = vec![];
        for (i, ty) in stmt.params.iter().enumerate() {
            let n = r.i32()?;
            if n < 0 {
                params.push(Val::Null);
                continue;
            }
            let raw = r.take(n as usize)?;
            params.push(if format_of(&fmts, i) == 1 {
                decode(ty, raw, &labels)?
            } else {
                match std::str::from_utf8(raw) {
                    Ok(s) => from_text(ty, s, &labels)?,
                    Err(_) => return err("22021", "invalid byte sequence"),
                }
            });
        }
        drop(db);
        let nr = r.i16()?;
        let formats: Vec<i16> = (0..nr).map(|_| r.i16()).collect::<R<_>>()?;
        self.portals.insert(portal, Portal { stmt, params, formats });
        self.msg(b'2', &[]);
        Ok(())
    }
    fn close(&mut self, b: &[u8]) -> R<()> {
        let mut r = Rd(b);
        let kind = r.take(1)?[0];
        let name = r.cstr()?;
        if kind == b'S' {
            self.stmts.remove(&name);
        } else {
            self.portals.remove(&name);
        }
        self.msg(b'3', &[]);
        Ok(())
    }
    fn fault(&mut self, sql: &str, explicit: bool) -> Option<Fault> {
        let f = self.srv.plan.lock().unwrap().as_mut().and_then(|p| p(sql, explicit));
        if let Some(f) = f {
            let n = match f {
                Fault::Slow(_) => "slow".to_owned(),
                f => format!("{f:?}"),
            };
            *self.srv.faults.lock().unwrap().entry(n).or_default() += 1;
            self.srv.note(|| format!("{} fault {f:?}", self.sid));
        }
        f
    }
    async fn execute(&mut self, b: &[u8]) -> Result<R<()>, End> {
        let mut r = Rd(b);
        let (name, limit) = match (|| Ok((r.cstr()?, r.i32()?)))() {
            Ok(x) => x,
            Err(e) => return Ok(Err(e)),
        };
        let Some(p) = self.portals.remove(&name) else { return Ok(err("34000", format!("portal \"{name}\" does not exist"))) };
        let stmt = p.stmt.clone();
        let r = self.statement(&stmt, p.params).await?;
        let out = match r {
            Ok(o) => o,
            Err(e) => return Ok(Err(e)),
        };
        let cols = stmt.stmt.columns().unwrap_or_default();
        // sqlx asks for one row only in fetch_optional/fetch_one of statements that return rows:
        // the portal is then suspended if there may be more
        let n = if limit > 0 { out.rows.len().min(limit as usize) } else { out.rows.len() };
        for row in &out.rows[..n] {
            if let Err(e) = self.data_row(&cols, row, &p.formats) {
                return Ok(Err(e));
            }
        }
        if limit > 0 && out.rows.len() >= limit as usize {
            self.msg(b's', &[]);
        } else {
            self.tag(&out.tag);
        }
        Ok(Ok(()))
    }
    fn tag(&mut self, t: &str) {
        let mut b = t.as_bytes().to_vec();
        b.push(0);
        self.msg(b'C', &b);
    }
    fn data_row(&mut self, cols: &[(String, Ty)], row: &[Val], formats: &[i16]) -> R<()> {
        let mut b = (row.len() as i16).to_be_bytes().to_vec();
        for (i, v) in row.iter().enumerate() {
            let e = if format_of(formats, i) == 1 { encode(&cols[i].1, v) } else { encode_text(&cols[i].1, v)? };
            match e {
                None => b.extend((-1i32).to_be_bytes()),
                Some(e) => {
                    b.extend((e.len() as i32).to_be_bytes());
                    b.extend(e);
                }
            }
        }
        self.msg(b'D', &b);
        Ok(())
    }
    /// Runs one statement to its end; blocking and pausing happens here.
    async fn statement(&mut self, p: &Prepared, params: Vec<Val>) -> Result<R<Out>, End> {
        let (tx, sid) = (self.srv.db.lock().unwrap().sessions[&self.sid].tx, self.sid);
        self.srv.note(|| format!("{sid} {tx:?} {} {params:?}", p.sql));
        if tx == Tx::Failed {
            return Ok(err("25P02", "current transaction is aborted, commands ignored until end of transaction block"));
        }
        let fault = if matches!(p.stmt, AStmt::Catalog(_)) { None } else { self.fault(&p.sql, tx == Tx::Explicit) };
        match fault {
            Some(Fault::Error) => return Ok(err("57014", "canceling statement (injected)")),
            Some(Fault::DropBefore) => return Err(End::Faulted),
            _ => {}
        }
        self.srv.db.lock().unwrap().ensure_tx(sid);
        let mut run = Run::default();
        run.params = params;
        let out = loop {
            self.srv.act();
            let changed = self.srv.clone();
            let changed = changed.changed.notified();
            tokio::pin!(changed);
            changed.as_mut().enable();
            let f = self.srv.db.lock().unwrap().step(sid, p, &mut run);
            match f {
                Err(e) => return Ok(Err(e)),
                Ok(Flow::Done(o)) => break o,
                Ok(Flow::Pause) => {
                    self.srv.note(|| format!("{sid} pauses"));
                    let n = 1 + self.srv.db.lock().unwrap().rng.below(24);
                    for _ in 0..n {
                        self.srv.act();
                        tokio::task::yield_now().await;
                    }
                }
                Ok(Flow::Block) => {
                    self.srv.note(|| format!("{sid} blocks"));
                    self.srv.blocked.fetch_add(1, Ordering::Relaxed);
                    let mut probe = [0u8; 1];
                    // a client that goes away while its statement waits ends the wait
                    let gone = loop {
                        tokio::select! {
                            _ = &mut changed => break false,
                            r = self.sock.readable() => {
                                let _ = r;
                                match self.sock.try_read(&mut probe) {
                                    Ok(0) => break true,
                                    Ok(_) => self.inb.push(probe[0]),
                                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                                    Err(_) => break true,
                                }
                            }
                        }
                    };
                    self.srv.blocked.fetch_sub(1, Ordering::Relaxed);
                    if gone {
                        return Err(End::Closed);
                    }
                }
            }
        };
        self.srv.note(|| format!("{sid} -> {} {:?}", out.tag, out.rows));
        match fault {
            Some(Fault::DropAfter) => {
                self.end_implicit();
                return Err(End::Faulted);
            }
            Some(Fault::Slow(ms)) => {
                // committed first: what is slow is the answer
                self.end_implicit();
                tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
            }
            _ => {}
        }
        Ok(Ok(out))
    }
    async fn simple(&mut self, b: &[u8]) -> Result<(), End> {
        let sql = match Rd(b).cstr() {
            Ok(s) => s,
            Err(e) => {
                self.fail(&e);
                return Ok(());
            }
        };
        let stmts = match Parser::new(&sql).and_then(|mut p| p.script()) {
            Ok(s) => s,
            Err(e) => {
                self.fail(&e);
                return Ok(());
            }
        };
        if stmts.iter().all(|s| *s == Stmt::Empty) {
            self.msg(b'I', &[]);
            return Ok(());
        }
        for s in stmts {
            if s == Stmt::Empty {
                continue;
            }
            if let Err(e) = self.one(&sql, s).await? {
                self.fail(&e);
                return Ok(());
            }
        }
        self.end_implicit();
        Ok(())
    }
    async fn one(&mut self, sql: &str, s: Stmt) -> Result<R<()>, End> {
        let sid = self.sid;
        let tx = self.srv.db.lock().unwrap().sessions[&sid].tx;
        match s {
            Stmt::Begin => {
                self.srv.note(|| format!("{sid} BEGIN"));
                match self.fault("BEGIN", false) {
                    Some(Fault::Error) => return Ok(err("57014", "injected")),
                    Some(Fault::DropBefore | Fault::DropAfter) => return Err(End::Faulted),
                    _ => {}
                }
                if tx != Tx::Failed {
                    self.srv.db.lock().unwrap().begin(sid);
                }
                self.tag("BEGIN");
            }
            Stmt::Commit => {
                self.srv.note(|| format!("{sid} COMMIT"));
                let f = self.fault("COMMIT", true);
                match f {
                    Some(Fault::Error) => return Ok(err("40001", "could not serialize access (injected)")),
                    Some(Fault::DropBefore) => return Err(End::Faulted),
                    _ => {}
                }
                {
                    let mut db = self.srv.db.lock().unwrap();
                    if tx == Tx::Failed {
                        db.rollback(sid);
                    } else {
                        db.commit(sid);
                    }
                }
                self.srv.changed.notify_waiters();
                if f == Some(Fault::DropAfter) {
                    return Err(End::Faulted);
                }
                if let Some(Fault::Slow(ms)) = f {
                    tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                }
                self.tag(if tx == Tx::Failed { "ROLLBACK" } else { "COMMIT" });
            }
            Stmt::Rollback => {
                self.srv.note(|| format!("{sid} ROLLBACK"));
                match self.fault("ROLLBACK", true) {
                    Some(Fault::Error) => return Ok(err("57014", "injected")),
                    Some(Fault::DropBefore | Fault::DropAfter) => return Err(End::Faulted),
                    _ => {}
                }
                self.srv.db.lock().unwrap().rollback(sid);
                self.srv.changed.notify_waiters();
                self.tag("ROLLBACK");
            }
            s => {
                let stmt = {
                    let db = self.srv.db.lock().unwrap();
                    crate::analyze::Scope::new(&db, &[]).stmt(&s)
                };
                let p = match stmt {
                    Ok(stmt) => Prepared { sql: sql.split_whitespace().collect::<Vec<_>>().join(" "), stmt, params: vec![] },
                    Err(e) => return Ok(Err(e)),
                };
                let out = match self.statement(&p, vec![]).await? {
                    Ok(o) => o,
                    Err(e) => return Ok(Err(e)),
                };
                if let Some(cols) = p.stmt.columns() {
                    self.row_description(&p.stmt, &[]);
                    for r in &out.rows {
                        if let Err(e) = self.data_row(&cols, r, &[]) {
                            return Ok(Err(e));
                        }
                    }
                }
                self.tag(&out.tag);
            }
        }
        Ok(Ok(()))
    }
}

fn format_of(f: &[i16], i: usize) -> i16 {
    match f.len() {
        0 => 0,
        1 => f[0],
        _ => f.get(i).copied().unwrap_or(0),
    }
}
