//! Tables, sessions, transactions and execution of the emulated server: read committed, row locks
//! with re-evaluation after a wait, advisory locks, triggers and notifications at commit. A
//! statement can be suspended between finding its rows and changing them (`Flow::Pause`), and
//! unordered or tied rows come in random order, so that everything PostgreSQL may do can happen.
use crate::analyze::*;
use crate::sql::*;
use crate::val::*;
use mon::rng::Rng;
use serde_json::Value;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub not_null: bool,
    pub default: Option<T>,
    pub serial: bool,
    pub primary: bool,
}

#[derive(Debug, Clone, Default)]
pub struct RowState {
    pub committed: Option<Vec<Val>>,
    pub pending: Option<(u32, Option<Vec<Val>>)>,
    pub lock: Option<u32>,
    pub ver: u64,
}

#[derive(Debug, Clone)]
pub struct Trigger {
    name: String,
    insert: bool,
    update: bool,
    delete: bool,
    when: Option<T>,
    f: CFn,
}

#[derive(Debug, Clone)]
struct CFn {
    vars: Vec<(Ty, Option<T>)>,
    body: Vec<CPl>,
}
#[derive(Debug, Clone)]
enum CPl {
    Assign(usize, T),
    Perform(T),
    If(Vec<(T, Vec<CPl>)>, Vec<CPl>),
    Return,
    Null,
}

#[derive(Debug, Clone, Default)]
pub struct Table {
    pub cols: Vec<Col>,
    pub rows: BTreeMap<u64, RowState>,
    pub next_row: u64,
    pub seq: i64,
    pub triggers: Vec<Trigger>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Tx {
    None,
    Implicit,
    Explicit,
    Failed,
}

#[derive(Debug)]
pub struct Session {
    pub listening: BTreeSet<String>,
    pub tx: Tx,
    pub tx_now: i64,
    pub notifies: Vec<(String, String)>,
    pub listens: Vec<(Option<String>, bool)>,
    pub waits_for: Option<u32>,
    /// Notifications to deliver.
    pub inbox: Vec<(u32, String, String)>,
}

pub enum Flow {
    Done(Out),
    Block,
    Pause,
}

pub struct Out {
    pub rows: Vec<Vec<Val>>,
    pub tag: String,
}

pub struct Prepared {
    pub sql: String,
    pub stmt: AStmt,
    pub params: Vec<Ty>,
}

#[derive(Default)]
pub struct SelRun {
    subs: Vec<SelRun>,
    started: bool,
    cands: Vec<(u64, u64)>,
    idx: usize,
    locked: Vec<Vec<Val>>,
    done: Option<Vec<Vec<Val>>>,
}

/// A statement being executed.
#[derive(Default)]
pub struct Run {
    pub params: Vec<Val>,
    sel: SelRun,
    subs: Vec<SelRun>,
    started: bool,
    cands: Vec<(u64, u64)>,
    idx: usize,
    fired: Vec<(Option<Vec<Val>>, Option<Vec<Val>>)>,
    ret: Vec<Vec<Val>>,
    count: usize,
    pub pauses: u32,
}

#[derive(Default)]
pub struct Stats {
    pub statements: BTreeMap<&'static str, u64>,
    pub blocks: u64,
    pub pauses: u64,
    pub rechecks: u64,
    pub notifications: u64,
    pub errors: u64,
}

/// A committed change of a row.
#[derive(Debug, Clone)]
pub struct Change {
    pub sid: u32,
    pub at: i64,
    pub old: Option<Vec<Val>>,
    pub new: Option<Vec<Val>>,
    /// Other rows (committed, not being changed by anybody) when this was committed.
    pub others: Vec<Vec<Val>>,
}

pub struct Db {
    /// Table whose committed changes are recorded.
    pub watch: Option<String>,
    /// ... without the other rows.
    pub watch_alone: bool,
    pub changes: Vec<Change>,
    pub enums: Vec<(String, u32, Vec<String>)>,
    pub tables: BTreeMap<String, Table>,
    pub indexes: BTreeSet<String>,
    pub functions: BTreeMap<String, PlFn>,
    pub sessions: BTreeMap<u32, Session>,
    /// key -> holder, transaction-level count, session-level count
    pub advisory: BTreeMap<i64, (u32, u32, u32)>,
    /// Microseconds since 2000.
    pub now: i64,
    pub rng: Rng,
    pub pause_pct: u64,
    pub unsupported: Vec<String>,
    pub stats: Stats,
    ver: u64,
}

struct Ev<'a> {
    params: &'a [Val],
    row: &'a [Val],
    subs: &'a [&'a [Vec<Val>]],
    aggs: &'a [Val],
    new: Option<&'a [Val]>,
    old: Option<&'a [Val]>,
    vars: &'a [Val],
    now: i64,
}

const NO_ROW: &[Val] = &[];

fn tri(v: &Val) -> Option<bool> {
    match v {
        Val::Bool(b) => Some(*b),
        _ => None,
    }
}
fn of_tri(v: Option<bool>) -> Val {
    v.map_or(Val::Null, Val::Bool)
}

impl Db {
    pub fn new(seed: u64) -> Self {
        Self {
            watch: None,
            watch_alone: false,
            changes: vec![],
            enums: vec![],
            tables: BTreeMap::new(),
            indexes: BTreeSet::new(),
            functions: BTreeMap::new(),
            sessions: BTreeMap::new(),
            advisory: BTreeMap::new(),
            now: 0,
            rng: Rng::new(seed),
            pause_pct: 0,
            unsupported: vec![],
            stats: Stats::default(),
            ver: 0,
        }
    }
    pub fn enum_by_name(&self, n: &str) -> Option<u32> {
        self.enums.iter().find(|e| e.0 == n).map(|e| e.1)
    }
    pub fn labels(&self, oid: u32) -> Vec<String> {
        self.enums.iter().find(|e| e.1 == oid).map(|e| e.2.clone()).unwrap_or_default()
    }
    fn lab(&self) -> impl Fn(u32) -> Vec<String> + '_ {
        |o| self.labels(o)
    }
    pub fn connect(&mut self, sid: u32) {
        self.sessions.insert(
            sid,
            Session { listening: BTreeSet::new(), tx: Tx::None, tx_now: 0, notifies: vec![], listens: vec![], waits_for: None, inbox: vec![] },
        );
    }
    pub fn disconnect(&mut self, sid: u32) {
        self.rollback(sid);
        self.advisory.retain(|_, a| a.0 != sid);
        self.sessions.remove(&sid);
    }
    fn s(&mut self, sid: u32) -> &mut Session {
        self.sessions.get_mut(&sid).expect("session")
    }

    // ---- preparation

    pub fn prepare(&self, sql: &str, params: Vec<Ty>) -> R<Prepared> {
        let norm: String = sql.split_whitespace().collect::<Vec<_>>().join(" ");
        let cat = match norm.as_str() {
            "SELECT oid::regtype::text, typtype, typcategory, typrelid, typelem, typbasetype FROM pg_catalog.pg_type WHERE oid = $1" => Some(0),
            "SELECT enumlabel FROM pg_catalog.pg_enum WHERE enumtypid = $1 ORDER BY enumsortorder" => Some(1),
            "SELECT $1::regtype::oid" => Some(2),
            "SELECT oid, typarray FROM pg_catalog.pg_type WHERE oid = $1::regtype::oid" => Some(3),
            _ => None,
        };
        if let Some(k) = cat {
            return Ok(Prepared { sql: norm, stmt: AStmt::Catalog(k), params });
        }
        let s = Parser::new(sql)?.single()?;
        let stmt = Scope::new(self, &params).stmt(&s)?;
        Ok(Prepared { sql: norm, stmt, params })
    }

    // ---- evaluation

    fn truth(&self, t: &T, ev: &Ev) -> R<bool> {
        Ok(tri(&self.eval(t, ev)?) == Some(true))
    }
    fn cmp(&self, op: &str, ty: &Ty, a: &Val, b: &Val) -> R<Option<bool>> {
        if *a == Val::Null || *b == Val::Null {
            return Ok(None);
        }
        if op == "=" {
            return equal(ty, a, b, &self.lab()).map(Some);
        }
        if op == "<>" {
            return equal(ty, a, b, &self.lab()).map(|x| Some(!x));
        }
        let o = compare(ty, a, b, &self.lab())?;
        Ok(Some(match op {
            "<" => o == Ordering::Less,
            ">" => o == Ordering::Greater,
            "<=" => o != Ordering::Greater,
            _ => o != Ordering::Less,
        }))
    }
    fn any_of<'v>(&self, op: &str, ty: &Ty, a: &Val, vs: impl Iterator<Item = &'v Val>, all: bool) -> R<Option<bool>> {
        let mut unknown = false;
        for v in vs {
            match self.cmp(op, ty, a, v)? {
                None => unknown = true,
                Some(b) if b != all => return Ok(Some(!all)),
                _ => {}
            }
        }
        Ok(if unknown { None } else { Some(all) })
    }
    fn ranged(&self, ty: &Ty, i: Option<i64>) -> R<Val> {
        let ok = i.filter(|i| match ty {
            Ty::Int2 => i16::try_from(*i).is_ok(),
            Ty::Int4 => i32::try_from(*i).is_ok(),
            Ty::Oid => u32::try_from(*i).is_ok(),
            _ => true,
        });
        match ok {
            Some(i) => Ok(Val::Int(i)),
            None => err("22003", "integer out of range"),
        }
    }
    fn cast(&self, v: Val, from: &Ty, to: &Ty) -> R<Val> {
        if v == Val::Null {
            return Ok(v);
        }
        Ok(match (from, to) {
            (Ty::Array(a), Ty::Array(b)) => match v {
                Val::Arr(xs) => Val::Arr(xs.into_iter().map(|x| self.cast(x, a, b)).collect::<R<_>>()?),
                v => v,
            },
            (Ty::Timestamp, Ty::Timestamptz) | (Ty::Timestamptz, Ty::Timestamp) => v,
            (Ty::Json, Ty::Jsonb) => match v {
                Val::Str(s) => Val::Jsonb(parse_jsonb(&s)?),
                v => v,
            },
            (Ty::Jsonb, Ty::Json) => match v {
                Val::Jsonb(j) => Val::Str(j.to_string()),
                v => v,
            },
            (Ty::Bool, Ty::Int4) => Val::Int((v == Val::Bool(true)) as i64),
            (Ty::Int4, Ty::Bool) => Val::Bool(v != Val::Int(0)),
            (a, b) if (a.integer() || *a == Ty::Oid) && (b.integer() || *b == Ty::Oid) => match v {
                Val::Int(i) => self.ranged(b, Some(i))?,
                v => v,
            },
            (a, b) if b.textual() => Val::Str(to_text(a, &v)?),
            (a, b) if a.textual() => match v {
                Val::Str(s) => from_text(b, &s, &self.lab())?,
                v => v,
            },
            (a, b) => return unsupported(format!("cast from {a:?} to {b:?}")),
        })
    }
    fn eval(&self, t: &T, ev: &Ev) -> R<Val> {
        let e = |t: &T| self.eval(t, ev);
        // strict functions and operators
        macro_rules! strict {
            ($($x:ident),*) => { $(let $x = e($x)?; if $x == Val::Null { return Ok(Val::Null); })* };
        }
        Ok(match &t.k {
            K::Const(v) => v.clone(),
            K::Param(i) => ev.params[*i].clone(),
            K::Col(i) => ev.row[*i].clone(),
            K::New(i) => match ev.new {
                Some(r) => r[*i].clone(),
                None => return err("55000", "record \"new\" is not assigned yet"),
            },
            K::Old(i) => match ev.old {
                Some(r) => r[*i].clone(),
                None => return err("55000", "record \"old\" is not assigned yet"),
            },
            K::Var(i) => ev.vars[*i].clone(),
            K::Not(x) => of_tri(tri(&e(x)?).map(|b| !b)),
            K::And(v) => {
                let mut r = Some(true);
                for x in v {
                    match tri(&e(x)?) {
                        Some(false) => return Ok(Val::Bool(false)),
                        None => r = None,
                        _ => {}
                    }
                }
                of_tri(r)
            }
            K::Or(v) => {
                let mut r = Some(false);
                for x in v {
                    match tri(&e(x)?) {
                        Some(true) => return Ok(Val::Bool(true)),
                        None => r = None,
                        _ => {}
                    }
                }
                of_tri(r)
            }
            K::Cmp(op, ty, l, r) => of_tri(self.cmp(op, ty, &e(l)?, &e(r)?)?),
            K::Int(op, l, r) => {
                strict!(l, r);
                let (Val::Int(a), Val::Int(b)) = (l, r) else { return unsupported("arithmetic") };
                if (op == "/" || op == "%") && b == 0 {
                    return err("22012", "division by zero");
                }
                self.ranged(
                    &t.ty,
                    match op.as_str() {
                        "+" => a.checked_add(b),
                        "-" => a.checked_sub(b),
                        "*" => a.checked_mul(b),
                        "/" => a.checked_div(b),
                        _ => a.checked_rem(b),
                    },
                )?
            }
            K::TsMinusTs(l, r) => {
                strict!(l, r);
                let (Val::Ts(a), Val::Ts(b)) = (l, r) else { return unsupported("arithmetic") };
                match a.checked_sub(b) {
                    Some(x) => Val::Interval(x),
                    None => return err("22008", "interval out of range"),
                }
            }
            K::TsInterval(sign, l, r) => {
                strict!(l, r);
                let (Val::Ts(a), Val::Interval(b)) = (l, r) else { return unsupported("arithmetic") };
                match b.checked_mul(*sign).and_then(|b| a.checked_add(b)) {
                    Some(x) => Val::Ts(check_ts(x)?),
                    None => return err("22008", "timestamp out of range"),
                }
            }
            K::IntervalInterval(sign, l, r) => {
                strict!(l, r);
                let (Val::Interval(a), Val::Interval(b)) = (l, r) else { return unsupported("arithmetic") };
                match b.checked_mul(*sign).and_then(|b| a.checked_add(b)) {
                    Some(x) => Val::Interval(x),
                    None => return err("22008", "interval out of range"),
                }
            }
            K::IntervalTimes(l, r) => {
                strict!(l, r);
                let (Val::Interval(a), Val::Int(b)) = (l, r) else { return unsupported("arithmetic") };
                match a.checked_mul(b) {
                    Some(x) => Val::Interval(x),
                    None => return err("22008", "interval out of range"),
                }
            }
            K::Neg(x) => {
                strict!(x);
                match x {
                    Val::Int(i) => self.ranged(&t.ty, i.checked_neg())?,
                    Val::Interval(i) => Val::Interval(-i),
                    _ => return unsupported("negation"),
                }
            }
            K::Abs(x) => {
                strict!(x);
                match x {
                    Val::Int(i) => self.ranged(&t.ty, i.checked_abs())?,
                    _ => return unsupported("abs"),
                }
            }
            K::Contains(l, r) | K::Overlaps(l, r) => {
                let Ty::Array(el) = l.ty.clone() else { return unsupported("containment") };
                let over = matches!(t.k, K::Overlaps(..));
                strict!(l, r);
                let (Val::Arr(a), Val::Arr(z)) = (l, r) else { return unsupported("containment") };
                let has = |x: &Val| -> R<bool> {
                    if *x == Val::Null {
                        return Ok(false);
                    }
                    for y in &a {
                        if *y != Val::Null && equal(&el, x, y, &self.lab())? {
                            return Ok(true);
                        }
                    }
                    Ok(false)
                };
                let mut any = false;
                let mut all = true;
                for x in &z {
                    if has(x)? {
                        any = true;
                    } else {
                        all = false;
                    }
                }
                Val::Bool(if over { any } else { all })
            }
            K::JsonContains(l, r) => {
                strict!(l, r);
                let (Val::Jsonb(a), Val::Jsonb(z)) = (l, r) else { return unsupported("containment") };
                Val::Bool(json_contains(&a, &z, true))
            }
            K::Concat(l, r) => {
                let (l, r) = (e(l)?, e(r)?);
                match (l, r) {
                    (Val::Arr(mut a), Val::Arr(b)) => {
                        a.extend(b);
                        Val::Arr(a)
                    }
                    (Val::Str(a), Val::Str(b)) => Val::Str(a + &b),
                    (Val::Null, Val::Arr(a)) | (Val::Arr(a), Val::Null) => Val::Arr(a),
                    _ => Val::Null,
                }
            }
            K::JsonGet(l, r, text) => {
                strict!(l, r);
                let Val::Jsonb(j) = l else { return unsupported("->") };
                let got = match r {
                    Val::Str(k) => j.as_object().and_then(|o| o.get(&k)).cloned(),
                    Val::Int(i) => j.as_array().and_then(|a| if i >= 0 { a.get(i as usize) } else { a.len().checked_sub((-i) as usize).and_then(|k| a.get(k)) }).cloned(),
                    _ => None,
                };
                match (got, text) {
                    (None, _) | (Some(Value::Null), true) => Val::Null,
                    (Some(Value::String(s)), true) => Val::Str(s),
                    (Some(v), true) => Val::Str(v.to_string()),
                    (Some(v), false) => Val::Jsonb(v),
                }
            }
            K::IsNull(x, neg) => Val::Bool((e(x)? == Val::Null) != *neg),
            K::IsBool(x, v, neg) => Val::Bool((tri(&e(x)?) == Some(*v)) != *neg),
            K::IsDistinct(ty, l, r, neg) => {
                let (l, r) = (e(l)?, e(r)?);
                let d = match (&l, &r) {
                    (Val::Null, Val::Null) => false,
                    (Val::Null, _) | (_, Val::Null) => true,
                    _ => !equal(ty, &l, &r, &self.lab())?,
                };
                Val::Bool(d != *neg)
            }
            K::InList(ty, x, v, neg) => {
                let x = e(x)?;
                let vs = v.iter().map(e).collect::<R<Vec<_>>>()?;
                let r = self.any_of("=", ty, &x, vs.iter(), false)?;
                of_tri(r.map(|b| b != *neg))
            }
            K::InSub(ty, x, i, neg) => {
                let x = e(x)?;
                let r = self.any_of("=", ty, &x, ev.subs[*i].iter().map(|r| &r[0]), false)?;
                of_tri(r.map(|b| b != *neg))
            }
            K::Quant(op, ty, l, r, all) => {
                let l = e(l)?;
                match e(r)? {
                    Val::Null => Val::Null,
                    Val::Arr(vs) => of_tri(self.any_of(op, ty, &l, vs.iter(), *all)?),
                    _ => return unsupported("ANY/ALL"),
                }
            }
            K::Case(whens, els) => {
                for (c, v) in whens {
                    if self.truth(c, ev)? {
                        return e(v);
                    }
                }
                match els {
                    Some(x) => e(x)?,
                    None => Val::Null,
                }
            }
            K::Coalesce(v) => {
                for x in v {
                    let x = e(x)?;
                    if x != Val::Null {
                        return Ok(x);
                    }
                }
                Val::Null
            }
            K::Extreme(max, v) => {
                let mut best = Val::Null;
                for x in v {
                    let x = e(x)?;
                    if x == Val::Null {
                        continue;
                    }
                    if best == Val::Null || (compare(&t.ty, &x, &best, &self.lab())? == Ordering::Greater) == *max {
                        best = x;
                    }
                }
                best
            }
            K::Coerce(x) => {
                let v = e(x)?;
                self.cast(v, &x.ty, &t.ty)?
            }
            K::Array(v) => Val::Arr(v.iter().map(e).collect::<R<_>>()?),
            K::Exists(i) => Val::Bool(!ev.subs[*i].is_empty()),
            K::Scalar(i) => match ev.subs[*i].len() {
                0 => Val::Null,
                1 => ev.subs[*i][0][0].clone(),
                _ => return err("21000", "more than one row returned by a subquery used as an expression"),
            },
            K::Agg(i) => ev.aggs[*i].clone(),
            K::Now => Val::Ts(ev.now),
            K::ClockNow => Val::Ts(self.now),
            K::TimezoneOf(z, x) => {
                strict!(z, x);
                match z {
                    Val::Str(z) if ["utc", "gmt", "zulu", "z"].contains(&z.to_lowercase().as_str()) => x,
                    _ => return unsupported("time zones other than UTC"),
                }
            }
            K::ArrayAppend(a, x) => {
                let (a, x) = (e(a)?, e(x)?);
                let mut v = match a {
                    Val::Arr(v) => v,
                    _ => vec![],
                };
                v.push(x);
                Val::Arr(v)
            }
            K::ArrayRemove(a, x) => {
                let (a, x) = (e(a)?, e(x)?);
                match a {
                    Val::Arr(v) => Val::Arr(v.into_iter().filter(|y| *y != x).collect()),
                    a => a,
                }
            }
            K::Cardinality(a) => match e(a)? {
                Val::Arr(v) => Val::Int(v.len() as i64),
                _ => Val::Null,
            },
            K::BuildObject(v, bin) => {
                let mut o = serde_json::Map::new();
                let mut text = String::from("{");
                for (i, p) in v.chunks(2).enumerate() {
                    let k = match e(&p[0])? {
                        Val::Null => return err("22023", "argument must not be null"),
                        k => to_text(&p[0].ty, &k)?,
                    };
                    let j = to_json(&p[1].ty, &e(&p[1])?)?;
                    if i > 0 {
                        text += ", ";
                    }
                    text += &format!("{} : {}", Value::String(k.clone()), j);
                    o.insert(k, j);
                }
                if *bin { Val::Jsonb(Value::Object(o)) } else { Val::Str(text + "}") }
            }
            K::BuildArray(v, bin) => {
                let a = Value::Array(v.iter().map(|x| to_json(&x.ty, &e(x)?)).collect::<R<_>>()?);
                if *bin { Val::Jsonb(a) } else { Val::Str(a.to_string()) }
            }
            K::ToJson(x) => match e(x)? {
                Val::Null => Val::Null,
                v => Val::Jsonb(to_json(&x.ty, &v)?),
            },
            K::Lower(x, low) => match e(x)? {
                Val::Str(s) => Val::Str(if *low { s.to_lowercase() } else { s.to_uppercase() }),
                v => v,
            },
            K::Like(x, p, fold) => match (e(x)?, e(p)?) {
                (Val::Str(s), Val::Str(p)) => {
                    let (s, p) = if *fold { (s.to_lowercase(), p.to_lowercase()) } else { (s, p) };
                    Val::Bool(like(&s.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>()))
                }
                _ => Val::Null,
            },
            K::DateTrunc(u, x) => match (e(u)?, e(x)?) {
                (Val::Str(u), Val::Ts(t)) => {
                    let unit = match u.to_lowercase().as_str() {
                        "microseconds" => 1,
                        "milliseconds" => 1_000,
                        "second" => 1_000_000,
                        "minute" => 60_000_000,
                        "hour" => 3_600_000_000,
                        "day" => 86_400_000_000,
                        _ => return unsupported(format!("date_trunc to {u}")),
                    };
                    Val::Ts(t - t.rem_euclid(unit))
                }
                _ => Val::Null,
            },
            K::CurrentDatabase => Val::Str("mon".into()),
            K::Effect(n, _) => return unsupported(format!("{n} inside an expression")),
        })
    }

    // ---- rows

    fn visible<'a>(&self, sid: u32, r: &'a RowState) -> Option<&'a Vec<Val>> {
        match &r.pending {
            Some((s, v)) if *s == sid => v.as_ref(),
            _ => r.committed.as_ref(),
        }
    }
    fn holder(&self, sid: u32, r: &RowState) -> Option<u32> {
        r.lock.filter(|s| *s != sid).or(r.pending.as_ref().map(|p| p.0).filter(|s| *s != sid))
    }
    fn scan(&mut self, sid: u32, table: &str, filter: Option<&T>, params: &[Val], subs: &[&[Vec<Val>]], now: i64) -> R<Vec<(u64, u64)>> {
        let t = &self.tables[table];
        let mut out = vec![];
        for (id, r) in &t.rows {
            let Some(v) = self.visible(sid, r) else { continue };
            let ok = match filter {
                None => true,
                Some(f) => self.truth(f, &Ev { params, row: v, subs, aggs: &[], new: None, old: None, vars: &[], now })?,
            };
            if ok {
                out.push((*id, r.ver));
            }
        }
        self.rng.shuffle(&mut out);
        Ok(out)
    }
    fn block(&mut self, sid: u32, on: u32) -> R<Flow> {
        // a cycle of waits is a deadlock
        let mut at = Some(on);
        let mut n = 0;
        while let Some(x) = at {
            if x == sid {
                return err("40P01", "deadlock detected");
            }
            at = self.sessions.get(&x).and_then(|s| s.waits_for);
            n += 1;
            if n > 1000 {
                break;
            }
        }
        self.s(sid).waits_for = Some(on);
        self.stats.blocks += 1;
        Ok(Flow::Block)
    }
    fn pause(&mut self) -> bool {
        let p = self.pause_pct > 0 && self.rng.pct(self.pause_pct);
        if p {
            self.stats.pauses += 1;
        }
        p
    }
    fn limit(&self, t: &Option<T>, params: &[Val], what: &'static str) -> R<Option<usize>> {
        let Some(t) = t else { return Ok(None) };
        match self.eval(t, &Ev { params, row: NO_ROW, subs: &[], aggs: &[], new: None, old: None, vars: &[], now: 0 })? {
            Val::Null => Ok(None),
            Val::Int(i) if i < 0 => err("2201W", format!("{what} must not be negative")),
            Val::Int(i) => Ok(Some(i as usize)),
            _ => unsupported(what),
        }
    }

    /// None: finished, the rows are in `run.done`.
    fn step_select(&mut self, sid: u32, s: &ASelect, params: &[Val], run: &mut SelRun) -> R<Option<Flow>> {
        if run.done.is_some() {
            return Ok(None);
        }
        if run.subs.len() != s.subs.len() {
            run.subs = s.subs.iter().map(|_| SelRun::default()).collect();
        }
        for (a, r) in s.subs.iter().zip(run.subs.iter_mut()) {
            if let Some(f) = self.step_select(sid, a, params, r)? {
                return Ok(Some(f));
            }
        }
        let now = self.sessions[&sid].tx_now;
        let SelRun { subs, .. } = run;
        let subs: Vec<&[Vec<Val>]> = subs.iter().map(|r| r.done.as_deref().unwrap()).collect();
        let limit = self.limit(&s.limit, params, "LIMIT")?;
        let offset = self.limit(&s.offset, params, "OFFSET")?.unwrap_or(0);
        let Some(table) = &s.table else {
            let mut row = vec![];
            for (_, t) in &s.items {
                if let K::Effect(n, args) = &t.k {
                    match self.effect(sid, n, args, params, &[], None, None)? {
                        Ok(v) => row.push(v),
                        Err(f) => return Ok(Some(f)),
                    }
                } else {
                    row.push(self.eval(t, &Ev { params, row: NO_ROW, subs: &subs, aggs: &[], new: None, old: None, vars: &[], now })?);
                }
            }
            run.done = Some(vec![row].into_iter().skip(offset).take(limit.unwrap_or(usize::MAX)).collect());
            return Ok(None);
        };
        if !run.started {
            let mut c = self.scan(sid, table, s.filter.as_ref(), params, &subs, now)?;
            if !s.order.is_empty() {
                let mut keyed: Vec<(Vec<Val>, (u64, u64))> = vec![];
                for x in c {
                    let row = self.visible(sid, &self.tables[table].rows[&x.0]).unwrap();
                    let ev = Ev { params, row, subs: &subs, aggs: &[], new: None, old: None, vars: &[], now };
                    keyed.push((s.order.iter().map(|o| self.eval(&o.0, &ev)).collect::<R<_>>()?, x));
                }
                let mut bad = None;
                keyed.sort_by(|a, b| {
                    for (i, (t, desc, nulls_first)) in s.order.iter().enumerate() {
                        let o = match (&a.0[i], &b.0[i]) {
                            (Val::Null, Val::Null) => Ordering::Equal,
                            (Val::Null, _) => if *nulls_first { Ordering::Less } else { Ordering::Greater },
                            (_, Val::Null) => if *nulls_first { Ordering::Greater } else { Ordering::Less },
                            (x, y) => match compare(&t.ty, x, y, &self.lab()) {
                                Ok(o) => if *desc { o.reverse() } else { o },
                                Err(e) => {
                                    bad = Some(e);
                                    Ordering::Equal
                                }
                            },
                        };
                        if o != Ordering::Equal {
                            return o;
                        }
                    }
                    Ordering::Equal
                });
                if let Some(e) = bad {
                    return Err(e);
                }
                c = keyed.into_iter().map(|k| k.1).collect();
            }
            run.cands = c;
            run.started = true;
            if s.lock.is_some() && !run.cands.is_empty() && self.pause() {
                return Ok(Some(Flow::Pause));
            }
        }
        let want = limit.map_or(usize::MAX, |l| l.saturating_add(offset));
        if let Some(lock) = s.lock {
            while run.idx < run.cands.len() && run.locked.len() < want {
                let (id, ver) = run.cands[run.idx];
                let Some(r) = self.tables[table].rows.get(&id) else {
                    run.idx += 1;
                    continue;
                };
                if let Some(h) = self.holder(sid, r) {
                    match lock {
                        Locking::Skip => {
                            run.idx += 1;
                            continue;
                        }
                        Locking::NoWait => return err("55P03", "could not obtain lock on row"),
                        Locking::Wait => return self.block(sid, h).map(Some),
                    }
                }
                run.idx += 1;
                let Some(v) = self.visible(sid, r).cloned() else { continue };
                if r.ver != ver {
                    self.stats.rechecks += 1;
                    if let Some(f) = &s.filter
                        && !self.truth(f, &Ev { params, row: &v, subs: &subs, aggs: &[], new: None, old: None, vars: &[], now })?
                    {
                        continue;
                    }
                }
                self.tables.get_mut(table).unwrap().rows.get_mut(&id).unwrap().lock = Some(sid);
                run.locked.push(v);
            }
        }
        let rows: Vec<Vec<Val>> = if s.lock.is_some() {
            std::mem::take(&mut run.locked)
        } else {
            run.cands.iter().filter_map(|c| self.visible(sid, &self.tables[table].rows[&c.0]).cloned()).collect()
        };
        let mut out = vec![];
        if !s.aggs.is_empty() {
            let mut aggs = vec![];
            for (kind, arg) in &s.aggs {
                let mut vals = vec![];
                for row in &rows {
                    match arg {
                        None => vals.push(Val::Int(1)),
                        Some(a) => {
                            let v = self.eval(a, &Ev { params, row, subs: &subs, aggs: &[], new: None, old: None, vars: &[], now })?;
                            if v != Val::Null {
                                vals.push(v);
                            }
                        }
                    }
                }
                aggs.push(match kind {
                    AggKind::Count => Val::Int(vals.len() as i64),
                    AggKind::Sum => {
                        if vals.is_empty() { Val::Null } else { Val::Int(vals.iter().map(|v| if let Val::Int(i) = v { *i } else { 0 }).sum()) }
                    }
                    AggKind::BoolOr => if vals.is_empty() { Val::Null } else { Val::Bool(vals.contains(&Val::Bool(true))) },
                    AggKind::BoolAnd => if vals.is_empty() { Val::Null } else { Val::Bool(!vals.contains(&Val::Bool(false))) },
                    AggKind::Min | AggKind::Max => {
                        let ty = &arg.as_ref().unwrap().ty;
                        let mut best = Val::Null;
                        for v in vals {
                            let better = best == Val::Null
                                || compare(ty, &v, &best, &self.lab())? == if *kind == AggKind::Min { Ordering::Less } else { Ordering::Greater };
                            if better {
                                best = v;
                            }
                        }
                        best
                    }
                });
            }
            let mut row = vec![];
            for (_, t) in &s.items {
                if matches!(t.k, K::Col(_)) {
                    return err("42803", "column must appear in the GROUP BY clause or be used in an aggregate function");
                }
                row.push(self.eval(t, &Ev { params, row: NO_ROW, subs: &subs, aggs: &aggs, new: None, old: None, vars: &[], now })?);
            }
            out.push(row);
        } else {
            for row in &rows {
                let ev = Ev { params, row, subs: &subs, aggs: &[], new: None, old: None, vars: &[], now };
                out.push(s.items.iter().map(|(_, t)| self.eval(t, &ev)).collect::<R<Vec<_>>>()?);
            }
        }
        run.done = Some(out.into_iter().skip(offset).take(limit.unwrap_or(usize::MAX)).collect());
        Ok(None)
    }

    #[allow(clippy::too_many_arguments)]
    fn effect(&mut self, sid: u32, n: &str, args: &[T], params: &[Val], vars: &[Val], new: Option<&[Val]>, old: Option<&[Val]>) -> R<Result<Val, Flow>> {
        let now = self.sessions[&sid].tx_now;
        let a = args
            .iter()
            .map(|t| self.eval(t, &Ev { params, row: NO_ROW, subs: &[], aggs: &[], new, old, vars, now }))
            .collect::<R<Vec<_>>>()?;
        if n == "pg_notify" {
            let (Val::Str(ch), p) = (&a[0], &a[1]) else { return err("22023", "channel name cannot be empty") };
            let p = match p {
                Val::Str(s) => s.clone(),
                _ => String::new(),
            };
            if ch.is_empty() || ch.len() >= 64 {
                return err("22023", "invalid channel name");
            }
            if p.len() >= 8000 {
                return err("22023", "payload string too long");
            }
            let e = (ch.clone(), p);
            let s = self.s(sid);
            if !s.notifies.contains(&e) {
                s.notifies.push(e);
            }
            return Ok(Ok(Val::Void));
        }
        let Val::Int(key) = a[0] else { return Ok(Ok(Val::Null)) };
        let xact = n.contains("xact");
        if n == "pg_advisory_unlock" {
            return Ok(Ok(Val::Bool(match self.advisory.get_mut(&key) {
                Some(x) if x.0 == sid && x.2 > 0 => {
                    x.2 -= 1;
                    if x.1 + x.2 == 0 {
                        self.advisory.remove(&key);
                    }
                    true
                }
                _ => false,
            })));
        }
        let held = self.advisory.get(&key).map(|x| x.0);
        let tries = n.contains("try");
        match held {
            Some(h) if h != sid => {
                if tries {
                    return Ok(Ok(Val::Bool(false)));
                }
                return Ok(Err(self.block(sid, h)?));
            }
            _ => {
                let x = self.advisory.entry(key).or_insert((sid, 0, 0));
                if xact {
                    x.1 += 1;
                } else {
                    x.2 += 1;
                }
            }
        }
        Ok(Ok(if tries { Val::Bool(true) } else { Val::Void }))
    }

    // ---- statements

    fn with_defaults(&self, cols: &[Col], i: usize, seq: &mut i64, now: i64) -> R<Val> {
        if cols[i].serial {
            *seq += 1;
            return Ok(Val::Int(*seq));
        }
        match &cols[i].default {
            None => Ok(Val::Null),
            Some(d) => self.eval(d, &Ev { params: &[], row: NO_ROW, subs: &[], aggs: &[], new: None, old: None, vars: &[], now }),
        }
    }
    fn check_row(&self, table: &str, cols: &[Col], row: &[Val]) -> R<()> {
        for (c, v) in cols.iter().zip(row) {
            if c.not_null && *v == Val::Null {
                return err("23502", format!("null value in column \"{}\" of relation \"{table}\" violates not-null constraint", c.name));
            }
        }
        Ok(())
    }
    fn fire(&mut self, sid: u32, table: &str, fired: Vec<(Option<Vec<Val>>, Option<Vec<Val>>)>) -> R<()> {
        let mut ts = self.tables[table].triggers.clone();
        ts.sort_by(|a, b| a.name.cmp(&b.name));
        let now = self.sessions[&sid].tx_now;
        for (old, new) in fired {
            for t in &ts {
                let hit = match (&old, &new) {
                    (None, Some(_)) => t.insert,
                    (Some(_), Some(_)) => t.update,
                    _ => t.delete,
                };
                if !hit {
                    continue;
                }
                let (o, n) = (old.as_deref(), new.as_deref());
                if let Some(w) = &t.when
                    && !self.truth(w, &Ev { params: &[], row: NO_ROW, subs: &[], aggs: &[], new: n, old: o, vars: &[], now })?
                {
                    continue;
                }
                let mut vars = vec![];
                for (_, d) in &t.f.vars {
                    vars.push(match d {
                        None => Val::Null,
                        Some(d) => self.eval(d, &Ev { params: &[], row: NO_ROW, subs: &[], aggs: &[], new: n, old: o, vars: &vars, now })?,
                    });
                }
                self.pl(sid, &t.f.body, &mut vars, n, o, now)?;
            }
        }
        Ok(())
    }
    /// True: returned.
    fn pl(&mut self, sid: u32, body: &[CPl], vars: &mut Vec<Val>, new: Option<&[Val]>, old: Option<&[Val]>, now: i64) -> R<bool> {
        for s in body {
            match s {
                CPl::Null => {}
                CPl::Return => return Ok(true),
                CPl::Assign(i, t) => {
                    let v = self.eval(t, &Ev { params: &[], row: NO_ROW, subs: &[], aggs: &[], new, old, vars, now })?;
                    vars[*i] = v;
                }
                CPl::Perform(t) => match &t.k {
                    K::Effect(n, args) => {
                        if self.effect(sid, n, args, &[], &vars.clone(), new, old)?.is_err() {
                            return unsupported("blocking inside a trigger");
                        }
                    }
                    _ => {
                        self.eval(t, &Ev { params: &[], row: NO_ROW, subs: &[], aggs: &[], new, old, vars, now })?;
                    }
                },
                CPl::If(arms, els) => {
                    let mut taken = None;
                    for (c, b) in arms {
                        if self.truth(c, &Ev { params: &[], row: NO_ROW, subs: &[], aggs: &[], new, old, vars, now })? {
                            taken = Some(b);
                            break;
                        }
                    }
                    if self.pl(sid, taken.unwrap_or(els), vars, new, old, now)? {
                        return Ok(true);
                    }
                }
            }
        }
        Ok(false)
    }

    /// Executes (or goes on executing) a statement in the session's transaction.
    pub fn step(&mut self, sid: u32, p: &Prepared, run: &mut Run) -> R<Flow> {
        self.s(sid).waits_for = None;
        let now = self.sessions[&sid].tx_now;
        let kind = match &p.stmt {
            AStmt::Select(_) => "select",
            AStmt::Insert { .. } => "insert",
            AStmt::Update { .. } => "update",
            AStmt::Delete { .. } => "delete",
            AStmt::Other(_) => "other",
            AStmt::Catalog(_) => "catalog",
        };
        let done = |rows: Vec<Vec<Val>>, tag: String| Ok(Flow::Done(Out { rows, tag }));
        let r = match &p.stmt {
            AStmt::Select(s) => match self.step_select(sid, s, &run.params, &mut run.sel)? {
                Some(f) => return Ok(f),
                None => {
                    let rows = run.sel.done.take().unwrap();
                    let tag = format!("SELECT {}", rows.len());
                    done(rows, tag)
                }
            },
            AStmt::Catalog(k) => {
                let rows = self.catalog(*k, &run.params[0])?;
                let tag = format!("SELECT {}", rows.len());
                done(rows, tag)
            }
            AStmt::Insert { table, targets, rows, do_nothing, ret } => {
                let cols = self.tables[table].cols.clone();
                let mut out = vec![];
                let mut fired = vec![];
                let mut n = 0;
                for r in rows {
                    let mut row = vec![];
                    let mut seq = self.tables[table].seq;
                    for i in 0..cols.len() {
                        let given = targets.iter().position(|t| *t == i).and_then(|k| r.get(k)).and_then(|e| e.as_ref());
                        row.push(match given {
                            Some(t) => self.eval(t, &Ev { params: &run.params, row: NO_ROW, subs: &[], aggs: &[], new: None, old: None, vars: &[], now })?,
                            None => self.with_defaults(&cols, i, &mut seq, now)?,
                        });
                    }
                    // sequences are not transactional
                    self.tables.get_mut(table).unwrap().seq = seq;
                    self.check_row(table, &cols, &row)?;
                    if let Some(k) = cols.iter().position(|c| c.primary) {
                        let dup = self.tables[table].rows.values().any(|x| {
                            x.committed.as_ref().is_some_and(|c| c[k] == row[k])
                                || x.pending.as_ref().is_some_and(|p| p.1.as_ref().is_some_and(|c| c[k] == row[k]))
                        });
                        if dup {
                            if *do_nothing {
                                continue;
                            }
                            return err("23505", "duplicate key value violates unique constraint");
                        }
                    }
                    self.ver += 1;
                    let ver = self.ver;
                    let t = self.tables.get_mut(table).unwrap();
                    t.next_row += 1;
                    t.rows.insert(t.next_row, RowState { committed: None, pending: Some((sid, Some(row.clone()))), lock: Some(sid), ver });
                    n += 1;
                    let ev = Ev { params: &run.params, row: &row, subs: &[], aggs: &[], new: None, old: None, vars: &[], now };
                    if !ret.is_empty() {
                        out.push(ret.iter().map(|(_, t)| self.eval(t, &ev)).collect::<R<Vec<_>>>()?);
                    }
                    fired.push((None, Some(row)));
                }
                self.fire(sid, table, fired)?;
                done(out, format!("INSERT 0 {n}"))
            }
            AStmt::Update { table, filter, ret, subs, .. } | AStmt::Delete { table, filter, ret, subs } => {
                let set = match &p.stmt {
                    AStmt::Update { set, .. } => Some(set),
                    _ => None,
                };
                if run.subs.len() != subs.len() {
                    run.subs = subs.iter().map(|_| SelRun::default()).collect();
                }
                for (a, r) in subs.iter().zip(run.subs.iter_mut()) {
                    if let Some(f) = self.step_select(sid, a, &run.params, r)? {
                        return Ok(f);
                    }
                }
                let sub: Vec<&[Vec<Val>]> = run.subs.iter().map(|r| r.done.as_deref().unwrap()).collect();
                if !run.started {
                    run.cands = self.scan(sid, table, filter.as_ref(), &run.params, &sub, now)?;
                    run.started = true;
                    if !run.cands.is_empty() && self.pause() {
                        return Ok(Flow::Pause);
                    }
                }
                let cols = self.tables[table].cols.clone();
                while run.idx < run.cands.len() {
                    let (id, ver) = run.cands[run.idx];
                    let Some(r) = self.tables[table].rows.get(&id) else {
                        run.idx += 1;
                        continue;
                    };
                    if let Some(h) = self.holder(sid, r) {
                        return self.block(sid, h);
                    }
                    run.idx += 1;
                    let Some(old) = self.visible(sid, r).cloned() else { continue };
                    if r.ver != ver {
                        self.stats.rechecks += 1;
                        if let Some(f) = filter
                            && !self.truth(f, &Ev { params: &run.params, row: &old, subs: &sub, aggs: &[], new: None, old: None, vars: &[], now })?
                        {
                            continue;
                        }
                    }
                    let new = match set {
                        None => None,
                        Some(set) => {
                            let mut new = old.clone();
                            let mut seq = self.tables[table].seq;
                            for (i, t) in set {
                                new[*i] = match t {
                                    Some(t) => self.eval(t, &Ev { params: &run.params, row: &old, subs: &sub, aggs: &[], new: None, old: None, vars: &[], now })?,
                                    None => self.with_defaults(&cols, *i, &mut seq, now)?,
                                };
                            }
                            self.check_row(table, &cols, &new)?;
                            Some(new)
                        }
                    };
                    if !ret.is_empty() {
                        let ev = Ev { params: &run.params, row: new.as_ref().unwrap_or(&old), subs: &sub, aggs: &[], new: None, old: None, vars: &[], now };
                        run.ret.push(ret.iter().map(|(_, t)| self.eval(t, &ev)).collect::<R<Vec<_>>>()?);
                    }
                    run.count += 1;
                    let st = self.tables.get_mut(table).unwrap().rows.get_mut(&id).unwrap();
                    st.lock = Some(sid);
                    st.pending = Some((sid, new.clone()));
                    run.fired.push((Some(old), new));
                }
                let fired = std::mem::take(&mut run.fired);
                self.fire(sid, table, fired)?;
                let tag = format!("{} {}", if set.is_some() { "UPDATE" } else { "DELETE" }, run.count);
                done(std::mem::take(&mut run.ret), tag)
            }
            AStmt::Other(s) => {
                let tag = self.other(sid, s)?;
                done(vec![], tag.into())
            }
        };
        *self.stats.statements.entry(kind).or_default() += 1;
        r
    }

    fn catalog(&self, k: u8, arg: &Val) -> R<Vec<Vec<Val>>> {
        let by_name = |n: &str| -> R<u32> {
            let n = n.trim_matches('"');
            match self.enum_by_name(n) {
                Some(o) => Ok(o),
                None => match n.strip_suffix("[]").or(n.strip_prefix('_')).and_then(|n| self.enum_by_name(n)) {
                    Some(o) => Ok(o - 1),
                    None => err("42704", format!("type \"{n}\" does not exist")),
                },
            }
        };
        Ok(match (k, arg) {
            (0, Val::Int(o)) => {
                let o = *o as u32;
                if let Some(e) = self.enums.iter().find(|e| e.1 == o) {
                    vec![vec![Val::Str(e.0.clone()), Val::Str("e".into()), Val::Str("E".into()), Val::Int(0), Val::Int(0), Val::Int(0)]]
                } else if let Some(e) = self.enums.iter().find(|e| e.1 == o + 1) {
                    vec![vec![Val::Str(format!("{}[]", e.0)), Val::Str("b".into()), Val::Str("A".into()), Val::Int(0), Val::Int(e.1.into()), Val::Int(0)]]
                } else {
                    vec![]
                }
            }
            (1, Val::Int(o)) => self.labels(*o as u32).into_iter().map(|l| vec![Val::Str(l)]).collect(),
            (2, Val::Str(n)) => vec![vec![Val::Int(by_name(n)?.into())]],
            (3, Val::Str(n)) => {
                let o = by_name(n)?;
                vec![vec![Val::Int(o.into()), Val::Int((o - 1).into())]]
            }
            _ => return unsupported("catalog query"),
        })
    }

    fn compile_pl(&self, f: &PlFn, table: &Table) -> R<CFn> {
        let mut sc = Scope::new(self, &[]);
        sc.trigger = Some(table);
        let mut vars = vec![];
        for (n, t, d) in &f.vars {
            let ty = sc.ty(t)?;
            let d = match d {
                None => None,
                Some(d) => {
                    let x = sc.expr(d)?;
                    Some(sc.coerce(x, &ty, Ctx::Assign)?)
                }
            };
            sc.vars.push((n.clone(), ty.clone()));
            vars.push((ty, d));
        }
        fn go(sc: &mut Scope, b: &[Pl]) -> R<Vec<CPl>> {
            let mut out = vec![];
            for s in b {
                out.push(match s {
                    Pl::Null => CPl::Null,
                    Pl::Return(_) => CPl::Return,
                    Pl::Perform(e) => CPl::Perform(sc.expr(e)?),
                    Pl::Assign(n, e) => {
                        let Some(i) = sc.vars.iter().position(|v| v.0 == *n) else { return unsupported(format!("assignment to {n}")) };
                        let ty = sc.vars[i].1.clone();
                        let x = sc.expr(e)?;
                        // assignments convert through text if need be
                        let x = match sc.coerce(x.clone(), &ty, Ctx::Assign) {
                            Ok(x) => x,
                            Err(_) => sc.coerce(x, &ty, Ctx::Explicit)?,
                        };
                        CPl::Assign(i, x)
                    }
                    Pl::If(arms, els) => {
                        let mut a = vec![];
                        for (c, b) in arms {
                            a.push((sc.boolean(c)?, go(sc, b)?));
                        }
                        CPl::If(a, go(sc, els)?)
                    }
                });
            }
            Ok(out)
        }
        let body = go(&mut sc, &f.body)?;
        if !sc.subs.is_empty() {
            return unsupported("subqueries in functions");
        }
        Ok(CFn { vars, body })
    }

    fn other(&mut self, sid: u32, s: &Stmt) -> R<&'static str> {
        Ok(match s {
            Stmt::Begin | Stmt::Commit | Stmt::Rollback => return unsupported("transaction control in a prepared statement"),
            Stmt::Empty => "",
            Stmt::Nothing(t) => t,
            Stmt::Listen(c) => {
                self.s(sid).listens.push((Some(c.clone()), true));
                "LISTEN"
            }
            Stmt::Unlisten(c) => {
                self.s(sid).listens.push((c.clone(), false));
                "UNLISTEN"
            }
            Stmt::CreateType(n, labels) => {
                if self.enum_by_name(n).is_some() {
                    return err("42710", format!("type \"{n}\" already exists"));
                }
                let oid = ENUM_BASE + 1 + 2 * self.enums.len() as u32;
                self.enums.push((n.clone(), oid, labels.clone()));
                "CREATE TYPE"
            }
            Stmt::CreateTable { name, if_not_exists, cols } => {
                if self.tables.contains_key(name) {
                    if *if_not_exists {
                        return Ok("CREATE TABLE");
                    }
                    return err("42P07", format!("relation \"{name}\" already exists"));
                }
                let mut t = Table::default();
                for c in cols {
                    let mut sc = Scope::new(self, &[]);
                    let ty = sc.ty(&c.ty)?;
                    let default = match &c.default {
                        None => None,
                        Some(d) => {
                            let x = sc.expr(d)?;
                            Some(sc.coerce(x, &ty, Ctx::Assign)?)
                        }
                    };
                    t.cols.push(Col { name: c.name.clone(), ty, not_null: c.not_null, default, serial: c.serial, primary: c.primary });
                }
                self.tables.insert(name.clone(), t);
                "CREATE TABLE"
            }
            Stmt::CreateIndex { name, if_not_exists, table } => {
                if !self.tables.contains_key(table) {
                    return err("42P01", format!("relation \"{table}\" does not exist"));
                }
                if !self.indexes.insert(name.clone()) && !if_not_exists {
                    return err("42P07", format!("relation \"{name}\" already exists"));
                }
                "CREATE INDEX"
            }
            Stmt::CreateFunction { name, replace, body } => {
                if self.functions.contains_key(name) && !replace {
                    return err("42723", format!("function {name} already exists with same argument types"));
                }
                let f = Parser::new(body)?.plfn()?;
                self.functions.insert(name.clone(), f);
                "CREATE FUNCTION"
            }
            Stmt::CreateTrigger { name, insert, update, delete, table, when, func } => {
                let Some(f) = self.functions.get(func).cloned() else {
                    return err("42883", format!("function {func}() does not exist"));
                };
                let Some(t) = self.tables.get(table) else {
                    return err("42P01", format!("relation \"{table}\" does not exist"));
                };
                if t.triggers.iter().any(|x| x.name == *name) {
                    return err("42710", format!("trigger \"{name}\" for relation \"{table}\" already exists"));
                }
                let when = match when {
                    None => None,
                    Some(w) => {
                        let mut sc = Scope::new(self, &[]);
                        sc.trigger = Some(t);
                        Some(sc.boolean(w)?)
                    }
                };
                let f = self.compile_pl(&f, t)?;
                let tr = Trigger { name: name.clone(), insert: *insert, update: *update, delete: *delete, when, f };
                self.tables.get_mut(table).unwrap().triggers.push(tr);
                "CREATE TRIGGER"
            }
            Stmt::Do(body) => {
                let mut p = Parser::new(body)?;
                p.need_kw("begin")?;
                let mut r = Ok("DO");
                let mut stmts = vec![];
                while !p.is_kw("exception") && !p.is_kw("end") {
                    stmts.push(p.stmt()?);
                    p.need(";")?;
                }
                let mut handled = vec![];
                if p.kw("exception") {
                    while p.kw("when") {
                        loop {
                            handled.push(p.ident()?);
                            if !p.kw("or") {
                                break;
                            }
                        }
                        p.need_kw("then")?;
                        if !p.kw("null") {
                            return unsupported("exception handler");
                        }
                        p.need(";")?;
                    }
                }
                p.need_kw("end")?;
                for s in &stmts {
                    if let Err(e) = self.other(sid, s) {
                        let name = match e.code {
                            "42710" => "duplicate_object",
                            "42P07" => "duplicate_table",
                            _ => "?",
                        };
                        if !handled.iter().any(|h| h == name || h == "others") {
                            r = Err(e);
                        }
                        break;
                    }
                }
                return r;
            }
            _ => return unsupported("statement"),
        })
    }

    // ---- transactions

    pub fn ensure_tx(&mut self, sid: u32) {
        let now = self.now;
        let s = self.s(sid);
        if s.tx == Tx::None {
            s.tx = Tx::Implicit;
            s.tx_now = now;
        }
    }
    pub fn begin(&mut self, sid: u32) {
        let now = self.now;
        let s = self.s(sid);
        if s.tx == Tx::None {
            s.tx_now = now;
        }
        s.tx = Tx::Explicit;
    }
    pub fn commit(&mut self, sid: u32) {
        for (name, t) in self.tables.iter_mut() {
            let mut gone = vec![];
            if self.watch.as_ref() == Some(name) {
                for (id, r) in t.rows.iter() {
                    if let Some((s, new)) = &r.pending
                        && *s == sid
                    {
                        let others = t
                            .rows
                            .iter()
                            .filter(|(i, o)| !self.watch_alone && *i != id && o.pending.is_none() && o.lock.is_none())
                            .filter_map(|(_, o)| o.committed.clone())
                            .collect();
                        self.changes.push(Change { sid, at: self.now, old: r.committed.clone(), new: new.clone(), others });
                    }
                }
            }
            for (id, r) in t.rows.iter_mut() {
                if r.pending.as_ref().is_some_and(|p| p.0 == sid) {
                    r.committed = r.pending.take().unwrap().1;
                    self.ver += 1;
                    r.ver = self.ver;
                    if r.committed.is_none() {
                        gone.push(*id);
                    }
                }
                if r.lock == Some(sid) {
                    r.lock = None;
                }
            }
            for id in gone {
                t.rows.remove(&id);
            }
        }
        let s = self.s(sid);
        let notes = std::mem::take(&mut s.notifies);
        for (c, on) in std::mem::take(&mut s.listens) {
            match (c, on) {
                (Some(c), true) => {
                    s.listening.insert(c);
                }
                (Some(c), false) => {
                    s.listening.remove(&c);
                }
                (None, _) => s.listening.clear(),
            }
        }
        for (c, p) in notes {
            for s in self.sessions.values_mut() {
                if s.listening.contains(&c) {
                    s.inbox.push((sid, c.clone(), p.clone()));
                    self.stats.notifications += 1;
                }
            }
        }
        self.end_tx(sid);
    }
    pub fn rollback(&mut self, sid: u32) {
        for t in self.tables.values_mut() {
            let mut gone = vec![];
            for (id, r) in t.rows.iter_mut() {
                if r.pending.as_ref().is_some_and(|p| p.0 == sid) {
                    r.pending = None;
                    if r.committed.is_none() {
                        gone.push(*id);
                    }
                }
                if r.lock == Some(sid) {
                    r.lock = None;
                }
            }
            for id in gone {
                t.rows.remove(&id);
            }
        }
        let s = self.s(sid);
        s.notifies.clear();
        s.listens.clear();
        self.end_tx(sid);
    }
    fn end_tx(&mut self, sid: u32) {
        let s = self.s(sid);
        s.tx = Tx::None;
        s.waits_for = None;
        self.advisory.retain(|_, a| {
            if a.0 == sid {
                a.1 = 0;
            }
            a.1 + a.2 > 0
        });
    }

    /// Committed rows of a table.
    pub fn committed(&self, table: &str) -> Vec<Vec<Val>> {
        self.tables.get(table).map(|t| t.rows.values().filter_map(|r| r.committed.clone()).collect()).unwrap_or_default()
    }
}

fn like(s: &[char], p: &[char]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some(('%', rest)) => (0..=s.len()).any(|i| like(&s[i..], rest)),
        Some(('_', rest)) => !s.is_empty() && like(&s[1..], rest),
        Some(('\\', rest)) if !rest.is_empty() => s.first() == rest.first() && like(&s[1..], &rest[1..]),
        Some((c, rest)) => s.first() == Some(c) && like(&s[1..], rest),
    }
}
