//! From syntax trees to typed statements, with PostgreSQL's rules for implicit conversions and
//! operators as far as they are needed here.
use crate::db::{Col, Db, Table};
use crate::sql::*;
use crate::val::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum AggKind {
    Count,
    Min,
    Max,
    Sum,
    BoolOr,
    BoolAnd,
}

#[derive(Debug, Clone, PartialEq)]
pub enum K {
    Const(Val),
    Param(usize),
    Col(usize),
    New(usize),
    Old(usize),
    Var(usize),
    Not(Box<T>),
    And(Vec<T>),
    Or(Vec<T>),
    /// operator, operand type
    Cmp(String, Ty, Box<T>, Box<T>),
    Int(String, Box<T>, Box<T>),
    TsMinusTs(Box<T>, Box<T>),
    /// sign
    TsInterval(i64, Box<T>, Box<T>),
    IntervalInterval(i64, Box<T>, Box<T>),
    IntervalTimes(Box<T>, Box<T>),
    Neg(Box<T>),
    Contains(Box<T>, Box<T>),
    Overlaps(Box<T>, Box<T>),
    JsonContains(Box<T>, Box<T>),
    Concat(Box<T>, Box<T>),
    JsonGet(Box<T>, Box<T>, bool),
    IsNull(Box<T>, bool),
    IsBool(Box<T>, bool, bool),
    IsDistinct(Ty, Box<T>, Box<T>, bool),
    InList(Ty, Box<T>, Vec<T>, bool),
    InSub(Ty, Box<T>, usize, bool),
    Quant(String, Ty, Box<T>, Box<T>, bool),
    Case(Vec<(T, T)>, Option<Box<T>>),
    Coalesce(Vec<T>),
    Extreme(bool, Vec<T>),
    Coerce(Box<T>),
    Array(Vec<T>),
    Exists(usize),
    Scalar(usize),
    Agg(usize),
    Now,
    ClockNow,
    TimezoneOf(Box<T>, Box<T>),
    ArrayAppend(Box<T>, Box<T>),
    ArrayRemove(Box<T>, Box<T>),
    Cardinality(Box<T>),
    BuildObject(Vec<T>, bool),
    BuildArray(Vec<T>, bool),
    ToJson(Box<T>),
    Lower(Box<T>, bool),
    Like(Box<T>, Box<T>, bool),
    DateTrunc(Box<T>, Box<T>),
    Abs(Box<T>),
    /// name, arguments; allowed only as the whole item of a SELECT or in PERFORM
    Effect(String, Vec<T>),
    CurrentDatabase,
}

#[derive(Debug, Clone, PartialEq)]
pub struct T {
    pub ty: Ty,
    pub k: K,
}

#[derive(Debug, Clone, Default)]
pub struct ASelect {
    pub table: Option<String>,
    pub items: Vec<(String, T)>,
    pub filter: Option<T>,
    pub order: Vec<(T, bool, bool)>,
    pub limit: Option<T>,
    pub offset: Option<T>,
    pub lock: Option<Locking>,
    pub subs: Vec<ASelect>,
    pub aggs: Vec<(AggKind, Option<T>)>,
}

#[derive(Debug, Clone)]
pub enum AStmt {
    Select(ASelect),
    Insert { table: String, targets: Vec<usize>, rows: Vec<Vec<Option<T>>>, do_nothing: bool, ret: Vec<(String, T)> },
    Update { table: String, set: Vec<(usize, Option<T>)>, filter: Option<T>, ret: Vec<(String, T)>, subs: Vec<ASelect> },
    Delete { table: String, filter: Option<T>, ret: Vec<(String, T)>, subs: Vec<ASelect> },
    Other(Stmt),
    Catalog(u8),
}

impl AStmt {
    /// Columns of the result, if it returns rows.
    pub fn columns(&self) -> Option<Vec<(String, Ty)>> {
        let of = |v: &Vec<(String, T)>| v.iter().map(|(n, t)| (n.clone(), if t.ty == Ty::Unknown { Ty::Text } else { t.ty.clone() })).collect::<Vec<_>>();
        match self {
            AStmt::Select(s) => Some(of(&s.items)),
            AStmt::Insert { ret, .. } | AStmt::Update { ret, .. } | AStmt::Delete { ret, .. } => (!ret.is_empty()).then(|| of(ret)),
            AStmt::Other(_) => None,
            AStmt::Catalog(k) => Some(match k {
                0 => vec![
                    ("oid".into(), Ty::Text),
                    ("typtype".into(), Ty::Char),
                    ("typcategory".into(), Ty::Char),
                    ("typrelid".into(), Ty::Oid),
                    ("typelem".into(), Ty::Oid),
                    ("typbasetype".into(), Ty::Oid),
                ],
                1 => vec![("enumlabel".into(), Ty::Name)],
                2 => vec![("oid".into(), Ty::Oid)],
                _ => vec![("oid".into(), Ty::Oid), ("typarray".into(), Ty::Oid)],
            }),
        }
    }
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum Ctx {
    Implicit,
    Assign,
    Explicit,
}

pub struct Scope<'a> {
    pub db: &'a Db,
    pub params: &'a [Ty],
    pub table: Option<(&'a Table, Vec<String>)>,
    /// Trigger row: NEW and OLD.
    pub trigger: Option<&'a Table>,
    pub vars: Vec<(String, Ty)>,
    pub subs: Vec<ASelect>,
    pub aggs: Option<Vec<(AggKind, Option<T>)>>,
}

fn c(ty: Ty, v: Val) -> T {
    T { ty, k: K::Const(v) }
}
fn b(t: T) -> Box<T> {
    Box::new(t)
}

fn name_of(e: &Expr) -> String {
    match e {
        Expr::Col(_, n) => n.clone(),
        Expr::Func(n, ..) => n.clone(),
        Expr::Cast(e, t) => match &**e {
            Expr::Col(..) | Expr::Func(..) => name_of(e),
            _ => t.name.clone(),
        },
        Expr::Case(..) => "case".into(),
        Expr::Exists(_) => "exists".into(),
        Expr::Array(_) => "array".into(),
        Expr::Sub(s) => s.items.first().map_or("?column?".into(), |(e, a)| a.clone().unwrap_or_else(|| name_of(e))),
        _ => "?column?".into(),
    }
}

fn cmp_type(l: &Ty, r: &Ty) -> Option<Ty> {
    if l == r {
        return match l {
            Ty::Json | Ty::Void => None,
            _ => Some(l.clone()),
        };
    }
    if l.integer() && r.integer() || (l.integer() && *r == Ty::Oid) || (*l == Ty::Oid && r.integer()) {
        return Some(Ty::Int8);
    }
    if l.textual() && r.textual() {
        return Some(Ty::Text);
    }
    if l.temporal() && r.temporal() {
        return Some(Ty::Timestamptz);
    }
    None
}

impl<'a> Scope<'a> {
    pub fn new(db: &'a Db, params: &'a [Ty]) -> Self {
        Self { db, params, table: None, trigger: None, vars: vec![], subs: vec![], aggs: None }
    }
    fn no_op<V>(&self, l: &Ty, op: &str, r: &Ty) -> R<V> {
        err("42883", format!("operator does not exist: {l:?} {op} {r:?}"))
    }
    fn table_scope(&mut self, name: &str, alias: Option<&String>) -> R<()> {
        let Some(t) = self.db.tables.get(name) else {
            if name.starts_with("pg_catalog.") || name.starts_with("information_schema") {
                return unsupported(format!("catalog table {name}"));
            }
            return err("42P01", format!("relation \"{name}\" does not exist"));
        };
        self.table = Some((t, vec![alias.cloned().unwrap_or_else(|| name.to_owned())]));
        Ok(())
    }
    pub fn ty(&self, t: &TypeName) -> R<Ty> {
        let base = match t.name.as_str() {
            "bool" => Ty::Bool,
            "int2" => Ty::Int2,
            "int4" => Ty::Int4,
            "int8" => Ty::Int8,
            "text" => Ty::Text,
            "varchar" => Ty::Varchar,
            "name" => Ty::Name,
            "oid" => Ty::Oid,
            "json" => Ty::Json,
            "jsonb" => Ty::Jsonb,
            "timestamptz" => Ty::Timestamptz,
            "timestamp" => Ty::Timestamp,
            "interval" => Ty::Interval,
            "bytea" => Ty::Bytea,
            "numeric" | "float8" | "float4" | "real" | "uuid" | "date" | "time" | "timetz" | "bpchar" | "char" | "regtype" | "regclass" | "xml" | "inet" | "record" => {
                return unsupported(format!("type {}", t.name));
            }
            n => match self.db.enum_by_name(n) {
                Some(o) => Ty::Enum(o),
                None => return err("42704", format!("type \"{n}\" does not exist")),
            },
        };
        Ok(if t.array { base.array() } else { base })
    }
    pub fn coerce(&self, e: T, to: &Ty, ctx: Ctx) -> R<T> {
        if e.ty == *to {
            return Ok(e);
        }
        if e.ty == Ty::Unknown {
            return match e.k {
                K::Const(Val::Null) => Ok(c(to.clone(), Val::Null)),
                K::Const(Val::Str(s)) => Ok(c(to.clone(), from_text(to, &s, &|o| self.db.labels(o))?)),
                _ => unsupported("value of unknown type"),
            };
        }
        if let (K::Array(v), Ty::Array(el)) = (&e.k, to)
            && (v.is_empty() || ctx == Ctx::Explicit)
        {
            let v = v.iter().map(|x| self.coerce(x.clone(), el, ctx)).collect::<R<_>>()?;
            return Ok(T { ty: to.clone(), k: K::Array(v) });
        }
        let need = self.cast_ctx(&e.ty, to);
        match need {
            Some(n) if n <= ctx => Ok(T { ty: to.clone(), k: K::Coerce(b(e)) }),
            _ if ctx == Ctx::Explicit => err("42846", format!("cannot cast type {:?} to {to:?}", e.ty)),
            _ => err("42804", format!("expression is of type {:?} but {to:?} is needed", e.ty)),
        }
    }
    fn cast_ctx(&self, from: &Ty, to: &Ty) -> Option<Ctx> {
        use Ty::*;
        Some(match (from, to) {
            (a, b) if a == b => Ctx::Implicit,
            (Int2, Int4 | Int8) | (Int4, Int8) | (Int2 | Int4 | Int8, Oid) => Ctx::Implicit,
            (Int8, Int4 | Int2) | (Int4, Int2) | (Oid, Int4 | Int8) => Ctx::Assign,
            (a, b) if a.textual() && b.textual() => Ctx::Implicit,
            (Timestamp, Timestamptz) => Ctx::Implicit,
            (Timestamptz, Timestamp) => Ctx::Assign,
            (Json, Jsonb) | (Jsonb, Json) => Ctx::Assign,
            (Array(a), Array(b)) => return self.cast_ctx(a, b),
            (Bool, Int4) | (Int4, Bool) => Ctx::Explicit,
            (Void, _) | (_, Void) => return None,
            (Array(_), b) if b.textual() => return None,
            (_, b) if b.textual() => Ctx::Assign,
            (a, _) if a.textual() => Ctx::Explicit,
            _ => return None,
        })
    }
    pub fn boolean(&mut self, e: &Expr) -> R<T> {
        let t = self.expr(e)?;
        if t.ty == Ty::Bool {
            return Ok(t);
        }
        if t.ty == Ty::Unknown {
            return self.coerce(t, &Ty::Bool, Ctx::Implicit);
        }
        err("42804", format!("argument must be type boolean, not type {:?}", t.ty))
    }
    /// Both operands in the common type of a comparison.
    fn pair(&self, l: T, op: &str, r: T) -> R<(Ty, T, T)> {
        let (l, r) = match (l.ty == Ty::Unknown, r.ty == Ty::Unknown) {
            (true, true) => (self.coerce(l, &Ty::Text, Ctx::Implicit)?, self.coerce(r, &Ty::Text, Ctx::Implicit)?),
            (true, false) => {
                let t = r.ty.clone();
                (self.coerce(l, &t, Ctx::Implicit)?, r)
            }
            (false, true) => {
                let t = l.ty.clone();
                (l, self.coerce(r, &t, Ctx::Implicit)?)
            }
            _ => (l, r),
        };
        // an empty ARRAY[] takes the other side's type only by an explicit cast
        let Some(t) = cmp_type(&l.ty, &r.ty) else { return self.no_op(&l.ty, op, &r.ty) };
        if t == Ty::Jsonb && !["=", "<>"].contains(&op) {
            return unsupported("order of jsonb values");
        }
        let l = self.coerce(l, &t, Ctx::Implicit)?;
        let r = self.coerce(r, &t, Ctx::Implicit)?;
        Ok((t, l, r))
    }
    /// Common type of CASE branches, COALESCE and the like.
    fn unify(&self, mut v: Vec<T>) -> R<(Ty, Vec<T>)> {
        let mut ty = Ty::Unknown;
        for t in &v {
            if t.ty == Ty::Unknown {
                continue;
            }
            if ty == Ty::Unknown {
                ty = t.ty.clone();
            } else if ty != t.ty {
                if self.cast_ctx(&t.ty, &ty) == Some(Ctx::Implicit) {
                } else if self.cast_ctx(&ty, &t.ty) == Some(Ctx::Implicit) {
                    ty = t.ty.clone();
                } else {
                    return err("42804", format!("types {ty:?} and {:?} cannot be matched", t.ty));
                }
            }
        }
        if ty == Ty::Unknown {
            ty = Ty::Text;
        }
        v = v.into_iter().map(|t| self.coerce(t, &ty, Ctx::Implicit)).collect::<R<_>>()?;
        Ok((ty, v))
    }
    fn sub(&mut self, s: &Select) -> R<(usize, Vec<Ty>)> {
        let mut inner = Scope::new(self.db, self.params);
        let a = match inner.select(s) {
            Err(e) if e.code == "42703" && self.table.is_some() && s.from.is_some() => {
                // might refer to the outer query
                return if self.table.as_ref().is_some_and(|(t, _)| t.cols.iter().any(|c| e.msg.contains(&format!("\"{}\"", c.name)))) {
                    unsupported("correlated subquery")
                } else {
                    Err(e)
                };
            }
            r => r?,
        };
        let tys = a.items.iter().map(|i| i.1.ty.clone()).collect();
        self.subs.push(a);
        Ok((self.subs.len() - 1, tys))
    }
    pub fn expr(&mut self, e: &Expr) -> R<T> {
        Ok(match e {
            Expr::Null => c(Ty::Unknown, Val::Null),
            Expr::Bool(x) => c(Ty::Bool, Val::Bool(*x)),
            Expr::Str(s) => c(Ty::Unknown, Val::Str(s.clone())),
            Expr::Num(n) => match n.parse::<i64>() {
                Ok(i) if i <= i32::MAX as i64 => c(Ty::Int4, Val::Int(i)),
                Ok(i) => c(Ty::Int8, Val::Int(i)),
                Err(_) => return unsupported("numeric literals"),
            },
            Expr::Param(n) => match self.params.get(*n - 1) {
                Some(Ty::Unknown) => return unsupported("parameter without a type"),
                Some(t) => T { ty: t.clone(), k: K::Param(*n - 1) },
                None => return err("42P02", format!("there is no parameter ${n}")),
            },
            Expr::Col(q, n) => return self.col(q.as_deref(), n),
            Expr::Star => return unsupported("* in an expression"),
            Expr::Neg(x) => {
                let t = self.expr(x)?;
                if !t.ty.integer() && t.ty != Ty::Interval {
                    return unsupported("negation");
                }
                T { ty: t.ty.clone(), k: K::Neg(b(t)) }
            }
            Expr::Not(x) => T { ty: Ty::Bool, k: K::Not(b(self.boolean(x)?)) },
            Expr::And(v) => T { ty: Ty::Bool, k: K::And(v.iter().map(|x| self.boolean(x)).collect::<R<_>>()?) },
            Expr::Or(v) => T { ty: Ty::Bool, k: K::Or(v.iter().map(|x| self.boolean(x)).collect::<R<_>>()?) },
            Expr::Bin(o, l, r) => {
                let l = self.expr(l)?;
                let r = self.expr(r)?;
                return self.bin(o, l, r);
            }
            Expr::IsNull(x, n) => {
                let t = self.expr(x)?;
                T { ty: Ty::Bool, k: K::IsNull(b(t), *n) }
            }
            Expr::IsBool(x, v, n) => T { ty: Ty::Bool, k: K::IsBool(b(self.boolean(x)?), *v, *n) },
            Expr::IsDistinct(l, r, n) => {
                let l = self.expr(l)?;
                let r = self.expr(r)?;
                let (t, l, r) = self.pair(l, "=", r)?;
                T { ty: Ty::Bool, k: K::IsDistinct(t, b(l), b(r), *n) }
            }
            Expr::InList(x, v, n) => {
                let x = self.expr(x)?;
                let v = v.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?;
                let mut out = vec![];
                let mut ty = Ty::Unknown;
                for r in v {
                    let (t, _, r) = self.pair(x.clone(), "=", r)?;
                    if ty != Ty::Unknown && ty != t {
                        return unsupported("IN list of mixed types");
                    }
                    ty = t;
                    out.push(r);
                }
                let x = self.coerce(x, &ty, Ctx::Implicit)?;
                T { ty: Ty::Bool, k: K::InList(ty, b(x), out, *n) }
            }
            Expr::InSub(x, s, n) => {
                let x = self.expr(x)?;
                let (i, tys) = self.sub(s)?;
                if tys.len() != 1 {
                    return err("42601", "subquery has too many columns");
                }
                let probe = T { ty: tys[0].clone(), k: K::Const(Val::Null) };
                let (t, x, _) = self.pair(x, "=", probe)?;
                T { ty: Ty::Bool, k: K::InSub(t, b(x), i, *n) }
            }
            Expr::Quant(l, o, r, all) => {
                let l = self.expr(l)?;
                let mut r = self.expr(r)?;
                if r.ty == Ty::Unknown {
                    let t = l.ty.clone().array();
                    r = self.coerce(r, &t, Ctx::Implicit)?;
                }
                let Ty::Array(el) = r.ty.clone() else {
                    return err("42809", "op ANY/ALL (array) requires array on right side");
                };
                if !["=", "<>", "<", ">", "<=", ">="].contains(&o.as_str()) {
                    return unsupported("quantified operator");
                }
                let l = if l.ty == Ty::Unknown { self.coerce(l, &el, Ctx::Implicit)? } else { l };
                let Some(t) = cmp_type(&l.ty, &el) else { return self.no_op(&l.ty, o, &el) };
                T { ty: Ty::Bool, k: K::Quant(o.clone(), t, b(l), b(r), *all) }
            }
            Expr::Between(x, lo, hi, n) => {
                let x = self.expr(x)?;
                let lo = self.expr(lo)?;
                let hi = self.expr(hi)?;
                let a = self.bin(">=", x.clone(), lo)?;
                let z = self.bin("<=", x, hi)?;
                let t = T { ty: Ty::Bool, k: K::And(vec![a, z]) };
                if *n { T { ty: Ty::Bool, k: K::Not(b(t)) } } else { t }
            }
            Expr::Case(op, whens, els) => {
                let op = op.as_ref().map(|o| self.expr(o)).transpose()?;
                let mut conds = vec![];
                let mut vals = vec![];
                for (w, v) in whens {
                    conds.push(match &op {
                        None => self.boolean(w)?,
                        Some(o) => {
                            let w = self.expr(w)?;
                            self.bin("=", o.clone(), w)?
                        }
                    });
                    vals.push(self.expr(v)?);
                }
                let has = els.is_some();
                if let Some(e) = els {
                    vals.push(self.expr(e)?);
                }
                let (ty, mut vals) = self.unify(vals)?;
                let e = has.then(|| b(vals.pop().unwrap()));
                T { ty, k: K::Case(conds.into_iter().zip(vals).collect(), e) }
            }
            Expr::Cast(x, t) => {
                let to = self.ty(t)?;
                let x = self.expr(x)?;
                return self.coerce(x, &to, Ctx::Explicit);
            }
            Expr::Array(v) => {
                let v = v.iter().map(|x| self.expr(x)).collect::<R<Vec<_>>>()?;
                let (t, v) = self.unify(v)?;
                T { ty: t.array(), k: K::Array(v) }
            }
            Expr::Exists(s) => {
                let (i, _) = self.sub(s)?;
                T { ty: Ty::Bool, k: K::Exists(i) }
            }
            Expr::Sub(s) => {
                let (i, tys) = self.sub(s)?;
                if tys.len() != 1 {
                    return err("42601", "subquery must return only one column");
                }
                T { ty: tys[0].clone(), k: K::Scalar(i) }
            }
            Expr::Func(n, args, star) => return self.func(n, args, *star),
        })
    }
    fn col(&self, q: Option<&str>, n: &str) -> R<T> {
        if let Some(t) = self.trigger
            && let Some(q @ ("new" | "old")) = q
        {
            return match t.cols.iter().position(|c| c.name == n) {
                Some(i) => Ok(T { ty: t.cols[i].ty.clone(), k: if q == "new" { K::New(i) } else { K::Old(i) } }),
                None => err("42703", format!("record \"{q}\" has no field \"{n}\"")),
            };
        }
        if q.is_none()
            && let Some(i) = self.vars.iter().position(|v| v.0 == n)
        {
            return Ok(T { ty: self.vars[i].1.clone(), k: K::Var(i) });
        }
        if let Some((t, names)) = &self.table {
            if q.is_some_and(|q| !names.iter().any(|x| x == q)) {
                return err("42P01", format!("missing FROM-clause entry for table \"{}\"", q.unwrap()));
            }
            if let Some(i) = t.cols.iter().position(|c| c.name == n) {
                return Ok(T { ty: t.cols[i].ty.clone(), k: K::Col(i) });
            }
            if ["ctid", "xmin", "xmax", "tableoid"].contains(&n) {
                return unsupported("system columns");
            }
        }
        err("42703", format!("column \"{n}\" does not exist"))
    }
    fn bin(&mut self, o: &str, l: T, r: T) -> R<T> {
        let bt = |k| T { ty: Ty::Bool, k };
        Ok(match o {
            "=" | "<>" | "<" | ">" | "<=" | ">=" => {
                let (t, l, r) = self.pair(l, o, r)?;
                bt(K::Cmp(o.to_owned(), t, b(l), b(r)))
            }
            "+" | "-" | "*" | "/" | "%" => {
                let (l, r) = match (l.ty == Ty::Unknown, r.ty == Ty::Unknown) {
                    (true, true) => return unsupported("arithmetic on literals of unknown type"),
                    (true, false) => {
                        let t = if r.ty.integer() { r.ty.clone() } else { return unsupported("arithmetic on a literal of unknown type") };
                        (self.coerce(l, &t, Ctx::Implicit)?, r)
                    }
                    (false, true) => {
                        let t = match (&l.ty, o) {
                            (t, _) if t.integer() => t.clone(),
                            // timestamp - unknown: the same type is preferred; + unknown: interval
                            (Ty::Timestamptz | Ty::Timestamp, "+") => Ty::Interval,
                            (Ty::Timestamptz | Ty::Timestamp, "-") => l.ty.clone(),
                            (Ty::Interval, "+" | "-") => Ty::Interval,
                            _ => return unsupported("arithmetic on a literal of unknown type"),
                        };
                        (l, self.coerce(r, &t, Ctx::Implicit)?)
                    }
                    _ => (l, r),
                };
                if l.ty.integer() && r.ty.integer() {
                    let t = if l.ty == Ty::Int8 || r.ty == Ty::Int8 {
                        Ty::Int8
                    } else if l.ty == Ty::Int4 || r.ty == Ty::Int4 {
                        Ty::Int4
                    } else {
                        Ty::Int2
                    };
                    return Ok(T { ty: t, k: K::Int(o.to_owned(), b(l), b(r)) });
                }
                match (&l.ty, o, &r.ty) {
                    (a, "-", z) if a.temporal() && z.temporal() => T { ty: Ty::Interval, k: K::TsMinusTs(b(l), b(r)) },
                    (a, "+", Ty::Interval) if a.temporal() => T { ty: l.ty.clone(), k: K::TsInterval(1, b(l), b(r)) },
                    (a, "-", Ty::Interval) if a.temporal() => T { ty: l.ty.clone(), k: K::TsInterval(-1, b(l), b(r)) },
                    (Ty::Interval, "+", z) if z.temporal() => T { ty: r.ty.clone(), k: K::TsInterval(1, b(r), b(l)) },
                    (Ty::Interval, "+", Ty::Interval) => T { ty: Ty::Interval, k: K::IntervalInterval(1, b(l), b(r)) },
                    (Ty::Interval, "-", Ty::Interval) => T { ty: Ty::Interval, k: K::IntervalInterval(-1, b(l), b(r)) },
                    (a, "*", Ty::Interval) if a.integer() => T { ty: Ty::Interval, k: K::IntervalTimes(b(r), b(l)) },
                    (Ty::Interval, "*", z) if z.integer() => T { ty: Ty::Interval, k: K::IntervalTimes(b(l), b(r)) },
                    (a, "-", z) if *a == Ty::Jsonb || *z == Ty::Jsonb => return unsupported("jsonb - "),
                    (a, _, z) => return self.no_op(a, o, z),
                }
            }
            "@>" | "<@" | "&&" => {
                let (l, r) = if o == "<@" { (r, l) } else { (l, r) };
                let (l, r) = if l.ty == Ty::Unknown {
                    let t = r.ty.clone();
                    (self.coerce(l, &t, Ctx::Implicit)?, r)
                } else if r.ty == Ty::Unknown {
                    let t = l.ty.clone();
                    let r = self.coerce(r, &t, Ctx::Implicit)?;
                    (l, r)
                } else {
                    (l, r)
                };
                match (&l.ty, &r.ty) {
                    (Ty::Jsonb, Ty::Jsonb) if o != "&&" => bt(K::JsonContains(b(l), b(r))),
                    (Ty::Array(x), Ty::Array(y)) if x == y => bt(if o == "&&" { K::Overlaps(b(l), b(r)) } else { K::Contains(b(l), b(r)) }),
                    (x, y) => return self.no_op(x, o, y),
                }
            }
            "||" => match (&l.ty, &r.ty) {
                (x, y) if x.textual() && (y.textual() || *y == Ty::Unknown) || *x == Ty::Unknown && y.textual() => {
                    let l = self.coerce(l, &Ty::Text, Ctx::Implicit)?;
                    let r = self.coerce(r, &Ty::Text, Ctx::Implicit)?;
                    T { ty: Ty::Text, k: K::Concat(b(l), b(r)) }
                }
                (Ty::Array(x), Ty::Array(y)) if x == y => T { ty: l.ty.clone(), k: K::Concat(b(l), b(r)) },
                (Ty::Array(x), y) if **x == *y => {
                    let t = l.ty.clone();
                    T { ty: t, k: K::ArrayAppend(b(l), b(r)) }
                }
                _ => return unsupported("||"),
            },
            "->" | "->>" => {
                if l.ty != Ty::Jsonb {
                    return unsupported("-> on something else than jsonb");
                }
                let r = if r.ty == Ty::Unknown { self.coerce(r, &Ty::Text, Ctx::Implicit)? } else { r };
                T { ty: if o == "->" { Ty::Jsonb } else { Ty::Text }, k: K::JsonGet(b(l), b(r), o == "->>") }
            }
            _ => return unsupported(format!("operator {o}")),
        })
    }
    fn func(&mut self, n: &str, args: &[Expr], star: bool) -> R<T> {
        if ["count", "min", "max", "sum", "bool_or", "bool_and"].contains(&n) {
            let Some(aggs) = self.aggs.take() else { return err("42803", "aggregate functions are not allowed here") };
            // arguments may not contain aggregates
            let a = if star { None } else { args.first().map(|e| self.expr(e)).transpose()? };
            self.aggs = Some(aggs);
            if a.is_none() && n != "count" {
                return err("42883", format!("function {n}() does not exist"));
            }
            let (kind, ty) = match n {
                "count" => (AggKind::Count, Ty::Int8),
                "min" => (AggKind::Min, a.as_ref().unwrap().ty.clone()),
                "max" => (AggKind::Max, a.as_ref().unwrap().ty.clone()),
                "sum" if a.as_ref().unwrap().ty == Ty::Int4 => (AggKind::Sum, Ty::Int8),
                "bool_or" => (AggKind::BoolOr, Ty::Bool),
                "bool_and" => (AggKind::BoolAnd, Ty::Bool),
                _ => return unsupported(n),
            };
            let aggs = self.aggs.as_mut().unwrap();
            aggs.push((kind, a));
            return Ok(T { ty, k: K::Agg(aggs.len() - 1) });
        }
        let mut v = args.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?;
        let none = |v: &Vec<T>| err::<T>("42883", format!("function {n}({}) does not exist", v.iter().map(|t| format!("{:?}", t.ty)).collect::<Vec<_>>().join(", ")));
        Ok(match (n, v.len()) {
            ("now" | "transaction_timestamp" | "statement_timestamp", 0) => T { ty: Ty::Timestamptz, k: K::Now },
            ("clock_timestamp", 0) => T { ty: Ty::Timestamptz, k: K::ClockNow },
            ("timezone", 2) => {
                let t = v.pop().unwrap();
                let z = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                let ty = match t.ty {
                    Ty::Timestamptz => Ty::Timestamp,
                    Ty::Timestamp => Ty::Timestamptz,
                    _ => return unsupported("timezone of this type"),
                };
                T { ty, k: K::TimezoneOf(b(z), b(t)) }
            }
            ("array_append", 2) | ("array_remove", 2) => {
                let x = v.pop().unwrap();
                let a = v.pop().unwrap();
                let Ty::Array(el) = a.ty.clone() else { return none(&vec![a, x]) };
                let x = self.coerce(x, &el, Ctx::Implicit)?;
                let k = if n == "array_append" { K::ArrayAppend(b(a), b(x)) } else { K::ArrayRemove(b(a), b(x)) };
                T { ty: el.array(), k }
            }
            ("cardinality", 1) if matches!(v[0].ty, Ty::Array(_)) => T { ty: Ty::Int4, k: K::Cardinality(b(v.pop().unwrap())) },
            ("jsonb_build_object" | "json_build_object", k) => {
                if k % 2 == 1 {
                    return err("22023", "argument list must have even number of elements");
                }
                for t in v.iter_mut() {
                    if t.ty == Ty::Unknown {
                        t.ty = Ty::Text;
                    }
                }
                let bin = n == "jsonb_build_object";
                T { ty: if bin { Ty::Jsonb } else { Ty::Json }, k: K::BuildObject(v, bin) }
            }
            ("jsonb_build_array" | "json_build_array", _) => {
                for t in v.iter_mut() {
                    if t.ty == Ty::Unknown {
                        t.ty = Ty::Text;
                    }
                }
                let bin = n == "jsonb_build_array";
                T { ty: if bin { Ty::Jsonb } else { Ty::Json }, k: K::BuildArray(v, bin) }
            }
            ("to_jsonb", 1) if v[0].ty != Ty::Unknown => T { ty: Ty::Jsonb, k: K::ToJson(b(v.pop().unwrap())) },
            ("coalesce", _) if !v.is_empty() => {
                let (ty, v) = self.unify(v)?;
                T { ty, k: K::Coalesce(v) }
            }
            ("greatest" | "least", _) if !v.is_empty() => {
                let (ty, v) = self.unify(v)?;
                T { ty, k: K::Extreme(n == "greatest", v) }
            }
            ("lower" | "upper", 1) => {
                let x = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                T { ty: Ty::Text, k: K::Lower(b(x), n == "lower") }
            }
            ("like" | "ilike", 2) => {
                let p = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                let x = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                T { ty: Ty::Bool, k: K::Like(b(x), b(p), n == "ilike") }
            }
            ("date_trunc", 2) if v[1].ty == Ty::Timestamptz => {
                let x = v.pop().unwrap();
                let u = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                T { ty: Ty::Timestamptz, k: K::DateTrunc(b(u), b(x)) }
            }
            ("abs", 1) if v[0].ty.integer() => T { ty: v[0].ty.clone(), k: K::Abs(b(v.pop().unwrap())) },
            ("current_database", 0) => T { ty: Ty::Name, k: K::CurrentDatabase },
            ("pg_advisory_xact_lock" | "pg_advisory_lock" | "pg_advisory_unlock" | "pg_try_advisory_xact_lock" | "pg_try_advisory_lock", 1) => {
                let x = self.coerce(v.pop().unwrap(), &Ty::Int8, Ctx::Implicit)?;
                let ty = if n == "pg_advisory_xact_lock" || n == "pg_advisory_lock" { Ty::Void } else { Ty::Bool };
                T { ty, k: K::Effect(n.to_owned(), vec![x]) }
            }
            ("pg_notify", 2) => {
                let p = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                let ch = self.coerce(v.pop().unwrap(), &Ty::Text, Ctx::Implicit)?;
                T { ty: Ty::Void, k: K::Effect(n.to_owned(), vec![ch, p]) }
            }
            _ => return unsupported(format!("function {n} with {} arguments", v.len())),
        })
    }
    fn items(&mut self, items: &[(Expr, Option<String>)]) -> R<Vec<(String, T)>> {
        let mut out = vec![];
        for (e, a) in items {
            if let Expr::Star = e {
                let Some((t, _)) = &self.table else { return err("42601", "SELECT * with no tables specified is not valid") };
                for (i, c) in t.cols.iter().enumerate() {
                    out.push((c.name.clone(), T { ty: c.ty.clone(), k: K::Col(i) }));
                }
                continue;
            }
            let mut t = self.expr(e)?;
            if t.ty == Ty::Unknown {
                t = self.coerce(t, &Ty::Text, Ctx::Implicit)?;
            }
            out.push((a.clone().unwrap_or_else(|| name_of(e)), t));
        }
        Ok(out)
    }
    pub fn select(&mut self, s: &Select) -> R<ASelect> {
        if let Some((t, a)) = &s.from {
            self.table_scope(t, a.as_ref())?;
        }
        let filter = s.filter.as_ref().map(|f| self.boolean(f)).transpose()?;
        self.aggs = Some(vec![]);
        let items = self.items(&s.items)?;
        let mut order = vec![];
        for o in &s.order {
            // a number or a name of the result
            let t = match &o.e {
                Expr::Num(n) => {
                    let n: usize = n.parse().or_else(|_| err("42601", "non-integer constant in ORDER BY"))?;
                    if n == 0 || n > items.len() {
                        return err("42P10", format!("ORDER BY position {n} is not in select list"));
                    }
                    items[n - 1].1.clone()
                }
                Expr::Col(None, n) if items.iter().any(|i| i.0 == *n) => items.iter().find(|i| i.0 == *n).unwrap().1.clone(),
                e => self.expr(e)?,
            };
            match t.ty {
                Ty::Json => return err("42883", "could not identify an ordering operator for type json"),
                Ty::Jsonb => return unsupported("order of jsonb values"),
                _ => {}
            }
            order.push((t, o.desc, o.nulls_first.unwrap_or(o.desc)));
        }
        let aggs = self.aggs.take().unwrap();
        if !aggs.is_empty() && (s.lock.is_some()) {
            return err("0A000", "FOR UPDATE is not allowed with aggregate functions");
        }
        let mut int = |e: &Option<Expr>| -> R<Option<T>> {
            let Some(e) = e else { return Ok(None) };
            let t = self.expr(e)?;
            if t.ty == Ty::Unknown || t.ty.integer() {
                Ok(Some(self.coerce(t, &Ty::Int8, Ctx::Implicit)?))
            } else {
                err("42804", format!("argument of LIMIT/OFFSET must be type bigint, not type {:?}", t.ty))
            }
        };
        let limit = int(&s.limit)?;
        let offset = int(&s.offset)?;
        Ok(ASelect {
            table: s.from.as_ref().map(|f| f.0.clone()),
            items,
            filter,
            order,
            limit,
            offset,
            lock: s.lock,
            subs: std::mem::take(&mut self.subs),
            aggs,
        })
    }
    fn target(&self, cols: &[Col], n: &str, table: &str) -> R<usize> {
        match cols.iter().position(|c| c.name == n) {
            Some(i) => Ok(i),
            None => err("42703", format!("column \"{n}\" of relation \"{table}\" does not exist")),
        }
    }
    pub fn stmt(&mut self, s: &Stmt) -> R<AStmt> {
        Ok(match s {
            Stmt::Select(s) => AStmt::Select(self.select(s)?),
            Stmt::Insert { table, cols, rows, do_nothing, returning } => {
                let mut vals = vec![];
                self.table_scope(table, None)?;
                let t = self.table.take().unwrap();
                let tcols = t.0.cols.clone();
                let targets: Vec<usize> =
                    if cols.is_empty() { (0..tcols.len()).collect() } else { cols.iter().map(|n| self.target(&tcols, n, table)).collect::<R<_>>()? };
                for (i, x) in targets.iter().enumerate() {
                    if targets[..i].contains(x) {
                        return err("42701", format!("column \"{}\" specified more than once", tcols[*x].name));
                    }
                }
                for r in rows {
                    if r.len() > targets.len() {
                        return err("42601", "INSERT has more expressions than target columns");
                    }
                    if r.len() < targets.len() && !cols.is_empty() {
                        return err("42601", "INSERT has more target columns than expressions");
                    }
                    let mut out = vec![];
                    for (e, i) in r.iter().zip(&targets) {
                        out.push(match e {
                            None => None,
                            Some(e) => {
                                let x = self.expr(e)?;
                                Some(self.coerce(x, &tcols[*i].ty, Ctx::Assign)?)
                            }
                        });
                    }
                    vals.push(out);
                }
                if !self.subs.is_empty() {
                    return unsupported("subqueries in VALUES");
                }
                self.table = Some(t);
                let ret = self.items(returning)?;
                AStmt::Insert { table: table.clone(), targets, rows: vals, do_nothing: *do_nothing, ret }
            }
            Stmt::Update { table, alias, set, filter, returning } => {
                self.table_scope(table, alias.as_ref())?;
                let tcols = self.table.as_ref().unwrap().0.cols.clone();
                let mut out: Vec<(usize, Option<T>)> = vec![];
                for (n, e) in set {
                    let i = self.target(&tcols, n, table)?;
                    if out.iter().any(|x| x.0 == i) {
                        return err("42601", format!("multiple assignments to same column \"{n}\""));
                    }
                    out.push((
                        i,
                        match e {
                            None => None,
                            Some(e) => {
                                let x = self.expr(e)?;
                                Some(self.coerce(x, &tcols[i].ty, Ctx::Assign)?)
                            }
                        },
                    ));
                }
                let filter = filter.as_ref().map(|f| self.boolean(f)).transpose()?;
                let ret = self.items(returning)?;
                AStmt::Update { table: table.clone(), set: out, filter, ret, subs: std::mem::take(&mut self.subs) }
            }
            Stmt::Delete { table, alias, filter, returning } => {
                self.table_scope(table, alias.as_ref())?;
                let filter = filter.as_ref().map(|f| self.boolean(f)).transpose()?;
                let ret = self.items(returning)?;
                AStmt::Delete { table: table.clone(), filter, ret, subs: std::mem::take(&mut self.subs) }
            }
            s => AStmt::Other(s.clone()),
        })
    }
}
