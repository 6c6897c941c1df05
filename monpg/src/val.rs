//! Types and values of the emulated server, their wire formats, casts and comparisons.
use crate::sql::*;
use chrono::{DateTime, Datelike, NaiveDate, TimeDelta, Timelike, Utc};
use serde_json::Value;
use std::cmp::Ordering;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Unknown,
    Bool,
    Int2,
    Int4,
    Int8,
    Text,
    Varchar,
    Name,
    Char,
    Oid,
    Json,
    Jsonb,
    Timestamptz,
    Timestamp,
    Interval,
    Bytea,
    Void,
    /// By oid.
    Enum(u32),
    Array(Box<Ty>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    /// Text, varchar, name, enum labels, json text.
    Str(String),
    Jsonb(Value),
    /// Microseconds since 2000-01-01 (UTC).
    Ts(i64),
    /// Microseconds.
    Interval(i64),
    Bytes(Vec<u8>),
    Arr(Vec<Val>),
    Void,
}

pub const ENUM_BASE: u32 = 16_400;

impl Ty {
    pub fn oid(&self) -> u32 {
        match self {
            Ty::Unknown => 705,
            Ty::Bool => 16,
            Ty::Bytea => 17,
            Ty::Char => 18,
            Ty::Name => 19,
            Ty::Int8 => 20,
            Ty::Int2 => 21,
            Ty::Int4 => 23,
            Ty::Text => 25,
            Ty::Oid => 26,
            Ty::Json => 114,
            Ty::Varchar => 1043,
            Ty::Timestamp => 1114,
            Ty::Timestamptz => 1184,
            Ty::Interval => 1186,
            Ty::Void => 2278,
            Ty::Jsonb => 3802,
            Ty::Enum(o) => *o,
            Ty::Array(e) => match &**e {
                Ty::Bool => 1000,
                Ty::Bytea => 1001,
                Ty::Name => 1003,
                Ty::Int2 => 1005,
                Ty::Int4 => 1007,
                Ty::Text => 1009,
                Ty::Varchar => 1015,
                Ty::Int8 => 1016,
                Ty::Timestamp => 1115,
                Ty::Timestamptz => 1185,
                Ty::Interval => 1187,
                Ty::Oid => 1028,
                Ty::Json => 199,
                Ty::Jsonb => 3807,
                Ty::Enum(o) => *o - 1,
                _ => 0,
            },
        }
    }
    /// Enums are allotted odd numbers from `ENUM_BASE + 1`, their arrays the number before.
    pub fn from_oid(oid: u32) -> Option<Ty> {
        for t in [
            Ty::Unknown, Ty::Bool, Ty::Bytea, Ty::Char, Ty::Name, Ty::Int8, Ty::Int2, Ty::Int4, Ty::Text, Ty::Oid, Ty::Json, Ty::Varchar,
            Ty::Timestamp, Ty::Timestamptz, Ty::Interval, Ty::Void, Ty::Jsonb,
        ] {
            if t.oid() == oid {
                return Some(t);
            }
            let a = Ty::Array(Box::new(t));
            if a.oid() == oid && oid != 0 {
                return Some(a);
            }
        }
        if oid >= ENUM_BASE && oid < ENUM_BASE + 100 {
            return Some(if oid % 2 == 1 { Ty::Enum(oid) } else { Ty::Array(Box::new(Ty::Enum(oid + 1))) });
        }
        None
    }
    pub fn textual(&self) -> bool {
        matches!(self, Ty::Text | Ty::Varchar | Ty::Name)
    }
    pub fn integer(&self) -> bool {
        matches!(self, Ty::Int2 | Ty::Int4 | Ty::Int8)
    }
    pub fn temporal(&self) -> bool {
        matches!(self, Ty::Timestamp | Ty::Timestamptz)
    }
    pub fn array(self) -> Ty {
        Ty::Array(Box::new(self))
    }
}

pub fn epoch() -> DateTime<Utc> {
    NaiveDate::from_ymd_opt(2000, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap().and_utc()
}
pub fn ts_of(t: DateTime<Utc>) -> i64 {
    t.signed_duration_since(epoch()).num_microseconds().expect("in range")
}
pub fn ts_show(ts: i64, zone: bool) -> R<String> {
    let Some(t) = TimeDelta::try_milliseconds(0).and_then(|_| epoch().checked_add_signed(TimeDelta::microseconds(ts))) else {
        return unsupported("timestamp beyond the emulator's calendar");
    };
    let y = t.year();
    if !(1..=9999).contains(&y) {
        return unsupported("year beyond four digits in text form");
    }
    let us = t.nanosecond() / 1000;
    let mut s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, t.month(), t.day(), t.hour(), t.minute(), t.second());
    if us != 0 {
        s += format!(".{us:06}").trim_end_matches('0');
    }
    if zone {
        s += "+00:00";
    }
    Ok(s)
}

/// Limits of the server's timestamps: 4713 BC to 294276 AD.
const TS_MIN: i64 = -211_813_488_000_000_000;
const TS_MAX: i64 = 9_223_371_331_200_000_000;

pub fn check_ts(t: i64) -> R<i64> {
    if !(TS_MIN..TS_MAX).contains(&t) { err("22008", "timestamp out of range") } else { Ok(t) }
}

fn no_nul(s: &str) -> R<()> {
    if s.contains('\0') { err("22021", "invalid byte sequence for encoding \"UTF8\": 0x00") } else { Ok(()) }
}
fn json_nul(v: &Value) -> bool {
    match v {
        Value::String(s) => s.contains('\0'),
        Value::Array(a) => a.iter().any(json_nul),
        Value::Object(o) => o.iter().any(|(k, v)| k.contains('\0') || json_nul(v)),
        _ => false,
    }
}
pub fn parse_jsonb(s: &str) -> R<Value> {
    let v: Value = match serde_json::from_str(s) {
        Ok(v) => v,
        Err(e) => return err("22P02", format!("invalid input syntax for type json: {e}")),
    };
    if json_nul(&v) {
        return err("22P05", "unsupported Unicode escape sequence");
    }
    Ok(v)
}

fn rd<const N: usize>(b: &[u8]) -> R<[u8; N]> {
    b.try_into().or_else(|_| err("22P03", "incorrect binary data format"))
}

/// Binary parameter or array element.
pub fn decode(ty: &Ty, b: &[u8], labels: &dyn Fn(u32) -> Vec<String>) -> R<Val> {
    let text = |b: &[u8]| -> R<String> {
        match std::str::from_utf8(b) {
            Ok(s) => {
                no_nul(s)?;
                Ok(s.to_owned())
            }
            Err(_) => err("22021", "invalid byte sequence for encoding \"UTF8\""),
        }
    };
    Ok(match ty {
        Ty::Bool => match b {
            [0] => Val::Bool(false),
            [_] => Val::Bool(true),
            _ => return err("22P03", "incorrect binary data format"),
        },
        Ty::Int2 => Val::Int(i16::from_be_bytes(rd(b)?).into()),
        Ty::Int4 => Val::Int(i32::from_be_bytes(rd(b)?).into()),
        Ty::Int8 => Val::Int(i64::from_be_bytes(rd(b)?)),
        Ty::Oid => Val::Int(u32::from_be_bytes(rd(b)?).into()),
        Ty::Text | Ty::Varchar | Ty::Name | Ty::Unknown => Val::Str(text(b)?),
        Ty::Json => {
            let s = text(b)?;
            parse_jsonb(&s)?;
            Val::Str(s)
        }
        Ty::Jsonb => {
            if b.first() != Some(&1) {
                return err("XX000", "unsupported jsonb version number");
            }
            Val::Jsonb(parse_jsonb(&text(&b[1..])?)?)
        }
        Ty::Timestamptz | Ty::Timestamp => Val::Ts(check_ts(i64::from_be_bytes(rd(b)?))?),
        Ty::Bytea => Val::Bytes(b.to_vec()),
        Ty::Interval => {
            let us = i64::from_be_bytes(rd(b.get(0..8).unwrap_or(&[]))?);
            let d = i32::from_be_bytes(rd(b.get(8..12).unwrap_or(&[]))?);
            let m = i32::from_be_bytes(rd(b.get(12..).unwrap_or(&[]))?);
            Val::Interval(us + (d as i64 + 30 * m as i64) * 86_400_000_000)
        }
        Ty::Enum(o) => {
            let s = text(b)?;
            if !labels(*o).contains(&s) {
                return err("22P02", format!("invalid input value for enum: \"{s}\""));
            }
            Val::Str(s)
        }
        Ty::Array(e) => {
            let i = |k: usize| -> R<i32> { Ok(i32::from_be_bytes(rd(b.get(4 * k..4 * k + 4).unwrap_or(&[]))?)) };
            let ndim = i(0)?;
            let oid = i(2)? as u32;
            if oid != e.oid() {
                return err("42804", format!("binary data has array element type {oid} instead of expected {}", e.oid()));
            }
            if ndim == 0 {
                return Ok(Val::Arr(vec![]));
            }
            if ndim != 1 {
                return unsupported("arrays of more than one dimension");
            }
            let n = i(3)?;
            let mut at = 20;
            let mut v = vec![];
            for _ in 0..n {
                let l = i32::from_be_bytes(rd(b.get(at..at + 4).unwrap_or(&[]))?);
                at += 4;
                if l < 0 {
                    v.push(Val::Null);
                } else {
                    let Some(x) = b.get(at..at + l as usize) else { return err("22P03", "insufficient data left in message") };
                    v.push(decode(e, x, labels)?);
                    at += l as usize;
                }
            }
            Val::Arr(v)
        }
        Ty::Char | Ty::Void => return unsupported("parameter type"),
    })
}

pub fn encode(ty: &Ty, v: &Val) -> Option<Vec<u8>> {
    Some(match (ty, v) {
        (_, Val::Null) => return None,
        (Ty::Bool, Val::Bool(b)) => vec![*b as u8],
        (Ty::Int2, Val::Int(i)) => (*i as i16).to_be_bytes().to_vec(),
        (Ty::Int4, Val::Int(i)) => (*i as i32).to_be_bytes().to_vec(),
        (Ty::Int8, Val::Int(i)) => i.to_be_bytes().to_vec(),
        (Ty::Oid, Val::Int(i)) => (*i as u32).to_be_bytes().to_vec(),
        (_, Val::Str(s)) => s.as_bytes().to_vec(),
        (_, Val::Jsonb(j)) => {
            let mut b = vec![1];
            b.extend(j.to_string().as_bytes());
            b
        }
        (_, Val::Ts(t)) => t.to_be_bytes().to_vec(),
        (_, Val::Interval(us)) => {
            let mut b = us.to_be_bytes().to_vec();
            b.extend([0; 8]);
            b
        }
        (_, Val::Bytes(b)) => b.clone(),
        (Ty::Array(e), Val::Arr(xs)) => {
            let mut b = vec![];
            let nulls = xs.contains(&Val::Null) as i32;
            let n = xs.len() as i32;
            b.extend((if n == 0 { 0i32 } else { 1 }).to_be_bytes());
            b.extend(nulls.to_be_bytes());
            b.extend(e.oid().to_be_bytes());
            if n > 0 {
                b.extend(n.to_be_bytes());
                b.extend(1i32.to_be_bytes());
                for x in xs {
                    match encode(e, x) {
                        None => b.extend((-1i32).to_be_bytes()),
                        Some(d) => {
                            b.extend((d.len() as i32).to_be_bytes());
                            b.extend(d);
                        }
                    }
                }
            }
            b
        }
        (_, Val::Void) => vec![],
        (t, v) => unreachable!("{v:?} as {t:?}"),
    })
}

pub fn encode_text(ty: &Ty, v: &Val) -> R<Option<Vec<u8>>> {
    Ok(match v {
        Val::Null => None,
        Val::Void => Some(vec![]),
        v => Some(to_text(ty, v)?.into_bytes()),
    })
}

pub fn to_text(ty: &Ty, v: &Val) -> R<String> {
    Ok(match v {
        Val::Bool(b) => if *b { "true" } else { "false" }.into(),
        Val::Int(i) => i.to_string(),
        Val::Str(s) => s.clone(),
        Val::Jsonb(j) => j.to_string(),
        Val::Ts(t) => ts_show(*t, *ty == Ty::Timestamptz)?.replace('T', " ").replace("+00:00", "+00"),
        _ => return unsupported("text form"),
    })
}

/// A value as JSON, as the json_build functions do it.
pub fn to_json(ty: &Ty, v: &Val) -> R<Value> {
    Ok(match v {
        Val::Null => Value::Null,
        Val::Bool(b) => Value::Bool(*b),
        Val::Int(i) => Value::from(*i),
        Val::Jsonb(j) => j.clone(),
        Val::Str(s) if *ty == Ty::Json => parse_jsonb(s)?,
        Val::Str(s) => Value::String(s.clone()),
        Val::Ts(t) => Value::String(ts_show(*t, *ty == Ty::Timestamptz)?),
        Val::Arr(xs) => {
            let Ty::Array(e) = ty else { return unsupported("array as json") };
            Value::Array(xs.iter().map(|x| to_json(e, x)).collect::<R<_>>()?)
        }
        _ => return unsupported("value as json"),
    })
}

pub fn parse_interval(s: &str) -> R<i64> {
    let bad = || err::<i64>("22007", format!("invalid input syntax for type interval: \"{s}\""));
    let mut total: i64 = 0;
    let mut toks = s.split_whitespace().peekable();
    if toks.peek().is_none() {
        return bad();
    }
    let num = |t: &str| -> Option<i64> {
        // microseconds per unit are applied to a decimal
        let neg = t.starts_with('-');
        let t = t.trim_start_matches(['-', '+']);
        let (a, b) = t.split_once('.').unwrap_or((t, ""));
        if a.is_empty() && b.is_empty() || !(a.to_owned() + b).chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let a: i64 = if a.is_empty() { 0 } else { a.parse().ok()? };
        let f: i64 = format!("{:0<6}", &b[..b.len().min(6)]).parse().ok()?;
        let v = a.checked_mul(1_000_000)?.checked_add(f)?;
        Some(if neg { -v } else { v })
    };
    while let Some(t) = toks.next() {
        if t.contains(':') {
            let neg = t.starts_with('-');
            let p: Vec<&str> = t.trim_start_matches(['-', '+']).split(':').collect();
            if p.len() > 3 {
                return bad();
            }
            let (Some(h), Some(m)) = (num(p[0]), num(p[1])) else { return bad() };
            let sec = if p.len() == 3 { num(p[2]) } else { Some(0) };
            let Some(sec) = sec else { return bad() };
            let v = h * 3600 + m * 60 + sec;
            total += if neg { -v } else { v };
        } else {
            // "1 day", "100ms"
            let cut = t.find(|c: char| c.is_alphabetic()).unwrap_or(t.len());
            let (n, u) = t.split_at(cut);
            let Some(n) = num(n) else { return bad() };
            let u = if u.is_empty() { toks.next().unwrap_or("s") } else { u };
            let per: f64 = match u.trim_end_matches(',').to_lowercase().as_str() {
                "us" | "usec" | "usecs" | "microsecond" | "microseconds" => 1e-6,
                "ms" | "msec" | "msecs" | "millisecond" | "milliseconds" => 1e-3,
                "s" | "sec" | "secs" | "second" | "seconds" => 1.0,
                "m" | "min" | "mins" | "minute" | "minutes" => 60.0,
                "h" | "hr" | "hrs" | "hour" | "hours" => 3600.0,
                "d" | "day" | "days" => 86_400.0,
                "w" | "week" | "weeks" => 604_800.0,
                _ => return unsupported(format!("interval unit {u}")),
            };
            total += (n as f64 * per).round() as i64;
        }
    }
    Ok(total)
}

fn parse_ts(s: &str) -> R<i64> {
    for f in ["%Y-%m-%d %H:%M:%S%.f%#z", "%Y-%m-%dT%H:%M:%S%.f%#z"] {
        if let Ok(t) = DateTime::parse_from_str(s, f) {
            return Ok(ts_of(t.with_timezone(&Utc)));
        }
    }
    for f in ["%Y-%m-%d %H:%M:%S%.f", "%Y-%m-%dT%H:%M:%S%.f"] {
        if let Ok(t) = chrono::NaiveDateTime::parse_from_str(s, f) {
            return Ok(ts_of(t.and_utc()));
        }
    }
    if let Ok(d) = NaiveDate::parse_from_str(s, "%Y-%m-%d") {
        return Ok(ts_of(d.and_hms_opt(0, 0, 0).unwrap().and_utc()));
    }
    unsupported(format!("timestamp literal '{s}'"))
}

/// A literal or text value as the given type.
pub fn from_text(ty: &Ty, s: &str, labels: &dyn Fn(u32) -> Vec<String>) -> R<Val> {
    let int = |lo: i64, hi: i64| -> R<Val> {
        match s.trim().parse::<i64>() {
            Ok(i) if (lo..=hi).contains(&i) => Ok(Val::Int(i)),
            Ok(_) => err("22003", format!("value \"{s}\" is out of range")),
            Err(_) => err("22P02", format!("invalid input syntax for type integer: \"{s}\"")),
        }
    };
    Ok(match ty {
        Ty::Unknown | Ty::Text | Ty::Varchar | Ty::Name => Val::Str(s.to_owned()),
        Ty::Bool => match s.trim().to_lowercase().as_str() {
            "t" | "true" | "yes" | "on" | "1" => Val::Bool(true),
            "f" | "false" | "no" | "off" | "0" => Val::Bool(false),
            _ => return err("22P02", format!("invalid input syntax for type boolean: \"{s}\"")),
        },
        Ty::Int2 => int(i16::MIN.into(), i16::MAX.into())?,
        Ty::Int4 => int(i32::MIN.into(), i32::MAX.into())?,
        Ty::Int8 => int(i64::MIN, i64::MAX)?,
        Ty::Oid => int(0, u32::MAX.into())?,
        Ty::Json => {
            parse_jsonb(s)?;
            Val::Str(s.to_owned())
        }
        Ty::Jsonb => Val::Jsonb(parse_jsonb(s)?),
        Ty::Timestamptz | Ty::Timestamp => Val::Ts(parse_ts(s)?),
        Ty::Interval => Val::Interval(parse_interval(s)?),
        Ty::Enum(o) => {
            if !labels(*o).iter().any(|l| l == s) {
                return err("22P02", format!("invalid input value for enum: \"{s}\""));
            }
            Val::Str(s.to_owned())
        }
        Ty::Array(e) => match s.trim() {
            "{}" => Val::Arr(vec![]),
            t if t.starts_with('{') && t.ends_with('}') && !t.contains(['"', '\\']) => {
                Val::Arr(t[1..t.len() - 1].split(',').map(|x| from_text(e, x.trim(), labels)).collect::<R<_>>()?)
            }
            _ => return unsupported("array literal"),
        },
        Ty::Char | Ty::Bytea | Ty::Void => return unsupported("literal of this type"),
    })
}

/// jsonb equality: numbers by value.
pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(x), Some(y)) = (x.as_i64(), y.as_i64()) {
                return x == y;
            }
            if let (Some(x), Some(y)) = (x.as_u64(), y.as_u64()) {
                return x == y;
            }
            if x.is_f64() || y.is_f64() { x.as_f64() == y.as_f64() } else { false }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| json_eq(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| json_eq(v, w))),
        _ => a == b,
    }
}

/// jsonb containment (@>).
pub fn json_contains(a: &Value, b: &Value, top: bool) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => y.iter().all(|(k, v)| x.get(k).is_some_and(|w| json_contains(w, v, false))),
        (Value::Array(x), Value::Array(y)) => y.iter().all(|v| x.iter().any(|w| json_contains(w, v, false))),
        (Value::Array(x), y) if top && !y.is_object() => x.iter().any(|w| json_eq(w, y)),
        _ => json_eq(a, b),
    }
}

/// Order of two non-null values of a comparable type. Text is compared bytewise (collation C);
/// nothing here depends on another order.
pub fn compare(ty: &Ty, a: &Val, b: &Val, labels: &dyn Fn(u32) -> Vec<String>) -> R<Ordering> {
    Ok(match (a, b) {
        (Val::Bool(a), Val::Bool(b)) => a.cmp(b),
        (Val::Int(a), Val::Int(b)) => a.cmp(b),
        (Val::Ts(a), Val::Ts(b)) => a.cmp(b),
        (Val::Interval(a), Val::Interval(b)) => a.cmp(b),
        (Val::Bytes(a), Val::Bytes(b)) => a.cmp(b),
        (Val::Str(a), Val::Str(b)) => match ty {
            Ty::Enum(o) => {
                let l = labels(*o);
                let p = |s: &str| l.iter().position(|x| x == s);
                p(a).cmp(&p(b))
            }
            _ => a.cmp(b),
        },
        (Val::Jsonb(a), Val::Jsonb(b)) => {
            if json_eq(a, b) { Ordering::Equal } else { return unsupported("order of jsonb values") }
        }
        (Val::Arr(a), Val::Arr(b)) => {
            let Ty::Array(e) = ty else { return unsupported("comparison") };
            for (x, y) in a.iter().zip(b) {
                match (x, y) {
                    (Val::Null, Val::Null) => continue,
                    (Val::Null, _) => return Ok(Ordering::Greater),
                    (_, Val::Null) => return Ok(Ordering::Less),
                    _ => {}
                }
                let o = compare(e, x, y, labels)?;
                if o != Ordering::Equal {
                    return Ok(o);
                }
            }
            a.len().cmp(&b.len())
        }
        _ => return unsupported(format!("comparison of {a:?} and {b:?}")),
    })
}

pub fn equal(ty: &Ty, a: &Val, b: &Val, labels: &dyn Fn(u32) -> Vec<String>) -> R<bool> {
    Ok(match (a, b) {
        (Val::Jsonb(a), Val::Jsonb(b)) => json_eq(a, b),
        (Val::Str(a), Val::Str(b)) => a == b,
        _ => compare(ty, a, b, labels)? == Ordering::Equal,
    })
}
