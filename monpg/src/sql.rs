//! The part of PostgreSQL's SQL that the emulated server understands: tokens, syntax trees, parser.
//! What PostgreSQL would certainly reject becomes a syntax error, what it might accept but is not
//! known here becomes `unsupported` (which makes a check inconclusive, never an alarm).

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    /// Unquoted identifiers are folded to lower case; the flag says whether it was quoted.
    Id(String, bool),
    Num(String),
    Str(String),
    Param(usize),
    Op(String),
    /// ( ) [ ] , ; . :: :=
    P(&'static str),
    Eof,
}

#[derive(Debug, Clone, PartialEq)]
pub struct PgErr {
    pub code: &'static str,
    pub msg: String,
}
pub type R<V> = Result<V, PgErr>;

/// Not an SQLSTATE: the emulator does not know this construct.
pub const UNSUPPORTED: &str = "XXEMU";

pub fn err<V>(code: &'static str, msg: impl Into<String>) -> R<V> {
    Err(PgErr { code, msg: msg.into() })
}
pub fn unsupported<V>(what: impl Into<String>) -> R<V> {
    err(UNSUPPORTED, what)
}

const RESERVED: &[&str] = &[
    "select", "from", "where", "and", "or", "not", "order", "limit", "offset", "for", "in", "case", "when", "then", "else", "end", "null",
    "true", "false", "group", "having", "union", "with", "returning", "as", "on", "asc", "desc", "distinct", "all", "any", "array", "into", "using",
    "create", "table", "default", "check", "unique", "primary", "references", "except", "intersect", "fetch", "do", "grant",
];

pub fn tokenize(s: &str) -> R<Vec<Tok>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let id0 = |c: char| c.is_alphabetic() || c == '_';
    let idc = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
    while i < b.len() {
        let c = b[i];
        if c == '\0' {
            return err("22021", "invalid byte sequence for encoding \"UTF8\": 0x00");
        }
        if c.is_whitespace() {
            i += 1;
        } else if c == '-' && b.get(i + 1) == Some(&'-') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            let mut depth = 1;
            i += 2;
            while i < b.len() && depth > 0 {
                if b[i] == '*' && b.get(i + 1) == Some(&'/') {
                    depth -= 1;
                    i += 2;
                } else if b[i] == '/' && b.get(i + 1) == Some(&'*') {
                    depth += 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
            if depth > 0 {
                return err("42601", "unterminated /* comment");
            }
        } else if c == '\'' {
            let mut t = String::new();
            i += 1;
            loop {
                match b.get(i) {
                    None => return err("42601", "unterminated quoted string"),
                    Some('\'') if b.get(i + 1) == Some(&'\'') => {
                        t.push('\'');
                        i += 2;
                    }
                    Some('\'') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        t.push(*x);
                        i += 1;
                    }
                }
            }
            out.push(Tok::Str(t));
        } else if c == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match b.get(i) {
                    None => return err("42601", "unterminated quoted identifier"),
                    Some('"') if b.get(i + 1) == Some(&'"') => {
                        t.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        t.push(*x);
                        i += 1;
                    }
                }
            }
            if t.is_empty() {
                return err("42601", "zero-length delimited identifier");
            }
            out.push(Tok::Id(t, true));
        } else if c == '$' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) {
            let mut j = i + 1;
            while b.get(j).is_some_and(|c| c.is_ascii_digit()) {
                j += 1;
            }
            let n: String = b[i + 1..j].iter().collect();
            if b.get(j).is_some_and(|c| id0(*c)) {
                return err("42601", "trailing junk after parameter");
            }
            match n.parse() {
                Ok(n) if n > 0 => out.push(Tok::Param(n)),
                _ => return err("42P02", format!("there is no parameter ${n}")),
            }
            i = j;
        } else if c == '$' {
            // dollar quote
            let mut j = i + 1;
            while b.get(j).is_some_and(|c| idc(*c) && *c != '$') {
                j += 1;
            }
            if b.get(j) != Some(&'$') {
                return err("42601", "syntax error at or near \"$\"");
            }
            let tag = &b[i..=j];
            let body = j + 1;
            let mut k = body;
            loop {
                if k + tag.len() > b.len() {
                    return err("42601", "unterminated dollar-quoted string");
                }
                if &b[k..k + tag.len()] == tag {
                    break;
                }
                k += 1;
            }
            out.push(Tok::Str(b[body..k].iter().collect()));
            i = k + tag.len();
        } else if c.is_ascii_digit() || (c == '.' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit())) {
            let mut j = i;
            while b.get(j).is_some_and(|c| c.is_ascii_digit() || *c == '.') {
                j += 1;
            }
            if b.get(j).is_some_and(|c| id0(*c)) {
                return err("42601", "trailing junk after numeric literal");
            }
            out.push(Tok::Num(b[i..j].iter().collect()));
            i = j;
        } else if id0(c) {
            let mut j = i;
            while b.get(j).is_some_and(|c| idc(*c)) {
                j += 1;
            }
            let t: String = b[i..j].iter().collect::<String>().to_lowercase();
            if b.get(j) == Some(&'\'') && ["e", "b", "x", "u"].contains(&t.as_str()) {
                return unsupported("prefixed string literal");
            }
            out.push(Tok::Id(t, false));
            i = j;
        } else {
            let two: String = b[i..(i + 2).min(b.len())].iter().collect();
            let p = match two.as_str() {
                "::" => Some("::"),
                ":=" => Some(":="),
                _ => None,
            };
            if let Some(p) = p {
                out.push(Tok::P(p));
                i += 2;
                continue;
            }
            let p = match c {
                '(' => Some("("),
                ')' => Some(")"),
                '[' => Some("["),
                ']' => Some("]"),
                ',' => Some(","),
                ';' => Some(";"),
                '.' => Some("."),
                _ => None,
            };
            if let Some(p) = p {
                out.push(Tok::P(p));
                i += 1;
                continue;
            }
            const OPS: &str = "+-*/<>=~!@#%^&|`?";
            if OPS.contains(c) {
                let mut j = i;
                while b.get(j).is_some_and(|c| OPS.contains(*c)) {
                    if b[j] == '-' && b.get(j + 1) == Some(&'-') || b[j] == '/' && b.get(j + 1) == Some(&'*') {
                        break;
                    }
                    j += 1;
                }
                let mut t: String = b[i..j].iter().collect();
                // a multi-character operator may not end in + or - unless it has one of ~!@#%^&|`?
                while t.len() > 1 && (t.ends_with('+') || t.ends_with('-')) && !t.chars().any(|c| "~!@#%^&|`?".contains(c)) {
                    t.pop();
                }
                i += t.chars().count();
                out.push(Tok::Op(t));
            } else {
                return err("42601", format!("syntax error at or near \"{c}\""));
            }
        }
    }
    out.push(Tok::Eof);
    Ok(out)
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeName {
    pub name: String,
    pub array: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Param(usize),
    Col(Option<String>, String),
    Star,
    Neg(Box<Expr>),
    Not(Box<Expr>),
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Bin(String, Box<Expr>, Box<Expr>),
    IsNull(Box<Expr>, bool),
    IsBool(Box<Expr>, bool, bool),
    IsDistinct(Box<Expr>, Box<Expr>, bool),
    InList(Box<Expr>, Vec<Expr>, bool),
    InSub(Box<Expr>, Box<Select>, bool),
    /// left, operator, array, all
    Quant(Box<Expr>, String, Box<Expr>, bool),
    Between(Box<Expr>, Box<Expr>, Box<Expr>, bool),
    Case(Option<Box<Expr>>, Vec<(Expr, Expr)>, Option<Box<Expr>>),
    Func(String, Vec<Expr>, bool),
    Cast(Box<Expr>, TypeName),
    Array(Vec<Expr>),
    Exists(Box<Select>),
    Sub(Box<Select>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Locking {
    Wait,
    Skip,
    NoWait,
}

#[derive(Debug, Clone, PartialEq)]
pub struct OrderBy {
    pub e: Expr,
    pub desc: bool,
    pub nulls_first: Option<bool>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Select {
    pub items: Vec<(Expr, Option<String>)>,
    pub from: Option<(String, Option<String>)>,
    pub filter: Option<Expr>,
    pub order: Vec<OrderBy>,
    pub limit: Option<Expr>,
    pub offset: Option<Expr>,
    pub lock: Option<Locking>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct ColDef {
    pub name: String,
    pub ty: TypeName,
    pub serial: bool,
    pub not_null: bool,
    pub default: Option<Expr>,
    pub primary: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stmt {
    Select(Select),
    Insert { table: String, cols: Vec<String>, rows: Vec<Vec<Option<Expr>>>, do_nothing: bool, returning: Vec<(Expr, Option<String>)> },
    Update { table: String, alias: Option<String>, set: Vec<(String, Option<Expr>)>, filter: Option<Expr>, returning: Vec<(Expr, Option<String>)> },
    Delete { table: String, alias: Option<String>, filter: Option<Expr>, returning: Vec<(Expr, Option<String>)> },
    Begin,
    Commit,
    Rollback,
    Listen(String),
    Unlisten(Option<String>),
    CreateType(String, Vec<String>),
    CreateTable { name: String, if_not_exists: bool, cols: Vec<ColDef> },
    CreateIndex { name: String, if_not_exists: bool, table: String },
    CreateFunction { name: String, replace: bool, body: String },
    CreateTrigger { name: String, insert: bool, update: bool, delete: bool, table: String, when: Option<Expr>, func: String },
    Do(String),
    /// Accepted without effect.
    Nothing(&'static str),
    Empty,
}

pub struct Parser {
    t: Vec<Tok>,
    pub i: usize,
}

impl Parser {
    pub fn new(s: &str) -> R<Self> {
        Ok(Self { t: tokenize(s)?, i: 0 })
    }
    pub fn peek(&self) -> &Tok {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn peek2(&self) -> &Tok {
        &self.t[(self.i + 1).min(self.t.len() - 1)]
    }
    pub fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    pub fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(s, false) if s == k)
    }
    fn is_kw2(&self, k: &str) -> bool {
        matches!(self.peek2(), Tok::Id(s, false) if s == k)
    }
    pub fn kw(&mut self, k: &str) -> bool {
        let r = self.is_kw(k);
        if r {
            self.i += 1;
        }
        r
    }
    pub fn kws(&mut self, ks: &[&str]) -> bool {
        let save = self.i;
        for k in ks {
            if !self.kw(k) {
                self.i = save;
                return false;
            }
        }
        true
    }
    pub fn p(&mut self, p: &str) -> bool {
        let r = matches!(self.peek(), Tok::P(x) if *x == p);
        if r {
            self.i += 1;
        }
        r
    }
    pub fn is_p(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == p)
    }
    fn op(&mut self, o: &str) -> bool {
        let r = matches!(self.peek(), Tok::Op(x) if x == o);
        if r {
            self.i += 1;
        }
        r
    }
    /// The token at hand does not fit: certainly wrong for PostgreSQL as well, or perhaps only
    /// unknown here.
    pub fn bad<V>(&self, what: &str) -> R<V> {
        let t = self.peek();
        let sure = match t {
            Tok::Eof | Tok::Param(_) | Tok::Str(_) | Tok::Num(_) => true,
            Tok::P(p) => matches!(*p, ")" | "," | ";" | "]" | "("),
            Tok::Op(o) => matches!(o.as_str(), "=" | "<" | ">" | "<=" | ">=" | "<>" | "!="),
            Tok::Id(s, false) => RESERVED.contains(&s.as_str()),
            Tok::Id(_, true) => false,
        };
        if sure {
            err("42601", format!("syntax error at or near {t:?} (expected {what})"))
        } else {
            unsupported(format!("{t:?} where {what} was expected"))
        }
    }
    pub fn need(&mut self, p: &str) -> R<()> {
        if self.p(p) { Ok(()) } else { self.bad(p) }
    }
    pub fn need_kw(&mut self, k: &str) -> R<()> {
        if self.kw(k) { Ok(()) } else { self.bad(k) }
    }
    pub fn ident(&mut self) -> R<String> {
        match self.peek().clone() {
            Tok::Id(s, q) if q || !RESERVED.contains(&s.as_str()) => {
                self.i += 1;
                Ok(s)
            }
            _ => self.bad("an identifier"),
        }
    }
    fn table_name(&mut self) -> R<String> {
        let a = self.ident()?;
        if self.p(".") {
            let b = self.ident()?;
            return match a.as_str() {
                "public" => Ok(b),
                "pg_catalog" => Ok(format!("pg_catalog.{b}")),
                _ => err("3F000", format!("schema \"{a}\" does not exist")),
            };
        }
        Ok(a)
    }
    pub fn end(&self) -> bool {
        matches!(self.peek(), Tok::Eof)
    }

    /// A string of statements.
    pub fn script(&mut self) -> R<Vec<Stmt>> {
        let mut out = vec![];
        loop {
            while self.p(";") {}
            if self.end() {
                return Ok(out);
            }
            out.push(self.stmt()?);
            if !self.end() && !self.is_p(";") {
                return self.bad("the end of the statement");
            }
        }
    }
    /// Exactly one statement.
    pub fn single(&mut self) -> R<Stmt> {
        let mut s = self.script()?;
        match s.len() {
            0 => Ok(Stmt::Empty),
            1 => Ok(s.remove(0)),
            _ => err("42601", "cannot insert multiple commands into a prepared statement"),
        }
    }

    pub fn stmt(&mut self) -> R<Stmt> {
        let Tok::Id(k, false) = self.peek().clone() else { return self.bad("a statement") };
        match k.as_str() {
            "select" => Ok(Stmt::Select(self.select()?)),
            "insert" => self.insert(),
            "update" => self.update(),
            "delete" => self.delete(),
            "begin" | "start" => {
                self.i += 1;
                let _ = self.kw("transaction") || self.kw("work");
                if self.is_kw("isolation") || self.is_kw("read") {
                    return unsupported("transaction modes");
                }
                Ok(Stmt::Begin)
            }
            "commit" | "end" => {
                self.i += 1;
                let _ = self.kw("transaction") || self.kw("work");
                Ok(Stmt::Commit)
            }
            "rollback" | "abort" => {
                self.i += 1;
                let _ = self.kw("transaction") || self.kw("work");
                if self.is_kw("to") {
                    return unsupported("savepoints");
                }
                Ok(Stmt::Rollback)
            }
            "listen" => {
                self.i += 1;
                Ok(Stmt::Listen(self.ident()?))
            }
            "unlisten" => {
                self.i += 1;
                if self.op("*") { Ok(Stmt::Unlisten(None)) } else { Ok(Stmt::Unlisten(Some(self.ident()?))) }
            }
            "create" => self.create(),
            "do" => {
                self.i += 1;
                match self.next() {
                    Tok::Str(s) => Ok(Stmt::Do(s)),
                    _ => unsupported("DO with a language"),
                }
            }
            "set" | "comment" | "analyze" | "vacuum" => {
                while !self.end() && !self.is_p(";") {
                    self.i += 1;
                }
                Ok(Stmt::Nothing("SET"))
            }
            "drop" | "alter" | "with" | "truncate" | "lock" | "savepoint" | "release" | "values" | "merge" | "grant" | "explain" | "copy"
            | "prepare" | "execute" | "deallocate" | "show" | "table" => unsupported(format!("{k} statements")),
            _ => err("42601", format!("syntax error at or near \"{k}\"")),
        }
    }

    pub fn select(&mut self) -> R<Select> {
        self.need_kw("select")?;
        if self.is_kw("distinct") {
            return unsupported("SELECT DISTINCT");
        }
        let mut s = Select { items: self.items()?, ..Default::default() };
        if self.kw("from") {
            if self.is_p("(") {
                return unsupported("subquery in FROM");
            }
            let t = self.table_name()?;
            let alias = self.alias()?;
            s.from = Some((t, alias));
            if self.is_p(",") || ["join", "left", "right", "inner", "cross", "full", "natural"].iter().any(|k| self.is_kw(k)) {
                return unsupported("joins");
            }
        }
        if self.kw("where") {
            s.filter = Some(self.expr()?);
        }
        if self.is_kw("group") || self.is_kw("having") || self.is_kw("union") || self.is_kw("window") || self.is_kw("except") || self.is_kw("intersect") {
            return unsupported("grouping and set operations");
        }
        if self.kws(&["order", "by"]) {
            loop {
                let e = self.expr()?;
                let desc = if self.kw("desc") {
                    true
                } else {
                    self.kw("asc");
                    false
                };
                let nulls_first = if self.kws(&["nulls", "first"]) {
                    Some(true)
                } else if self.kws(&["nulls", "last"]) {
                    Some(false)
                } else {
                    None
                };
                s.order.push(OrderBy { e, desc, nulls_first });
                if !self.p(",") {
                    break;
                }
            }
        } else if self.is_kw("order") {
            self.i += 1;
            return self.bad("BY");
        }
        loop {
            if s.limit.is_none() && self.kw("limit") {
                if self.kw("all") {
                    continue;
                }
                s.limit = Some(self.expr()?);
            } else if s.offset.is_none() && self.kw("offset") {
                s.offset = Some(self.expr()?);
                let _ = self.kw("rows") || self.kw("row");
            } else if self.is_kw("fetch") {
                return unsupported("FETCH FIRST");
            } else if s.lock.is_none() && self.is_kw("for") {
                self.i += 1;
                let ok = self.kw("update") || self.kws(&["no", "key", "update"]);
                if !ok {
                    if self.is_kw("share") || self.is_kw("key") {
                        return unsupported("shared row locks");
                    }
                    return self.bad("UPDATE");
                }
                if self.kw("of") {
                    self.ident()?;
                }
                s.lock = Some(if self.kws(&["skip", "locked"]) {
                    Locking::Skip
                } else if self.kw("nowait") {
                    Locking::NoWait
                } else {
                    Locking::Wait
                });
            } else {
                break;
            }
        }
        Ok(s)
    }
    fn alias(&mut self) -> R<Option<String>> {
        if self.kw("as") {
            return Ok(Some(self.ident()?));
        }
        match self.peek().clone() {
            Tok::Id(s, q) if q || (!RESERVED.contains(&s.as_str()) && !["set", "join", "left", "right", "inner", "cross", "full", "natural", "window"].contains(&s.as_str())) => {
                self.i += 1;
                Ok(Some(s))
            }
            _ => Ok(None),
        }
    }
    fn items(&mut self) -> R<Vec<(Expr, Option<String>)>> {
        let mut v = vec![];
        loop {
            if self.op("*") {
                v.push((Expr::Star, None));
            } else {
                let e = self.expr()?;
                let a = if self.kw("as") {
                    // any keyword may follow AS
                    match self.next() {
                        Tok::Id(s, _) => Some(s),
                        _ => {
                            self.i -= 1;
                            return self.bad("a name");
                        }
                    }
                } else {
                    match self.peek().clone() {
                        Tok::Id(s, q) if q || !RESERVED.contains(&s.as_str()) => {
                            self.i += 1;
                            Some(s)
                        }
                        _ => None,
                    }
                };
                v.push((e, a));
            }
            if !self.p(",") {
                return Ok(v);
            }
        }
    }
    fn returning(&mut self) -> R<Vec<(Expr, Option<String>)>> {
        if self.kw("returning") { self.items() } else { Ok(vec![]) }
    }
    fn insert(&mut self) -> R<Stmt> {
        self.need_kw("insert")?;
        self.need_kw("into")?;
        let table = self.table_name()?;
        let mut cols = vec![];
        if self.p("(") {
            loop {
                cols.push(self.ident()?);
                if !self.p(",") {
                    break;
                }
            }
            self.need(")")?;
        }
        if self.is_kw("select") || self.is_kw("default") {
            return unsupported("INSERT without VALUES");
        }
        self.need_kw("values")?;
        let mut rows = vec![];
        loop {
            self.need("(")?;
            let mut r = vec![];
            loop {
                r.push(if self.kw("default") { None } else { Some(self.expr()?) });
                if !self.p(",") {
                    break;
                }
            }
            self.need(")")?;
            rows.push(r);
            if !self.p(",") {
                break;
            }
        }
        let mut do_nothing = false;
        if self.kws(&["on", "conflict"]) {
            if !self.kws(&["do", "nothing"]) {
                return unsupported("ON CONFLICT");
            }
            do_nothing = true;
        }
        let returning = self.returning()?;
        Ok(Stmt::Insert { table, cols, rows, do_nothing, returning })
    }
    fn update(&mut self) -> R<Stmt> {
        self.need_kw("update")?;
        let table = self.table_name()?;
        let alias = self.alias()?;
        self.need_kw("set")?;
        let mut set = vec![];
        loop {
            if self.is_p("(") {
                return unsupported("multi-column assignment");
            }
            let c = self.ident()?;
            if !self.op("=") {
                return self.bad("=");
            }
            set.push((c, if self.kw("default") { None } else { Some(self.expr()?) }));
            if !self.p(",") {
                break;
            }
        }
        if self.is_kw("from") {
            return unsupported("UPDATE FROM");
        }
        let filter = if self.kw("where") { Some(self.expr()?) } else { None };
        let returning = self.returning()?;
        Ok(Stmt::Update { table, alias, set, filter, returning })
    }
    fn delete(&mut self) -> R<Stmt> {
        self.need_kw("delete")?;
        self.need_kw("from")?;
        let table = self.table_name()?;
        let alias = self.alias()?;
        if self.is_kw("using") {
            return unsupported("DELETE USING");
        }
        let filter = if self.kw("where") { Some(self.expr()?) } else { None };
        let returning = self.returning()?;
        Ok(Stmt::Delete { table, alias, filter, returning })
    }
    fn create(&mut self) -> R<Stmt> {
        self.need_kw("create")?;
        let replace = self.kws(&["or", "replace"]);
        let Tok::Id(k, false) = self.next() else { return unsupported("CREATE") };
        match k.as_str() {
            "type" => {
                let n = self.table_name()?;
                if !self.kws(&["as", "enum"]) {
                    return unsupported("CREATE TYPE other than an enum");
                }
                self.need("(")?;
                let mut ls = vec![];
                if !self.is_p(")") {
                    loop {
                        match self.next() {
                            Tok::Str(s) => ls.push(s),
                            _ => {
                                self.i -= 1;
                                return self.bad("a label");
                            }
                        }
                        if !self.p(",") {
                            break;
                        }
                    }
                }
                self.need(")")?;
                Ok(Stmt::CreateType(n, ls))
            }
            "table" => {
                let if_not_exists = self.kws(&["if", "not", "exists"]);
                let name = self.table_name()?;
                self.need("(")?;
                let mut cols = vec![];
                loop {
                    if ["primary", "unique", "check", "constraint", "foreign", "exclude"].iter().any(|k| self.is_kw(k)) {
                        return unsupported("table constraints");
                    }
                    let cname = self.ident()?;
                    let mut c = ColDef {
                        name: cname,
                        ty: TypeName { name: String::new(), array: false },
                        serial: false,
                        not_null: false,
                        default: None,
                        primary: false,
                    };
                    if self.kw("serial") || self.kw("serial4") {
                        c.ty.name = "int4".into();
                        c.serial = true;
                        c.not_null = true;
                    } else if self.kw("bigserial") || self.kw("serial8") {
                        c.ty.name = "int8".into();
                        c.serial = true;
                        c.not_null = true;
                    } else {
                        c.ty = self.type_name()?;
                    }
                    loop {
                        if self.kws(&["primary", "key"]) {
                            c.primary = true;
                            c.not_null = true;
                        } else if self.kws(&["not", "null"]) {
                            c.not_null = true;
                        } else if self.kw("null") {
                        } else if self.kw("default") {
                            c.default = Some(self.expr_b()?);
                        } else if self.is_p(",") || self.is_p(")") {
                            break;
                        } else if ["unique", "check", "references", "generated", "collate", "constraint"].iter().any(|k| self.is_kw(k)) {
                            return unsupported("column constraint");
                        } else {
                            return self.bad("a column constraint");
                        }
                    }
                    cols.push(c);
                    if !self.p(",") {
                        break;
                    }
                }
                self.need(")")?;
                Ok(Stmt::CreateTable { name, if_not_exists, cols })
            }
            "unique" => unsupported("unique indexes"),
            "index" => {
                self.kw("concurrently");
                let if_not_exists = self.kws(&["if", "not", "exists"]);
                let name = self.ident()?;
                self.need_kw("on")?;
                let table = self.table_name()?;
                while !self.end() && !self.is_p(";") {
                    self.i += 1;
                }
                Ok(Stmt::CreateIndex { name, if_not_exists, table })
            }
            "function" => {
                let name = self.table_name()?;
                self.need("(")?;
                if !self.p(")") {
                    return unsupported("functions with arguments");
                }
                let mut body = None;
                let mut trigger = false;
                let mut lang = String::new();
                while !self.end() && !self.is_p(";") {
                    if self.kw("returns") {
                        trigger = self.kw("trigger");
                        if !trigger {
                            return unsupported("functions other than triggers");
                        }
                    } else if self.kw("language") {
                        lang = match self.next() {
                            Tok::Id(s, _) | Tok::Str(s) => s,
                            _ => return unsupported("language"),
                        };
                    } else if self.kw("as") {
                        match self.next() {
                            Tok::Str(s) => body = Some(s),
                            _ => {
                                self.i -= 1;
                                return self.bad("the function's body");
                            }
                        }
                    } else if self.kw("volatile") || self.kws(&["security", "definer"]) {
                    } else {
                        return unsupported("function attribute");
                    }
                }
                if !trigger || lang != "plpgsql" {
                    return unsupported("functions other than plpgsql triggers");
                }
                match body {
                    Some(body) => Ok(Stmt::CreateFunction { name, replace, body }),
                    None => err("42P13", "no function body specified"),
                }
            }
            "trigger" => {
                let name = self.ident()?;
                if !self.kw("after") {
                    return unsupported("triggers other than AFTER");
                }
                let (mut insert, mut update, mut delete) = (false, false, false);
                loop {
                    if self.kw("insert") {
                        insert = true;
                    } else if self.kw("update") {
                        if self.is_kw("of") {
                            return unsupported("UPDATE OF");
                        }
                        update = true;
                    } else if self.kw("delete") {
                        delete = true;
                    } else {
                        return self.bad("a trigger event");
                    }
                    if !self.kw("or") {
                        break;
                    }
                }
                self.need_kw("on")?;
                let table = self.table_name()?;
                if !(self.kws(&["for", "each", "row"]) || self.kws(&["for", "row"])) {
                    return unsupported("statement-level triggers");
                }
                let mut when = None;
                if self.kw("when") {
                    self.need("(")?;
                    when = Some(self.expr()?);
                    self.need(")")?;
                }
                self.need_kw("execute")?;
                if !self.kw("function") && !self.kw("procedure") {
                    return self.bad("FUNCTION");
                }
                let func = self.table_name()?;
                self.need("(")?;
                if !self.p(")") {
                    return unsupported("trigger arguments");
                }
                Ok(Stmt::CreateTrigger { name, insert, update, delete, table, when, func })
            }
            _ => unsupported(format!("CREATE {k}")),
        }
    }

    pub fn type_name(&mut self) -> R<TypeName> {
        let n = match self.next() {
            Tok::Id(s, true) => s,
            Tok::Id(s, false) => match s.as_str() {
                "timestamp" => {
                    if self.kws(&["with", "time", "zone"]) {
                        "timestamptz".into()
                    } else {
                        self.kws(&["without", "time", "zone"]);
                        "timestamp".into()
                    }
                }
                "character" => {
                    if self.kw("varying") {
                        "varchar".into()
                    } else {
                        "bpchar".into()
                    }
                }
                "double" => {
                    self.need_kw("precision")?;
                    "float8".into()
                }
                "integer" | "int" => "int4".into(),
                "bigint" => "int8".into(),
                "smallint" => "int2".into(),
                "boolean" => "bool".into(),
                "decimal" => "numeric".into(),
                "pg_catalog" | "public" if self.p(".") => self.ident()?,
                _ => s,
            },
            _ => {
                self.i -= 1;
                return self.bad("a type");
            }
        };
        if self.is_p("(") {
            return unsupported("type modifiers");
        }
        let mut array = false;
        while self.p("[") {
            if let Tok::Num(_) = self.peek() {
                self.i += 1;
            }
            self.need("]")?;
            array = true;
        }
        if self.kw("array") {
            array = true;
        }
        Ok(TypeName { name: n, array })
    }

    pub fn expr(&mut self) -> R<Expr> {
        let mut v = vec![self.and()?];
        while self.kw("or") {
            v.push(self.and()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::Or(v) })
    }
    fn and(&mut self) -> R<Expr> {
        let mut v = vec![self.not()?];
        while self.kw("and") {
            v.push(self.not()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::And(v) })
    }
    fn not(&mut self) -> R<Expr> {
        if self.is_kw("not") && !self.is_kw2("in") {
            self.i += 1;
            return Ok(Expr::Not(Box::new(self.not()?)));
        }
        self.is()
    }
    fn is(&mut self) -> R<Expr> {
        let mut e = self.cmp()?;
        loop {
            if self.kw("is") {
                let neg = self.kw("not");
                if self.kw("null") {
                    e = Expr::IsNull(Box::new(e), neg);
                } else if self.kw("true") {
                    e = Expr::IsBool(Box::new(e), true, neg);
                } else if self.kw("false") {
                    e = Expr::IsBool(Box::new(e), false, neg);
                } else if self.kws(&["distinct", "from"]) {
                    let r = self.cmp()?;
                    e = Expr::IsDistinct(Box::new(e), Box::new(r), neg);
                } else {
                    return self.bad("NULL, TRUE or FALSE");
                }
            } else if self.kw("isnull") {
                e = Expr::IsNull(Box::new(e), false);
            } else if self.kw("notnull") {
                e = Expr::IsNull(Box::new(e), true);
            } else {
                return Ok(e);
            }
        }
    }
    fn cmp(&mut self) -> R<Expr> {
        let e = self.between()?;
        let o = match self.peek() {
            Tok::Op(o) if ["=", "<", ">", "<=", ">=", "<>", "!="].contains(&o.as_str()) => if o == "!=" { "<>".to_owned() } else { o.clone() },
            _ => return Ok(e),
        };
        self.i += 1;
        if self.kw("any") || self.kw("some") {
            return self.quant(e, o, false);
        }
        if self.kw("all") {
            return self.quant(e, o, true);
        }
        let r = self.between()?;
        if let Tok::Op(x) = self.peek() {
            // comparison operators do not associate
            if ["=", "<", ">", "<=", ">=", "<>", "!="].contains(&x.as_str()) {
                return self.bad("the end of the comparison");
            }
        }
        Ok(Expr::Bin(o, Box::new(e), Box::new(r)))
    }
    fn quant(&mut self, l: Expr, op: String, all: bool) -> R<Expr> {
        self.need("(")?;
        if self.is_kw("select") {
            let s = self.select()?;
            self.need(")")?;
            return match (op.as_str(), all) {
                ("=", false) => Ok(Expr::InSub(Box::new(l), Box::new(s), false)),
                ("<>", true) => Ok(Expr::InSub(Box::new(l), Box::new(s), true)),
                _ => unsupported("quantified subquery"),
            };
        }
        let a = self.expr()?;
        self.need(")")?;
        Ok(Expr::Quant(Box::new(l), op, Box::new(a), all))
    }
    fn between(&mut self) -> R<Expr> {
        let mut e = self.other()?;
        loop {
            let save = self.i;
            let neg = self.kw("not");
            if self.kw("between") {
                if self.kw("symmetric") {
                    return unsupported("BETWEEN SYMMETRIC");
                }
                let a = self.other()?;
                self.need_kw("and")?;
                let b = self.other()?;
                e = Expr::Between(Box::new(e), Box::new(a), Box::new(b), neg);
            } else if self.kw("in") {
                self.need("(")?;
                if self.is_kw("select") {
                    let s = self.select()?;
                    self.need(")")?;
                    e = Expr::InSub(Box::new(e), Box::new(s), neg);
                } else {
                    let mut v = vec![];
                    loop {
                        v.push(self.expr()?);
                        if !self.p(",") {
                            break;
                        }
                    }
                    self.need(")")?;
                    e = Expr::InList(Box::new(e), v, neg);
                }
            } else if self.is_kw("like") || self.is_kw("ilike") {
                let f = if self.kw("like") { "like" } else { self.need_kw("ilike")?; "ilike" };
                let p = self.other()?;
                if self.is_kw("escape") {
                    return unsupported("ESCAPE");
                }
                e = Expr::Func(f.into(), vec![e, p], false);
                if neg {
                    e = Expr::Not(Box::new(e));
                }
            } else if self.is_kw("similar") {
                return unsupported("SIMILAR TO");
            } else {
                self.i = save;
                return Ok(e);
            }
        }
    }
    fn other(&mut self) -> R<Expr> {
        let mut e = self.add()?;
        loop {
            let o = match self.peek() {
                Tok::Op(o) if !["=", "<", ">", "<=", ">=", "<>", "!=", "+", "-", "*", "/", "%"].contains(&o.as_str()) => o.clone(),
                _ => return Ok(e),
            };
            self.i += 1;
            if self.kw("any") {
                e = self.quant(e, o, false)?;
                continue;
            }
            let r = self.add()?;
            e = Expr::Bin(o, Box::new(e), Box::new(r));
        }
    }
    fn add(&mut self) -> R<Expr> {
        let mut e = self.mul()?;
        loop {
            let o = match self.peek() {
                Tok::Op(o) if o == "+" || o == "-" => o.clone(),
                _ => return Ok(e),
            };
            self.i += 1;
            let r = self.mul()?;
            e = Expr::Bin(o, Box::new(e), Box::new(r));
        }
    }
    fn mul(&mut self) -> R<Expr> {
        let mut e = self.unary()?;
        loop {
            let o = match self.peek() {
                Tok::Op(o) if o == "*" || o == "/" || o == "%" => o.clone(),
                _ => return Ok(e),
            };
            self.i += 1;
            let r = self.unary()?;
            e = Expr::Bin(o, Box::new(e), Box::new(r));
        }
    }
    fn expr_b(&mut self) -> R<Expr> {
        self.other()
    }
    fn unary(&mut self) -> R<Expr> {
        if self.op("-") {
            return Ok(Expr::Neg(Box::new(self.unary()?)));
        }
        if self.op("+") {
            return self.unary();
        }
        self.postfix()
    }
    fn postfix(&mut self) -> R<Expr> {
        let mut e = self.primary()?;
        loop {
            if self.p("::") {
                let t = self.type_name()?;
                e = Expr::Cast(Box::new(e), t);
            } else if self.is_p("[") {
                return unsupported("subscripts");
            } else if self.kws(&["at", "time", "zone"]) {
                let z = self.primary()?;
                e = Expr::Func("timezone".into(), vec![z, e], false);
            } else if self.is_kw("collate") {
                return unsupported("COLLATE");
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> R<Expr> {
        match self.peek().clone() {
            Tok::Num(n) => {
                self.i += 1;
                Ok(Expr::Num(n))
            }
            Tok::Str(s) => {
                self.i += 1;
                Ok(Expr::Str(s))
            }
            Tok::Param(n) => {
                self.i += 1;
                Ok(Expr::Param(n))
            }
            Tok::P("(") => {
                self.i += 1;
                if self.is_kw("select") {
                    let s = self.select()?;
                    self.need(")")?;
                    return Ok(Expr::Sub(Box::new(s)));
                }
                let e = self.expr()?;
                if self.is_p(",") {
                    return unsupported("row constructors");
                }
                self.need(")")?;
                Ok(e)
            }
            Tok::Id(s, false) => match s.as_str() {
                "null" => {
                    self.i += 1;
                    Ok(Expr::Null)
                }
                "true" => {
                    self.i += 1;
                    Ok(Expr::Bool(true))
                }
                "false" => {
                    self.i += 1;
                    Ok(Expr::Bool(false))
                }
                "current_timestamp" => {
                    self.i += 1;
                    Ok(Expr::Func("now".into(), vec![], false))
                }
                "case" => {
                    self.i += 1;
                    let operand = if self.is_kw("when") { None } else { Some(Box::new(self.expr()?)) };
                    let mut whens = vec![];
                    while self.kw("when") {
                        let c = self.expr()?;
                        self.need_kw("then")?;
                        whens.push((c, self.expr()?));
                    }
                    if whens.is_empty() {
                        return self.bad("WHEN");
                    }
                    let els = if self.kw("else") { Some(Box::new(self.expr()?)) } else { None };
                    self.need_kw("end")?;
                    Ok(Expr::Case(operand, whens, els))
                }
                "cast" if matches!(self.peek2(), Tok::P("(")) => {
                    self.i += 2;
                    let e = self.expr()?;
                    self.need_kw("as")?;
                    let t = self.type_name()?;
                    self.need(")")?;
                    Ok(Expr::Cast(Box::new(e), t))
                }
                "exists" if matches!(self.peek2(), Tok::P("(")) => {
                    self.i += 2;
                    let s = self.select()?;
                    self.need(")")?;
                    Ok(Expr::Exists(Box::new(s)))
                }
                "array" => {
                    self.i += 1;
                    if self.is_p("(") {
                        return unsupported("ARRAY(subquery)");
                    }
                    self.need("[")?;
                    let mut v = vec![];
                    if !self.is_p("]") {
                        loop {
                            v.push(self.expr()?);
                            if !self.p(",") {
                                break;
                            }
                        }
                    }
                    self.need("]")?;
                    Ok(Expr::Array(v))
                }
                "interval" | "timestamptz" | "jsonb" | "timestamp" if matches!(self.peek2(), Tok::Str(_)) => {
                    self.i += 1;
                    let Tok::Str(v) = self.next() else { unreachable!() };
                    Ok(Expr::Cast(Box::new(Expr::Str(v)), TypeName { name: s, array: false }))
                }
                _ if RESERVED.contains(&s.as_str()) && s != "any" && s != "all" => self.bad("an expression"),
                _ => self.name(),
            },
            Tok::Id(_, true) => self.name(),
            _ => self.bad("an expression"),
        }
    }
    fn name(&mut self) -> R<Expr> {
        let a = self.ident()?;
        if self.p("(") {
            return self.call(a);
        }
        if self.p(".") {
            if self.op("*") {
                return Ok(Expr::Star);
            }
            let b = self.ident()?;
            if self.p("(") {
                if a != "pg_catalog" && a != "public" {
                    return err("3F000", format!("schema \"{a}\" does not exist"));
                }
                return self.call(b);
            }
            if self.p(".") {
                let c = self.ident()?;
                return Ok(Expr::Col(Some(b), c));
            }
            return Ok(Expr::Col(Some(a), b));
        }
        Ok(Expr::Col(None, a))
    }
    fn call(&mut self, name: String) -> R<Expr> {
        if self.is_kw("distinct") {
            return unsupported("DISTINCT aggregates");
        }
        if self.op("*") {
            self.need(")")?;
            return Ok(Expr::Func(name, vec![], true));
        }
        let mut v = vec![];
        if !self.is_p(")") {
            loop {
                v.push(self.expr()?);
                if !self.p(",") {
                    break;
                }
            }
        }
        self.need(")")?;
        if self.is_kw("filter") || self.is_kw("over") {
            return unsupported("FILTER and OVER");
        }
        Ok(Expr::Func(name, v, false))
    }
}

/// PL/pgSQL, as far as trigger functions here need it.
#[derive(Debug, Clone, PartialEq)]
pub enum Pl {
    Assign(String, Expr),
    Perform(Expr),
    If(Vec<(Expr, Vec<Pl>)>, Vec<Pl>),
    Return(Option<Expr>),
    Null,
}

#[derive(Debug, Clone, PartialEq)]
pub struct PlFn {
    pub vars: Vec<(String, TypeName, Option<Expr>)>,
    pub body: Vec<Pl>,
}

impl Parser {
    pub fn plfn(&mut self) -> R<PlFn> {
        let mut vars = vec![];
        if self.kw("declare") {
            while !self.is_kw("begin") {
                let n = self.ident()?;
                let t = self.type_name()?;
                let d = if self.p(":=") || self.op("=") || self.kw("default") { Some(self.expr()?) } else { None };
                self.need(";")?;
                vars.push((n, t, d));
            }
        }
        self.need_kw("begin")?;
        let body = self.pls()?;
        self.need_kw("end")?;
        self.p(";");
        if !self.end() {
            return self.bad("the end of the function");
        }
        Ok(PlFn { vars, body })
    }
    fn pls(&mut self) -> R<Vec<Pl>> {
        let mut v = vec![];
        while !["end", "else", "elsif", "elseif", "exception"].iter().any(|k| self.is_kw(k)) {
            if self.end() {
                return self.bad("END");
            }
            if self.kw("if") {
                let mut arms = vec![];
                let c = self.expr()?;
                self.need_kw("then")?;
                arms.push((c, self.pls()?));
                let mut els = vec![];
                loop {
                    if self.kw("elsif") || self.kw("elseif") {
                        let c = self.expr()?;
                        self.need_kw("then")?;
                        arms.push((c, self.pls()?));
                    } else if self.kw("else") {
                        els = self.pls()?;
                    } else {
                        break;
                    }
                }
                self.need_kw("end")?;
                self.need_kw("if")?;
                v.push(Pl::If(arms, els));
            } else if self.kw("perform") {
                v.push(Pl::Perform(self.expr()?));
            } else if self.kw("return") {
                v.push(Pl::Return(if self.is_p(";") { None } else { Some(self.expr()?) }));
            } else if self.kw("null") {
                v.push(Pl::Null);
            } else if matches!(self.peek2(), Tok::P(":=")) || matches!(self.peek2(), Tok::Op(o) if o == "=") {
                let n = self.ident()?;
                self.i += 1;
                v.push(Pl::Assign(n, self.expr()?));
            } else {
                return unsupported(format!("PL/pgSQL statement {:?}", self.peek()));
            }
            self.need(";")?;
        }
        if self.is_kw("exception") {
            return unsupported("exception handlers in functions");
        }
        Ok(v)
    }
}
