//! PostgreSQL's lexical structure and a parser for the DDL subset podo can produce.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tok {
    /// name after case folding, and whether it was quoted
    Id(String, bool),
    Str(String),
    Num(String),
    Param(usize),
    P(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PgErr {
    pub code: &'static str,
    pub msg: String,
}
pub type R<T> = Result<T, PgErr>;

pub fn err<T>(code: &'static str, msg: impl Into<String>) -> R<T> {
    Err(PgErr { code, msg: msg.into() })
}
pub fn syntax<T>(msg: impl Into<String>) -> R<T> {
    err("42601", msg)
}

const PUNCT: [&str; 35] = [
    "::", ":=", "=>", "->", "<=", ">=", "<>", "!=", "||", "..", "(", ")", "[", "]", ",", ";", ".", "+", "-", "*", "/", "<", ">", "=", "%", "^", "~", "!", "@", "#",
    "&", "|", "?", ":", "`",
];

pub fn lex(s: &str) -> R<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    'next: while i < c.len() {
        let ch = c[i];
        let rest = |k: usize| c.get(i + k).copied().unwrap_or('\0');
        if ch == '\0' {
            return err("22021", "invalid byte sequence: 0x00");
        }
        if ch.is_ascii_whitespace() || ch == '\u{b}' {
            i += 1;
            continue;
        }
        if ch == '-' && rest(1) == '-' {
            while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && rest(1) == '*' {
            let mut depth = 0;
            loop {
                if i + 1 >= c.len() {
                    return syntax("unterminated /* comment");
                }
                if c[i] == '/' && c[i + 1] == '*' {
                    depth += 1;
                    i += 2;
                } else if c[i] == '*' && c[i + 1] == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        continue 'next;
                    }
                } else {
                    i += 1;
                }
            }
        }
        if ch == '"' {
            let mut w = String::new();
            i += 1;
            loop {
                if i >= c.len() {
                    return syntax("unterminated quoted identifier");
                }
                if c[i] == '"' {
                    if i + 1 < c.len() && c[i + 1] == '"' {
                        w.push('"');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                w.push(c[i]);
                i += 1;
            }
            if w.is_empty() {
                return syntax("zero-length delimited identifier");
            }
            out.push(Tok::Id(w, true));
            continue;
        }
        let estr = (ch == 'E' || ch == 'e') && rest(1) == '\'';
        if ch == '\'' || estr {
            let mut w = String::new();
            i += if estr { 2 } else { 1 };
            loop {
                if i >= c.len() {
                    return syntax("unterminated quoted string");
                }
                if estr && c[i] == '\\' && i + 1 < c.len() {
                    w.push(match c[i + 1] {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        x => x,
                    });
                    i += 2;
                    continue;
                }
                if c[i] == '\'' {
                    if i + 1 < c.len() && c[i + 1] == '\'' {
                        w.push('\'');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                w.push(c[i]);
                i += 1;
            }
            out.push(Tok::Str(w));
            continue;
        }
        if ch == '$' {
            if rest(1).is_ascii_digit() {
                let mut n = 0;
                i += 1;
                while i < c.len() && c[i].is_ascii_digit() {
                    n = n * 10 + c[i] as usize - '0' as usize;
                    i += 1;
                }
                out.push(Tok::Param(n));
                continue;
            }
            // dollar quote
            let mut j = i + 1;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            if j < c.len() && c[j] == '$' {
                let tag: Vec<char> = c[i..=j].to_vec();
                let mut k = j + 1;
                while k + tag.len() <= c.len() {
                    if c[k..k + tag.len()] == tag[..] {
                        out.push(Tok::Str(c[j + 1..k].iter().collect()));
                        i = k + tag.len();
                        continue 'next;
                    }
                    k += 1;
                }
                return syntax("unterminated dollar-quoted string");
            }
            return syntax("syntax error at or near \"$\"");
        }
        if ch.is_ascii_digit() || (ch == '.' && rest(1).is_ascii_digit()) {
            let st = i;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            if i < c.len() && (c[i] == 'e' || c[i] == 'E') && i + 1 < c.len() && (c[i + 1].is_ascii_digit() || c[i + 1] == '-') {
                i += 2;
                while i < c.len() && c[i].is_ascii_digit() {
                    i += 1;
                }
            }
            if i < c.len() && (c[i].is_alphabetic() || c[i] == '_') {
                return syntax("trailing junk after numeric literal");
            }
            out.push(Tok::Num(c[st..i].iter().collect()));
            continue;
        }
        if ch.is_ascii_alphabetic() || ch == '_' || ch as u32 >= 0x80 {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '$' || c[i] as u32 >= 0x80) {
                i += 1;
            }
            let w: String = c[st..i].iter().collect();
            out.push(Tok::Id(w.to_ascii_lowercase(), false));
            continue;
        }
        for p in PUNCT {
            let pc: Vec<char> = p.chars().collect();
            if c[i..].starts_with(&pc) {
                out.push(Tok::P(p));
                i += pc.len();
                continue 'next;
            }
        }
        return syntax(format!("syntax error at or near {ch:?}"));
    }
    Ok(out)
}

/// Key words that cannot be a bare column, table or other name.
pub const RESERVED: [&str; 77] = [
    "all", "analyse", "analyze", "and", "any", "array", "as", "asc", "asymmetric", "both", "case", "cast", "check", "collate", "column", "constraint", "create",
    "current_catalog", "current_date", "current_role", "current_time", "current_timestamp", "current_user", "default", "deferrable", "desc", "distinct", "do",
    "else", "end", "except", "false", "fetch", "for", "foreign", "from", "grant", "group", "having", "in", "initially", "intersect", "into", "lateral", "leading",
    "limit", "localtime", "localtimestamp", "not", "null", "offset", "on", "only", "or", "order", "placing", "primary", "references", "returning", "select",
    "session_user", "some", "symmetric", "system_user", "table", "then", "to", "trailing", "true", "union", "unique", "user", "using", "variadic", "when", "where", "window",
];

pub fn tok_text(t: &Tok) -> String {
    match t {
        Tok::Id(n, q) => {
            let simple = !n.is_empty()
                && n.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_' || c as u32 >= 0x80)
                && !n.chars().next().unwrap().is_ascii_digit()
                && !(*q && RESERVED.contains(&n.as_str()));
            if simple {
                n.clone()
            } else {
                format!("\"{}\"", n.replace('"', "\"\""))
            }
        }
        Tok::Str(s) => format!("'{}'", s.replace('\'', "''")),
        Tok::Num(n) => n.clone(),
        Tok::Param(n) => format!("${n}"),
        Tok::P(p) => p.to_string(),
    }
}

pub fn join(t: &[Tok]) -> String {
    t.iter().map(tok_text).collect::<Vec<_>>().join(" ")
}

/// One spelling per expression: tokens, without redundant outer parentheses.
pub fn norm_expr(s: &str) -> R<String> {
    Ok(norm_toks(&lex(s)?))
}

pub fn norm_toks(t: &[Tok]) -> String {
    let mut t = t;
    while t.len() >= 2 && t[0] == Tok::P("(") && t[t.len() - 1] == Tok::P(")") {
        let mut d = 0;
        let mut whole = true;
        for (i, x) in t.iter().enumerate() {
            if *x == Tok::P("(") {
                d += 1;
            } else if *x == Tok::P(")") {
                d -= 1;
                if d == 0 && i + 1 < t.len() {
                    whole = false;
                }
            }
        }
        if !whole {
            break;
        }
        t = &t[1..t.len() - 1];
    }
    join(t)
}

pub fn norm_type(t: &[Tok]) -> String {
    if matches!(t.first(), Some(Tok::Id(w, false)) if w == "setof") {
        return format!("setof {}", norm_type(&t[1..]));
    }
    let words: Vec<String> = t.iter().map(|x| if *x == Tok::Id("char".into(), true) { "\"char\"".into() } else { tok_text(x) }).collect();
    let s = words.join(" ").replace(" ( ", "(").replace(" )", ")").replace(" [ ]", "[]").replace(" , ", ",");
    let s = s.strip_prefix("pg_catalog . ").or(s.strip_prefix("public . ")).unwrap_or(&s).to_owned();
    let n = s.find('[').unwrap_or(s.len());
    let (s, dims) = s.split_at(n);
    // `name(modifiers) rest`
    let (name, mods, rest) = match (s.find('('), s.find(')')) {
        (Some(a), Some(b)) if a < b => (s[..a].trim(), &s[a..=b], s[b + 1..].trim()),
        _ => (s, "", ""),
    };
    let whole = if rest.is_empty() { name.to_owned() } else { format!("{name} {rest}") };
    let name = match whole.as_str() {
        "integer" | "int" => "int4",
        "bigint" => "int8",
        "smallint" => "int2",
        "boolean" => "bool",
        "double precision" | "float" => "float8",
        "real" => "float4",
        "decimal" | "dec" => "numeric",
        "timestamp with time zone" => "timestamptz",
        "timestamp without time zone" => "timestamp",
        "time with time zone" => "timetz",
        "time without time zone" => "time",
        "character varying" | "char varying" => "varchar",
        "character" | "char" if mods.is_empty() => "bpchar(1)",
        "character" | "char" => "bpchar",
        "bit varying" => "varbit",
        "bit" if mods.is_empty() => "bit(1)",
        x => x,
    };
    // a precision alone means no digits after the point
    let whole = if name == "numeric" && !mods.is_empty() && !mods.contains(',') { mods.replace(')', ",0)") } else { mods.to_owned() };
    let mods = whole.as_str();
    // arrays have no size and no number of dimensions
    format!("{name}{mods}{}", if dims.is_empty() { "" } else { "[]" })
}

pub fn norm_type_str(s: &str) -> R<String> {
    Ok(norm_type(&lex(s)?))
}

pub struct P {
    pub t: Vec<Tok>,
    pub i: usize,
}

pub type QName = (Option<String>, String);

#[derive(Clone, Debug, PartialEq)]
pub struct ColDef {
    pub name: String,
    pub ty: String,
    pub nn: bool,
    pub def: Option<Vec<Tok>>,
    /// constraints written with the column, name optional
    pub cons: Vec<(Option<String>, TCon)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TConKind {
    Pk(Vec<String>),
    Uq(Vec<String>),
    Ck(Vec<Tok>),
    Fk { cols: Vec<String>, target: QName, tc: Vec<String>, m: String, u: String, d: String },
}
#[derive(Clone, Debug, PartialEq)]
pub struct TCon {
    pub kind: TConKind,
    pub deferrable: bool,
    pub deferred: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    AddCol(ColDef, bool),
    AddCon(Option<String>, TCon),
    DropCol(String, bool, bool),
    DropCon(String, bool, bool),
    SetType(String, String, Option<Vec<Tok>>),
    SetDefault(String, Vec<Tok>),
    DropDefault(String),
    SetNN(String, bool),
    AlterCon(String, bool, bool),
    RenameCol(String, String),
    RenameTo(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SeqOpts {
    pub ty: Option<String>,
    pub inc: Option<i64>,
    pub min: Option<Option<i64>>,
    pub max: Option<Option<i64>>,
    pub start: Option<i64>,
    pub cache: Option<i64>,
    pub cycle: Option<bool>,
    /// Some(None): OWNED BY NONE
    pub owned: Option<Option<Vec<String>>>,
    /// Some(None): from the start value
    pub restart: Option<Option<i64>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Table,
    View,
    Index,
    Seq,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ddl {
    CreateSchema(String, bool),
    CreateTable(QName, Vec<ColDef>, Vec<(Option<String>, TCon)>, bool),
    AlterTable(QName, Vec<Act>),
    CreateIndex { name: Option<String>, table: QName, unique: bool, method: String, keys: Vec<Vec<Tok>>, ine: bool },
    CreateSeq(QName, SeqOpts, bool),
    AlterSeq(QName, SeqOpts),
    CreateView(QName, Vec<Tok>, bool),
    CreateFn { name: QName, args: Vec<(String, String)>, ret: String, lang: String, vol: String, body: String, replace: bool },
    DropSchema(Vec<String>, bool, bool),
    Drop(Kind, Vec<QName>, bool, bool),
    DropFn(QName, Option<Vec<String>>, bool, bool),
}

impl P {
    pub fn new(s: &str) -> R<P> {
        let mut t = lex(s)?;
        while t.last() == Some(&Tok::P(";")) {
            t.pop();
        }
        if t.contains(&Tok::P(";")) {
            return syntax("cannot insert multiple commands into a prepared statement");
        }
        Ok(P { t, i: 0 })
    }
    pub fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    pub fn end(&self) -> bool {
        self.i >= self.t.len()
    }
    pub fn near<T>(&self) -> R<T> {
        match self.peek() {
            Some(t) => syntax(format!("syntax error at or near {}", tok_text(t))),
            None => syntax("syntax error at end of input"),
        }
    }
    pub fn done(&self) -> R<()> {
        if self.end() {
            Ok(())
        } else {
            self.near()
        }
    }
    pub fn is(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x, false)) if x == w)
    }
    pub fn is_at(&self, k: usize, w: &str) -> bool {
        matches!(self.t.get(self.i + k), Some(Tok::Id(x, false)) if x == w)
    }
    /// All of these words, in this order.
    pub fn kw(&mut self, words: &str) -> bool {
        let ws: Vec<&str> = words.split(' ').collect();
        if ws.iter().enumerate().all(|(k, w)| self.is_at(k, w)) {
            self.i += ws.len();
            return true;
        }
        false
    }
    /// Is this name next, followed by a dot?
    pub fn p_at(&self, w: &str) -> bool {
        self.is(w) && matches!(self.t.get(self.i + 1), Some(Tok::P(".")))
    }
    pub fn need(&mut self, words: &str) -> R<()> {
        if self.kw(words) {
            Ok(())
        } else {
            self.near()
        }
    }
    pub fn p(&mut self, x: &str) -> bool {
        if matches!(self.peek(), Some(Tok::P(y)) if *y == x) {
            self.i += 1;
            return true;
        }
        false
    }
    pub fn need_p(&mut self, x: &str) -> R<()> {
        if self.p(x) {
            Ok(())
        } else {
            self.near()
        }
    }
    pub fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Id(n, q)) if *q || !RESERVED.contains(&n.as_str()) => {
                let n = n.clone();
                self.i += 1;
                Ok(n)
            }
            _ => self.near(),
        }
    }
    pub fn qname(&mut self) -> R<QName> {
        let a = self.name()?;
        if self.p(".") {
            return Ok((Some(a), self.name()?));
        }
        Ok((None, a))
    }
    pub fn names(&mut self) -> R<Vec<String>> {
        self.need_p("(")?;
        let mut v = vec![self.name()?];
        while self.p(",") {
            v.push(self.name()?);
        }
        self.need_p(")")?;
        Ok(v)
    }
    /// Tokens up to one that `stop` accepts at depth 0 (or the end); at least one.
    pub fn until(&mut self, stop: &dyn Fn(&Tok) -> bool) -> R<Vec<Tok>> {
        let mut d = 0i32;
        let mut v = Vec::new();
        while let Some(t) = self.peek() {
            if d == 0 && !v.is_empty() && stop(t) {
                break;
            }
            match t {
                Tok::P("(") | Tok::P("[") => d += 1,
                Tok::P(")") | Tok::P("]") => {
                    if d == 0 {
                        break;
                    }
                    d -= 1
                }
                Tok::P(",") if d == 0 => break,
                Tok::P(";") => return self.near(),
                _ => {}
            }
            v.push(t.clone());
            self.i += 1;
        }
        if d != 0 || v.is_empty() {
            return self.near();
        }
        Ok(v)
    }
    fn parens(&mut self) -> R<Vec<Tok>> {
        self.need_p("(")?;
        let v = self.until(&|_| false)?;
        // commas inside function calls are at depth > 0; a bare one is not an expression
        self.need_p(")")?;
        Ok(v)
    }
    pub fn type_name(&mut self) -> R<String> {
        let mut v: Vec<Tok> = Vec::new();
        // the first word, possibly qualified
        let first = match self.peek() {
            Some(Tok::Id(..)) => self.peek().unwrap().clone(),
            _ => return self.near(),
        };
        if let Tok::Id(n, false) = &first {
            if RESERVED.contains(&n.as_str()) {
                return self.near();
            }
        }
        self.i += 1;
        let w = if let Tok::Id(n, _) = &first { n.clone() } else { String::new() };
        v.push(first);
        if self.p(".") {
            v.push(Tok::P("."));
            let n = self.name()?;
            v.push(Tok::Id(n, true));
        }
        match w.as_str() {
            "double" if self.kw("precision") => v.push(Tok::Id("precision".into(), false)),
            "character" | "char" | "bit" if self.kw("varying") => v.push(Tok::Id("varying".into(), false)),
            _ => {}
        }
        if self.p("(") {
            v.push(Tok::P("("));
            loop {
                match self.peek() {
                    Some(x @ (Tok::Num(_) | Tok::Id(..) | Tok::Str(_))) => {
                        v.push(x.clone());
                        self.i += 1
                    }
                    _ => return self.near(),
                }
                if self.p(",") {
                    v.push(Tok::P(","));
                    continue;
                }
                break;
            }
            self.need_p(")")?;
            v.push(Tok::P(")"));
        }
        if w == "timestamp" || w == "time" {
            for x in ["with time zone", "without time zone"] {
                if self.kw(x) {
                    for p in x.split(' ') {
                        v.push(Tok::Id(p.into(), false));
                    }
                }
            }
        }
        while self.p("[") {
            self.need_p("]")?;
            v.push(Tok::P("["));
            v.push(Tok::P("]"));
        }
        Ok(norm_type(&v))
    }
    fn int(&mut self) -> R<i64> {
        let neg = self.p("-");
        if !neg {
            self.p("+");
        }
        match self.peek() {
            Some(Tok::Num(n)) => {
                let t = if neg { format!("-{n}") } else { n.clone() };
                match t.parse() {
                    Ok(v) => {
                        self.i += 1;
                        Ok(v)
                    }
                    Err(_) => err("22003", format!("value {t} is out of range for type bigint")),
                }
            }
            _ => self.near(),
        }
    }
    fn deferral(&mut self) -> R<(bool, bool)> {
        let (mut d, mut i): (Option<bool>, Option<bool>) = (None, None);
        loop {
            if self.kw("deferrable") {
                if d.replace(true).is_some() {
                    return syntax("multiple DEFERRABLE/NOT DEFERRABLE clauses not allowed");
                }
            } else if self.kw("not deferrable") {
                if d.replace(false).is_some() {
                    return syntax("multiple DEFERRABLE/NOT DEFERRABLE clauses not allowed");
                }
            } else if self.kw("initially deferred") {
                if i.replace(true).is_some() {
                    return syntax("multiple INITIALLY IMMEDIATE/DEFERRED clauses not allowed");
                }
            } else if self.kw("initially immediate") {
                if i.replace(false).is_some() {
                    return syntax("multiple INITIALLY IMMEDIATE/DEFERRED clauses not allowed");
                }
            } else {
                break;
            }
        }
        if i == Some(true) && d == Some(false) {
            return syntax("constraint declared INITIALLY DEFERRED must be DEFERRABLE");
        }
        Ok((d.unwrap_or(i == Some(true)), i.unwrap_or(false)))
    }
    fn action(&mut self) -> R<String> {
        for a in ["no action", "restrict", "cascade", "set null", "set default"] {
            if self.kw(a) {
                return Ok(a.to_uppercase());
            }
        }
        self.near()
    }
    fn references(&mut self, cols: Vec<String>) -> R<TConKind> {
        let target = self.qname()?;
        let tc = if matches!(self.peek(), Some(Tok::P("("))) { self.names()? } else { vec![] };
        let mut m = "SIMPLE".to_owned();
        let (mut u, mut d) = ("NO ACTION".to_owned(), "NO ACTION".to_owned());
        if self.kw("match") {
            m = if self.kw("simple") {
                "SIMPLE".into()
            } else if self.kw("full") {
                "FULL".into()
            } else if self.kw("partial") {
                return err("0A000", "MATCH PARTIAL not yet implemented");
            } else {
                return self.near();
            };
        }
        let (mut su, mut sd) = (false, false);
        loop {
            if !su && self.kw("on update") {
                u = self.action()?;
                su = true;
            } else if !sd && self.kw("on delete") {
                d = self.action()?;
                sd = true;
            } else {
                break;
            }
        }
        Ok(TConKind::Fk { cols, target, tc, m, u, d })
    }
    fn tcon(&mut self) -> R<TCon> {
        let kind = if self.kw("primary key") {
            TConKind::Pk(self.names()?)
        } else if self.kw("unique") {
            TConKind::Uq(self.names()?)
        } else if self.kw("check") {
            TConKind::Ck(self.parens()?)
        } else if self.kw("foreign key") {
            let c = self.names()?;
            self.need("references")?;
            self.references(c)?
        } else {
            return self.near();
        };
        let (deferrable, deferred) = self.deferral()?;
        if deferrable && matches!(kind, TConKind::Ck(_)) {
            return err("0A000", "CHECK constraints cannot be marked DEFERRABLE");
        }
        Ok(TCon { kind, deferrable, deferred })
    }
    fn coldef(&mut self) -> R<ColDef> {
        let name = self.name()?;
        let mut ty = self.type_name()?;
        let mut c = ColDef { name: name.clone(), ty: String::new(), nn: false, def: None, cons: vec![] };
        let mut null = false;
        loop {
            let cn = if self.kw("constraint") { Some(self.name()?) } else { None };
            if self.kw("not null") {
                if null {
                    return syntax("conflicting NULL/NOT NULL declarations");
                }
                c.nn = true;
            } else if self.kw("null") {
                if c.nn {
                    return syntax("conflicting NULL/NOT NULL declarations");
                }
                null = true;
            } else if self.kw("default") {
                if c.def.is_some() {
                    return syntax("multiple default values specified for column");
                }
                let stops = ["constraint", "not", "null", "check", "default", "primary", "unique", "references", "generated", "collate", "deferrable", "initially"];
                c.def = Some(self.until(&|t| matches!(t, Tok::Id(w, false) if stops.contains(&w.as_str())))?);
                check_expr(c.def.as_ref().unwrap())?;
            } else if self.kw("primary key") {
                c.cons.push((cn, TCon { kind: TConKind::Pk(vec![name.clone()]), deferrable: false, deferred: false }));
            } else if self.kw("unique") {
                c.cons.push((cn, TCon { kind: TConKind::Uq(vec![name.clone()]), deferrable: false, deferred: false }));
            } else if self.kw("check") {
                let e = self.parens()?;
                c.cons.push((cn, TCon { kind: TConKind::Ck(e), deferrable: false, deferred: false }));
            } else if self.kw("references") {
                let k = self.references(vec![name.clone()])?;
                c.cons.push((cn, TCon { kind: k, deferrable: false, deferred: false }));
            } else if cn.is_some() {
                return self.near();
            } else {
                break;
            }
            if let Some((_, last)) = c.cons.last_mut() {
                let (a, b) = self.deferral()?;
                last.deferrable |= a;
                last.deferred |= b;
            }
        }
        if ["serial", "bigserial", "smallserial"].contains(&ty.as_str()) {
            c.nn = true;
        }
        std::mem::swap(&mut c.ty, &mut ty);
        Ok(c)
    }
    fn seq_opts(&mut self, alter: bool) -> R<SeqOpts> {
        let mut o = SeqOpts::default();
        macro_rules! set {
            ($f:ident, $v:expr) => {
                if o.$f.replace($v).is_some() {
                    return syntax("conflicting or redundant options");
                }
            };
        }
        while !self.end() {
            if self.kw("as") {
                set!(ty, self.type_name()?);
            } else if self.kw("increment") {
                self.kw("by");
                set!(inc, self.int()?);
            } else if self.kw("minvalue") {
                set!(min, Some(self.int()?));
            } else if self.kw("no minvalue") {
                set!(min, None);
            } else if self.kw("maxvalue") {
                set!(max, Some(self.int()?));
            } else if self.kw("no maxvalue") {
                set!(max, None);
            } else if self.kw("start") {
                self.kw("with");
                set!(start, self.int()?);
            } else if self.kw("cache") {
                set!(cache, self.int()?);
            } else if self.kw("cycle") {
                set!(cycle, true);
            } else if self.kw("no cycle") {
                set!(cycle, false);
            } else if alter && self.kw("restart") {
                let v = if self.kw("with") || matches!(self.peek(), Some(Tok::Num(_)) | Some(Tok::P("-"))) { Some(self.int()?) } else { None };
                set!(restart, v);
            } else if self.kw("owned by") {
                if self.is("none") {
                    self.i += 1;
                    set!(owned, None);
                } else {
                    let mut v = vec![self.name()?];
                    while self.p(".") {
                        v.push(self.name()?);
                    }
                    if v.len() < 2 {
                        return syntax("invalid OWNED BY option");
                    }
                    set!(owned, Some(v));
                }
            } else {
                return self.near();
            }
        }
        Ok(o)
    }
    fn cascade(&mut self) -> bool {
        if self.kw("cascade") {
            return true;
        }
        self.kw("restrict");
        false
    }
    pub fn args(&mut self) -> R<Vec<(String, String)>> {
        self.need_p("(")?;
        let mut v = Vec::new();
        if self.p(")") {
            return Ok(v);
        }
        loop {
            for m in ["in", "out", "inout", "variadic"] {
                if self.is(m) {
                    self.i += 1;
                }
            }
            // name type | type
            let save = self.i;
            let ty = self.type_name()?;
            let more = !matches!(self.peek(), Some(Tok::P(",")) | Some(Tok::P(")")) | Some(Tok::P("="))) && !self.is("default");
            let (n, ty) = if more {
                self.i = save;
                let n = self.name()?;
                (n, self.type_name()?)
            } else {
                (String::new(), ty)
            };
            if self.kw("default") || self.p("=") {
                self.until(&|_| false)?;
            }
            v.push((n, ty));
            if self.p(",") {
                continue;
            }
            self.need_p(")")?;
            return Ok(v);
        }
    }
    fn action_list(&mut self) -> R<Vec<Act>> {
        let mut v = Vec::new();
        if self.kw("rename to") {
            return Ok(vec![Act::RenameTo(self.name()?)]);
        }
        if self.kw("rename") {
            self.kw("column");
            let a = self.name()?;
            self.need("to")?;
            return Ok(vec![Act::RenameCol(a, self.name()?)]);
        }
        loop {
            if self.kw("add") {
                if self.kw("constraint") {
                    let n = self.name()?;
                    v.push(Act::AddCon(Some(n), self.tcon()?));
                } else if self.is("primary") || self.is("unique") || self.is("check") || self.is("foreign") {
                    v.push(Act::AddCon(None, self.tcon()?));
                } else {
                    self.kw("column");
                    let ine = self.kw("if not exists");
                    v.push(Act::AddCol(self.coldef()?, ine));
                }
            } else if self.kw("drop constraint") {
                let ie = self.kw("if exists");
                let n = self.name()?;
                v.push(Act::DropCon(n, ie, self.cascade()));
            } else if self.kw("drop") {
                self.kw("column");
                let ie = self.kw("if exists");
                let n = self.name()?;
                v.push(Act::DropCol(n, ie, self.cascade()));
            } else if self.kw("alter constraint") {
                let n = self.name()?;
                let (a, b) = self.deferral()?;
                v.push(Act::AlterCon(n, a, b));
            } else if self.kw("alter") {
                self.kw("column");
                let n = self.name()?;
                if self.kw("set data type") || self.kw("type") {
                    let t = self.type_name()?;
                    let u = if self.kw("using") { Some(self.until(&|_| false)?) } else { None };
                    v.push(Act::SetType(n, t, u));
                } else if self.kw("set default") {
                    let e = self.until(&|_| false)?;
                    check_expr(&e)?;
                    v.push(Act::SetDefault(n, e));
                } else if self.kw("drop default") {
                    v.push(Act::DropDefault(n));
                } else if self.kw("set not null") {
                    v.push(Act::SetNN(n, true));
                } else if self.kw("drop not null") {
                    v.push(Act::SetNN(n, false));
                } else {
                    return self.near();
                }
            } else {
                return self.near();
            }
            if !self.p(",") {
                return Ok(v);
            }
        }
    }
    pub fn ddl(&mut self) -> R<Ddl> {
        let d = self.ddl0()?;
        self.done()?;
        Ok(d)
    }
    fn ddl0(&mut self) -> R<Ddl> {
        if self.kw("create schema") {
            let ine = self.kw("if not exists");
            return Ok(Ddl::CreateSchema(self.name()?, ine));
        }
        if self.kw("create table") {
            let ine = self.kw("if not exists");
            let n = self.qname()?;
            let (mut cols, mut cons) = (Vec::new(), Vec::new());
            self.need_p("(")?;
            if !self.p(")") {
                loop {
                    if self.kw("constraint") {
                        let cn = self.name()?;
                        cons.push((Some(cn), self.tcon()?));
                    } else if self.is("primary") || self.is("unique") || self.is("check") || self.is("foreign") {
                        cons.push((None, self.tcon()?));
                    } else {
                        cols.push(self.coldef()?);
                    }
                    if !self.p(",") {
                        break;
                    }
                }
                self.need_p(")")?;
            }
            return Ok(Ddl::CreateTable(n, cols, cons, ine));
        }
        if self.kw("alter table") {
            self.kw("only");
            let n = self.qname()?;
            let a = self.action_list()?;
            return Ok(Ddl::AlterTable(n, a));
        }
        let save = self.i;
        if self.kw("create unique index") || self.kw("create index") {
            let unique = self.t[save + 1] == Tok::Id("unique".into(), false);
            let ine = self.kw("if not exists");
            let name = if self.is("on") { None } else { Some(self.name()?) };
            self.need("on")?;
            self.kw("only");
            let table = self.qname()?;
            let method = if self.kw("using") { self.name()? } else { "btree".into() };
            self.need_p("(")?;
            let mut keys = Vec::new();
            loop {
                let k = self.until(&|_| false)?;
                check_key(&k)?;
                keys.push(k);
                if !self.p(",") {
                    break;
                }
            }
            self.need_p(")")?;
            return Ok(Ddl::CreateIndex { name, table, unique, method, keys, ine });
        }
        if self.kw("create sequence") {
            let ine = self.kw("if not exists");
            let n = self.qname()?;
            return Ok(Ddl::CreateSeq(n, self.seq_opts(false)?, ine));
        }
        if self.kw("alter sequence") {
            let n = self.qname()?;
            let o = self.seq_opts(true)?;
            if o == SeqOpts::default() {
                return self.near();
            }
            return Ok(Ddl::AlterSeq(n, o));
        }
        if self.kw("create view") || self.kw("create or replace view") {
            let replace = self.t[save + 1] == Tok::Id("or".into(), false);
            let n = self.qname()?;
            self.need("as")?;
            if !(self.is("select") || self.is("with") || self.is("values") || self.is("table") || matches!(self.peek(), Some(Tok::P("(")))) {
                return self.near();
            }
            let mut q = Vec::new();
            while let Some(t) = self.peek() {
                q.push(t.clone());
                self.i += 1;
            }
            return Ok(Ddl::CreateView(n, q, replace));
        }
        if self.kw("create function") || self.kw("create or replace function") {
            let replace = self.t[save + 1] == Tok::Id("or".into(), false);
            let name = self.qname()?;
            let args = self.args()?;
            let (mut ret, mut lang, mut vol, mut body) = (None, None, None, None);
            while !self.end() {
                if self.kw("returns") {
                    let set = self.kw("setof");
                    let t = self.type_name()?;
                    ret = Some(if set { format!("setof {t}") } else { t });
                } else if self.kw("language") {
                    let l = match self.peek() {
                        Some(Tok::Str(s)) => {
                            let s = s.to_lowercase();
                            self.i += 1;
                            s
                        }
                        _ => self.name()?,
                    };
                    if lang.replace(l).is_some() {
                        return syntax("conflicting or redundant options");
                    }
                } else if self.is("immutable") || self.is("stable") || self.is("volatile") {
                    let Some(Tok::Id(w, _)) = self.peek().cloned() else { unreachable!() };
                    self.i += 1;
                    if vol.replace(w.to_uppercase()).is_some() {
                        return syntax("conflicting or redundant options");
                    }
                } else if self.kw("as") {
                    match self.peek() {
                        Some(Tok::Str(s)) => {
                            let s = s.clone();
                            self.i += 1;
                            if body.replace(s).is_some() {
                                return syntax("conflicting or redundant options");
                            }
                        }
                        _ => return self.near(),
                    }
                } else {
                    return self.near();
                }
            }
            let Some(body) = body else { return err("42P13", "no function body specified") };
            let Some(lang) = lang else { return err("42P13", "no language specified") };
            let ret = ret.unwrap_or_else(|| "void".into());
            return Ok(Ddl::CreateFn { name, args, ret, lang, vol: vol.unwrap_or_else(|| "VOLATILE".into()), body, replace });
        }
        if self.kw("drop schema") {
            let ie = self.kw("if exists");
            let mut v = vec![self.name()?];
            while self.p(",") {
                v.push(self.name()?);
            }
            return Ok(Ddl::DropSchema(v, ie, self.cascade()));
        }
        if self.kw("drop function") {
            let ie = self.kw("if exists");
            let n = self.qname()?;
            let a = if matches!(self.peek(), Some(Tok::P("("))) { Some(self.args()?.into_iter().map(|x| x.1).collect()) } else { None };
            return Ok(Ddl::DropFn(n, a, ie, self.cascade()));
        }
        for (w, k) in [("drop table", Kind::Table), ("drop view", Kind::View), ("drop index", Kind::Index), ("drop sequence", Kind::Seq)] {
            if self.kw(w) {
                let ie = self.kw("if exists");
                let mut v = vec![self.qname()?];
                while self.p(",") {
                    v.push(self.qname()?);
                }
                return Ok(Ddl::Drop(k, v, ie, self.cascade()));
            }
        }
        self.near()
    }
}

/// An expression: balanced, and not two operands in a row.
pub fn check_expr(t: &[Tok]) -> R<()> {
    let operand = |x: &Tok| matches!(x, Tok::Str(_) | Tok::Num(_) | Tok::Param(_)) || matches!(x, Tok::Id(_, true));
    for w in t.windows(2) {
        if operand(&w[0]) && operand(&w[1]) {
            return syntax(format!("syntax error at or near {}", tok_text(&w[1])));
        }
    }
    if let Some(Tok::Id(w, false)) = t.first() {
        let starts = ["not", "null", "true", "false", "case", "cast", "array", "current_date", "current_timestamp", "current_time", "current_user", "localtime", "localtimestamp", "session_user", "user", "any", "all", "some"];
        if RESERVED.contains(&w.as_str()) && !starts.contains(&w.as_str()) {
            return syntax(format!("syntax error at or near {w}"));
        }
    }
    Ok(())
}

/// One index key: a column, a function call or a parenthesised expression, then options.
fn check_key(t: &[Tok]) -> R<()> {
    let bad = |k: usize| -> R<()> {
        match t.get(k) {
            Some(x) => syntax(format!("syntax error at or near {}", tok_text(x))),
            None => syntax("syntax error at end of key"),
        }
    };
    let close = |from: usize| -> Option<usize> {
        let mut d = 0;
        for (i, x) in t.iter().enumerate().skip(from) {
            if *x == Tok::P("(") {
                d += 1;
            }
            if *x == Tok::P(")") {
                d -= 1;
                if d == 0 {
                    return Some(i);
                }
            }
        }
        None
    };
    let mut i = match &t[0] {
        Tok::P("(") => match close(0) {
            Some(k) => k + 1,
            None => return bad(t.len()),
        },
        Tok::Id(n, q) if *q || !RESERVED.contains(&n.as_str()) => {
            let mut i = 1;
            if t.get(1) == Some(&Tok::P(".")) {
                i = 3;
            }
            if t.get(i) == Some(&Tok::P("(")) {
                match close(i) {
                    Some(k) => k + 1,
                    None => return bad(t.len()),
                }
            } else if i == 3 {
                return bad(1);
            } else {
                1
            }
        }
        _ => return bad(0),
    };
    while i < t.len() {
        match &t[i] {
            Tok::Id(_, _) => i += 1,
            _ => return bad(i),
        }
    }
    Ok(())
}
