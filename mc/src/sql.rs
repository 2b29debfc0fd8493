//! The statements that are not DDL: queries and changes of rows, locks and transaction control.
use crate::pg::*;
use crate::pglex::*;
use crate::syscat;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Col(Option<String>, String),
    Param(usize),
    Lit(V),
    Star,
    Cast(Box<E>, String),
    Bin(String, Box<E>, Box<E>),
    Not(Box<E>),
    Neg(Box<E>),
    IsNull(Box<E>, bool),
    Call(String, Vec<E>),
    Exists(Box<Select>),
    Sub(Box<Select>),
    In(Box<E>, Vec<E>),
    InSub(Box<E>, Box<Select>),
    AnyOf(Box<E>, Box<E>),
    Array(Vec<E>),
    ArraySub(Box<Select>),
    Index(Box<E>, Box<E>),
    /// operand, branches, otherwise
    Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
    Agg(Box<Agg>),
    Default,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Agg {
    pub f: String,
    pub args: Vec<E>,
    pub distinct: bool,
    pub order: Vec<Ord_>,
    pub filter: Option<E>,
}
pub const AGGS: [&str; 9] = ["count", "max", "min", "sum", "array_agg", "string_agg", "bool_and", "bool_or", "every"];

/// expression, descending, nulls first
pub type Ord_ = (E, bool, bool);

/// What a FROM item yields rows from.
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    /// table, alias, names for its columns
    Table(QName, String, Vec<String>),
    Func(E, String, Vec<String>, bool),
    Sub(Box<Select>, String, Vec<String>),
    /// left, kind (i, l, r, f), right, condition
    Join(Box<Src>, char, Box<Src>, Option<E>),
}
impl Src {
    pub fn tables(&self, out: &mut Vec<QName>) {
        match self {
            Src::Table(t, ..) => out.push(t.clone()),
            Src::Func(..) => {}
            Src::Sub(s, ..) => s.from.iter().for_each(|f| f.tables(out)),
            Src::Join(a, _, b, _) => {
                a.tables(out);
                b.tables(out);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Null,
    B(bool),
    I(i64),
    S(String),
    A(Vec<Option<String>>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Select {
    pub items: Vec<(E, Option<String>)>,
    pub from: Vec<Src>,
    pub filter: Option<E>,
    pub group: Vec<E>,
    pub having: Option<E>,
    pub order: Vec<Ord_>,
    pub limit: Option<E>,
    pub offset: Option<E>,
    pub lock: bool,
    pub distinct: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Select(Select),
    Insert { table: QName, cols: Vec<String>, rows: Vec<Vec<E>>, skip: bool, ret: Vec<(E, Option<String>)> },
    Delete { table: QName, filter: Option<E>, ret: Vec<(E, Option<String>)> },
    Update { table: QName, sets: Vec<(String, E)>, filter: Option<E>, ret: Vec<(E, Option<String>)> },
    Lock(Vec<QName>, u8, bool),
    Begin,
    Commit,
    Rollback,
    Savepoint(String),
    Release(String),
    RollbackTo(String),
    Set,
    Ddl(Ddl),
    Empty,
}

pub fn parse(sql: &str) -> R<Stmt> {
    let mut p = P::new(sql)?;
    let s = stmt(&mut p)?;
    p.done()?;
    Ok(s)
}

fn stmt(p: &mut P) -> R<Stmt> {
    if p.end() {
        return Ok(Stmt::Empty);
    }
    if p.is("select") || p.is("values") {
        return Ok(Stmt::Select(select(p)?));
    }
    if p.kw("insert into") {
        let table = p.qname()?;
        let cols = if matches!(p.peek(), Some(Tok::P("("))) { p.names()? } else { vec![] };
        let mut rows = vec![];
        if p.kw("default values") {
            rows.push(vec![]);
        } else if p.kw("values") {
            loop {
                p.need_p("(")?;
                rows.push(exprs(p)?);
                p.need_p(")")?;
                if !p.p(",") {
                    break;
                }
            }
        } else {
            return p.near();
        }
        let skip = p.kw("on conflict");
        if skip {
            if matches!(p.peek(), Some(Tok::P("("))) {
                p.names()?;
            }
            p.need("do nothing")?;
        }
        return Ok(Stmt::Insert { table, cols, rows, skip, ret: returning(p)? });
    }
    if p.kw("delete from") {
        p.kw("only");
        let table = p.qname()?;
        let filter = if p.kw("where") { Some(expr(p)?) } else { None };
        return Ok(Stmt::Delete { table, filter, ret: returning(p)? });
    }
    if p.kw("update") {
        let table = p.qname()?;
        p.need("set")?;
        let mut sets = vec![];
        loop {
            let c = p.name()?;
            p.need_p("=")?;
            sets.push((c, expr(p)?));
            if !p.p(",") {
                break;
            }
        }
        let filter = if p.kw("where") { Some(expr(p)?) } else { None };
        return Ok(Stmt::Update { table, sets, filter, ret: returning(p)? });
    }
    if p.kw("lock") {
        p.kw("table");
        p.kw("only");
        let mut t = vec![p.qname()?];
        while p.p(",") {
            t.push(p.qname()?);
        }
        let mut mode = 8;
        if p.kw("in") {
            let modes = [
                ("access share", 1),
                ("row share", 2),
                ("row exclusive", 3),
                ("share update exclusive", 4),
                ("share row exclusive", 6),
                ("share", 5),
                ("exclusive", 7),
                ("access exclusive", 8),
            ];
            match modes.iter().find(|m| p.kw(&format!("{} mode", m.0))) {
                Some(m) => mode = m.1,
                None => return p.near(),
            }
        }
        return Ok(Stmt::Lock(t, mode, p.kw("nowait")));
    }
    if p.kw("begin") || p.kw("start transaction") {
        let _ = p.kw("work") || p.kw("transaction");
        while !p.end() {
            if !(p.kw("isolation level read committed") || p.kw("isolation level repeatable read") || p.kw("isolation level serializable") || p.kw("read write") || p.kw("read only") || p.p(",")) {
                return p.near();
            }
        }
        return Ok(Stmt::Begin);
    }
    if p.kw("commit") || p.kw("end") {
        let _ = p.kw("work") || p.kw("transaction");
        return Ok(Stmt::Commit);
    }
    if p.kw("rollback to") {
        p.kw("savepoint");
        return Ok(Stmt::RollbackTo(p.name()?));
    }
    if p.kw("rollback") || p.kw("abort") {
        let _ = p.kw("work") || p.kw("transaction");
        return Ok(Stmt::Rollback);
    }
    if p.kw("savepoint") {
        return Ok(Stmt::Savepoint(p.name()?));
    }
    if p.kw("release") {
        p.kw("savepoint");
        return Ok(Stmt::Release(p.name()?));
    }
    if p.kw("set") {
        p.i = p.t.len();
        return Ok(Stmt::Set);
    }
    Ok(Stmt::Ddl(p.ddl()?))
}

fn returning(p: &mut P) -> R<Vec<(E, Option<String>)>> {
    if p.kw("returning") {
        items(p)
    } else {
        Ok(vec![])
    }
}

fn items(p: &mut P) -> R<Vec<(E, Option<String>)>> {
    let mut v = vec![];
    loop {
        if p.p("*") {
            v.push((E::Star, None));
        } else {
            let e = expr(p)?;
            let alias = if p.kw("as") {
                match p.peek().cloned() {
                    Some(Tok::Id(n, _)) => {
                        p.i += 1;
                        Some(n)
                    }
                    _ => return p.near(),
                }
            } else {
                match p.peek().cloned() {
                    Some(Tok::Id(n, q)) if q || (!RESERVED.contains(&n.as_str()) && !STOP.contains(&n.as_str())) => {
                        p.i += 1;
                        Some(n)
                    }
                    _ => None,
                }
            };
            v.push((e, alias));
        }
        if !p.p(",") {
            return Ok(v);
        }
    }
}

fn select(p: &mut P) -> R<Select> {
    p.need("select")?;
    let mut s = Select { distinct: p.kw("distinct"), ..Default::default() };
    if p.is("from") || p.end() || matches!(p.peek(), Some(Tok::P(")"))) {
        // no columns at all
    } else {
        s.items = items(p)?;
    }
    if p.kw("from") {
        s.from.push(joins(p)?);
        while p.p(",") {
            s.from.push(joins(p)?);
        }
    }
    if p.kw("where") {
        s.filter = Some(expr(p)?);
    }
    if p.kw("group by") {
        s.group = exprs(p)?;
    }
    if p.kw("having") {
        s.having = Some(expr(p)?);
    }
    if p.kw("order by") {
        s.order = order(p)?;
    }
    loop {
        if p.kw("limit") {
            if !p.kw("all") {
                s.limit = Some(expr(p)?);
            }
        } else if p.kw("offset") {
            s.offset = Some(expr(p)?);
        } else if p.kw("fetch first") || p.kw("fetch next") {
            s.limit = Some(if p.is("row") || p.is("rows") { E::Lit(V::I(1)) } else { primary(p)? });
            if !(p.kw("row only") || p.kw("rows only")) {
                return p.near();
            }
        } else if p.kw("for update") || p.kw("for no key update") || p.kw("for share") || p.kw("for key share") {
            s.lock = true;
        } else {
            break;
        }
    }
    Ok(s)
}

fn order(p: &mut P) -> R<Vec<Ord_>> {
    let mut v = vec![];
    loop {
        let e = expr(p)?;
        let desc = p.kw("desc");
        if !desc {
            p.kw("asc");
        }
        let first = if p.kw("nulls first") { true } else { !p.kw("nulls last") && desc };
        v.push((e, desc, first));
        if !p.p(",") {
            return Ok(v);
        }
    }
}

fn joins(p: &mut P) -> R<Src> {
    let mut l = source(p)?;
    loop {
        let k = if p.kw("inner join") || p.kw("join") {
            'i'
        } else if p.kw("left outer join") || p.kw("left join") {
            'l'
        } else if p.kw("right outer join") || p.kw("right join") {
            'r'
        } else if p.kw("full outer join") || p.kw("full join") {
            'f'
        } else if p.kw("cross join") {
            let r = source(p)?;
            l = Src::Join(Box::new(l), 'i', Box::new(r), None);
            continue;
        } else {
            return Ok(l);
        };
        let r = source(p)?;
        let on = if p.kw("on") {
            Some(expr(p)?)
        } else if p.is("join") || p.is("left") || p.is("inner") {
            return syntax("nested join not modelled");
        } else {
            return p.near();
        };
        l = Src::Join(Box::new(l), k, Box::new(r), on);
    }
}

fn source(p: &mut P) -> R<Src> {
    let lateral = p.kw("lateral");
    if p.p("(") {
        if p.is("select") {
            let s = select(p)?;
            p.need_p(")")?;
            let (a, c) = alias(p, "")?;
            return Ok(Src::Sub(Box::new(s), a, c));
        }
        let s = joins(p)?;
        p.need_p(")")?;
        return Ok(s);
    }
    p.kw("only");
    let t = p.qname()?;
    if matches!(p.peek(), Some(Tok::P("("))) {
        p.i += 1;
        let v = args(p)?;
        let ord = p.kw("with ordinality");
        let (a, c) = alias(p, &t.1)?;
        return Ok(Src::Func(E::Call(t.1, v), a, c, ord));
    }
    if lateral {
        return p.near();
    }
    let (a, c) = alias(p, &t.1)?;
    Ok(Src::Table(t, a, c))
}

const STOP: [&str; 18] =
    ["where", "order", "limit", "offset", "for", "join", "inner", "on", "fetch", "left", "right", "full", "cross", "group", "having", "union", "natural", "filter"];

fn alias(p: &mut P, t: &str) -> R<(String, Vec<String>)> {
    let a = if p.kw("as") {
        p.name()?
    } else {
        match p.peek() {
            Some(Tok::Id(n, q)) if *q || (!RESERVED.contains(&n.as_str()) && !STOP.contains(&n.as_str())) => p.name()?,
            _ => return Ok((t.to_owned(), vec![])),
        }
    };
    let c = if matches!(p.peek(), Some(Tok::P("("))) { p.names()? } else { vec![] };
    Ok((a, c))
}

fn exprs(p: &mut P) -> R<Vec<E>> {
    let mut v = vec![expr(p)?];
    while p.p(",") {
        v.push(expr(p)?);
    }
    Ok(v)
}

fn expr(p: &mut P) -> R<E> {
    let mut l = and(p)?;
    while p.kw("or") {
        l = E::Bin("or".into(), Box::new(l), Box::new(and(p)?));
    }
    Ok(l)
}
fn and(p: &mut P) -> R<E> {
    let mut l = not(p)?;
    while p.kw("and") {
        l = E::Bin("and".into(), Box::new(l), Box::new(not(p)?));
    }
    Ok(l)
}
fn not(p: &mut P) -> R<E> {
    if p.kw("not") {
        return Ok(E::Not(Box::new(not(p)?)));
    }
    let mut l = cmp(p)?;
    loop {
        if p.kw("is not null") || p.kw("notnull") {
            l = E::IsNull(Box::new(l), false);
        } else if p.kw("is null") || p.kw("isnull") {
            l = E::IsNull(Box::new(l), true);
        } else if p.kw("is not true") {
            l = E::Not(Box::new(E::Call("coalesce".into(), vec![l, E::Lit(V::B(false))])));
        } else if p.kw("is false") {
            l = E::Not(Box::new(E::Call("coalesce".into(), vec![l, E::Lit(V::B(true))])));
        } else if p.kw("is true") {
            l = E::Call("coalesce".into(), vec![l, E::Lit(V::B(false))]);
        } else if p.kw("is not distinct from") {
            l = E::Bin("same".into(), Box::new(l), Box::new(add(p)?));
        } else if p.kw("is distinct from") {
            l = E::Not(Box::new(E::Bin("same".into(), Box::new(l), Box::new(add(p)?))));
        } else {
            return Ok(l);
        }
    }
}
fn cmp(p: &mut P) -> R<E> {
    let l = add(p)?;
    for o in ["<=", ">=", "<>", "!=", "=", "<", ">"] {
        if p.p(o) {
            let all = p.is("all") && matches!(p.t.get(p.i + 1), Some(Tok::P("(")));
            if all || p.is("any") || p.is("some") {
                p.i += 1;
                p.need_p("(")?;
                if p.is("select") {
                    let s = select(p)?;
                    p.need_p(")")?;
                    let e = E::InSub(Box::new(l), Box::new(s));
                    return match (all, o) {
                        (false, "=") => Ok(e),
                        (true, "<>" | "!=") => Ok(E::Not(Box::new(e))),
                        _ => syntax("operator not modelled"),
                    };
                }
                let a = expr(p)?;
                p.need_p(")")?;
                let e = E::AnyOf(Box::new(l), Box::new(a));
                return match (all, o) {
                    (false, "=") => Ok(e),
                    (true, "<>" | "!=") => Ok(E::Not(Box::new(e))),
                    _ => syntax("operator not modelled"),
                };
            }
            let r = add(p)?;
            return Ok(E::Bin(if o == "!=" { "<>".into() } else { o.into() }, Box::new(l), Box::new(r)));
        }
    }
    if p.kw("between") {
        let a = add(p)?;
        p.need("and")?;
        let b = add(p)?;
        return Ok(E::Bin(
            "and".into(),
            Box::new(E::Bin(">=".into(), Box::new(l.clone()), Box::new(a))),
            Box::new(E::Bin("<=".into(), Box::new(l), Box::new(b))),
        ));
    }
    let neg = p.is("not") && (p.is_at(1, "in") || p.is_at(1, "like"));
    if neg {
        p.i += 1;
    }
    if p.kw("like") {
        let r = add(p)?;
        let e = E::Call("like".into(), vec![l, r]);
        return Ok(if neg { E::Not(Box::new(e)) } else { e });
    }
    if p.kw("in") {
        p.need_p("(")?;
        let e = if p.is("select") { E::InSub(Box::new(l), Box::new(select(p)?)) } else { E::In(Box::new(l), exprs(p)?) };
        p.need_p(")")?;
        return Ok(if neg { E::Not(Box::new(e)) } else { e });
    }
    Ok(l)
}
fn add(p: &mut P) -> R<E> {
    let mut l = unary(p)?;
    loop {
        let mut hit = false;
        for o in ["||", "+", "-", "*", "/", "%", "&", "|"] {
            if p.p(o) {
                l = E::Bin(o.into(), Box::new(l), Box::new(unary(p)?));
                hit = true;
                break;
            }
        }
        if !hit {
            return Ok(l);
        }
    }
}
fn unary(p: &mut P) -> R<E> {
    if p.p("-") {
        return Ok(E::Neg(Box::new(unary(p)?)));
    }
    let mut e = primary(p)?;
    loop {
        if p.p("::") {
            e = E::Cast(Box::new(e), cast_type(p)?);
        } else if p.p("[") {
            let i = expr(p)?;
            p.need_p("]")?;
            e = E::Index(Box::new(e), Box::new(i));
        } else {
            return Ok(e);
        }
    }
}
/// A type; the one-byte type is `"char"` in quotes.
fn cast_type(p: &mut P) -> R<String> {
    if p.p_at("pg_catalog") {
        p.i += 2;
    }
    if let Some(Tok::Id(n, true)) = p.peek() {
        if n == "char" {
            p.i += 1;
            let arr = matches!((p.peek(), p.t.get(p.i + 1)), (Some(Tok::P("[")), Some(Tok::P("]"))));
            if arr {
                p.i += 2;
            }
            return Ok(if arr { "char[]".into() } else { "char".into() });
        }
    }
    let t = p.type_name()?;
    Ok(if t.contains("character_data") { "varchar".into() } else if t.contains("sql_identifier") { "name".into() } else { t })
}
fn primary(p: &mut P) -> R<E> {
    match p.peek().cloned() {
        Some(Tok::Str(s)) => {
            p.i += 1;
            Ok(E::Lit(V::S(s)))
        }
        Some(Tok::Num(n)) => {
            p.i += 1;
            match n.parse() {
                Ok(i) => Ok(E::Lit(V::I(i))),
                Err(_) => syntax("number not modelled"),
            }
        }
        Some(Tok::Param(n)) => {
            p.i += 1;
            Ok(E::Param(n))
        }
        Some(Tok::P("(")) => {
            p.i += 1;
            let e = if p.is("select") { E::Sub(Box::new(select(p)?)) } else { expr(p)? };
            p.need_p(")")?;
            Ok(e)
        }
        Some(Tok::Id(n, q)) => {
            if !q {
                match n.as_str() {
                    "null" | "true" | "false" => {
                        p.i += 1;
                        return Ok(E::Lit(match n.as_str() {
                            "null" => V::Null,
                            "true" => V::B(true),
                            _ => V::B(false),
                        }));
                    }
                    "default" => {
                        p.i += 1;
                        return Ok(E::Default);
                    }
                    "exists" => {
                        p.i += 1;
                        p.need_p("(")?;
                        let s = select(p)?;
                        p.need_p(")")?;
                        return Ok(E::Exists(Box::new(s)));
                    }
                    "cast" => {
                        p.i += 1;
                        p.need_p("(")?;
                        let e = expr(p)?;
                        p.need("as")?;
                        let t = cast_type(p)?;
                        p.need_p(")")?;
                        return Ok(E::Cast(Box::new(e), t));
                    }
                    "case" => {
                        p.i += 1;
                        let op = if p.is("when") { None } else { Some(Box::new(expr(p)?)) };
                        let mut v = vec![];
                        while p.kw("when") {
                            let c = expr(p)?;
                            p.need("then")?;
                            v.push((c, expr(p)?));
                        }
                        let other = if p.kw("else") { Some(Box::new(expr(p)?)) } else { None };
                        p.need("end")?;
                        return Ok(E::Case(op, v, other));
                    }
                    "array" => {
                        p.i += 1;
                        if p.p("(") {
                            let s = select(p)?;
                            p.need_p(")")?;
                            return Ok(E::ArraySub(Box::new(s)));
                        }
                        p.need_p("[")?;
                        let v = if matches!(p.peek(), Some(Tok::P("]"))) { vec![] } else { exprs(p)? };
                        p.need_p("]")?;
                        return Ok(E::Array(v));
                    }
                    "current_timestamp" => {
                        p.i += 1;
                        return Ok(E::Call("now".into(), vec![]));
                    }
                    _ => {}
                }
            }
            let a = p.name()?;
            if p.p(".") {
                if p.p("*") {
                    return Ok(E::Star);
                }
                let b = p.name()?;
                if p.p("(") {
                    return call(p, b);
                }
                if p.p(".") {
                    let c = p.name()?;
                    return Ok(E::Col(Some(b), c));
                }
                return Ok(E::Col(Some(a), b));
            }
            if p.p("(") {
                return call(p, a);
            }
            Ok(E::Col(None, a))
        }
        _ => p.near(),
    }
}
fn call(p: &mut P, f: String) -> R<E> {
    if !AGGS.contains(&f.as_str()) {
        if f == "substring" || f == "trim" {
            // the spellings with key words
            if f == "trim" && (p.kw("both from") || p.kw("from")) {}
            let a = expr(p)?;
            let mut v = vec![a];
            if p.kw("from") {
                v.push(expr(p)?);
                if p.kw("for") {
                    v.push(expr(p)?);
                }
            }
            while p.p(",") {
                v.push(expr(p)?);
            }
            p.need_p(")")?;
            return Ok(E::Call(f, v));
        }
        return Ok(E::Call(f, args(p)?));
    }
    let mut a = Agg { distinct: p.kw("distinct"), f, args: vec![], order: vec![], filter: None };
    if p.p("*") {
        a.args.push(E::Star);
    } else {
        a.args = exprs(p)?;
        if p.kw("order by") {
            a.order = order(p)?;
        }
    }
    p.need_p(")")?;
    if p.kw("filter") {
        p.need_p("(")?;
        p.need("where")?;
        a.filter = Some(expr(p)?);
        p.need_p(")")?;
    }
    if p.is("over") {
        return syntax("window functions are not modelled");
    }
    Ok(E::Agg(Box::new(a)))
}
fn args(p: &mut P) -> R<Vec<E>> {
    if p.p(")") {
        return Ok(vec![]);
    }
    let v = if p.p("*") { vec![E::Star] } else { exprs(p)? };
    p.need_p(")")?;
    Ok(v)
}

// ---- types ------------------------------------------------------------

/// A table as a query sees it: columns with types, and rows.
pub struct Tab {
    pub cols: Vec<(String, String)>,
    pub rows: Vec<Vec<V>>,
}

/// A stored value by its column's type.
pub fn load(ty: &str, v: &Val) -> V {
    match v {
        None => V::Null,
        Some(s) => {
            if ty.ends_with("[]") {
                V::A(unarr(s))
            } else if ["int2", "int4", "int8", "oid"].contains(&ty) {
                V::I(s.parse().unwrap_or(0))
            } else if ty == "bool" {
                V::B(s == "t")
            } else {
                V::S(s.clone())
            }
        }
    }
}
pub fn store(v: &V) -> Val {
    match v {
        V::Null => None,
        V::B(b) => Some(if *b { "t".into() } else { "f".into() }),
        V::I(i) => Some(i.to_string()),
        V::S(s) => Some(s.clone()),
        V::A(a) => Some(arr(a)),
    }
}
/// Arrays in a column: length-prefixed elements.
fn arr(a: &[Option<String>]) -> String {
    a.iter()
        .map(|x| match x {
            None => "n;".into(),
            Some(s) => format!("{}:{s};", s.len()),
        })
        .collect()
}
fn unarr(s: &str) -> Vec<Option<String>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with("n;") {
            v.push(None);
            i += 2;
            continue;
        }
        let Some(k) = s[i..].find(':') else { break };
        let n: usize = s[i..i + k].parse().unwrap_or(0);
        let st = i + k + 1;
        v.push(Some(s[st..st + n].to_owned()));
        i = st + n + 1;
    }
    v
}

pub fn table(c: &Cat, n: &QName) -> R<Tab> {
    let s = n.0.clone().unwrap_or_else(|| "public".into());
    if matches!(n.0.as_deref(), Some("pg_catalog") | None) {
        if let Some(t) = syscat::tab(c, &n.1) {
            return Ok(t);
        }
    }
    if n.0.as_deref() == Some("information_schema") {
        if let Some(t) = syscat::info(c, &n.1) {
            return Ok(t);
        }
    }
    let t = match c.schemas.get(&s) {
        Some(_) => c.table(&s, &n.1)?,
        None => return err("42P01", format!("relation \"{s}.{}\" does not exist", n.1)),
    };
    Ok(Tab {
        cols: t.cols.iter().map(|x| (x.name.clone(), x.ty.clone())).collect(),
        rows: t.rows.iter().map(|r| r.iter().zip(&t.cols).map(|(v, c)| load(&c.ty, v)).collect()).collect(),
    })
}
pub fn is_system(n: &QName) -> bool {
    matches!(n.0.as_deref(), Some("pg_catalog") | Some("information_schema")) || (n.0.is_none() && n.1.starts_with("pg_"))
}

/// Columns in scope: alias, name, type.
pub type Scope = Vec<(String, String, String)>;
pub type Params = BTreeMap<usize, String>;

pub struct Typer<'a> {
    pub cat: &'a Cat,
    pub params: Params,
}

impl<'a> Typer<'a> {
    pub fn want(&mut self, e: &E, ty: &str) {
        if let E::Param(n) = e {
            self.params.entry(*n).or_insert_with(|| ty.to_owned());
        }
    }
    fn strip(e: &E) -> Option<usize> {
        if let E::Param(n) = e {
            Some(*n)
        } else {
            None
        }
    }
    pub fn ty(&mut self, e: &E, sc: &Scope) -> R<String> {
        Ok(match e {
            E::Col(a, n) => match sc.iter().find(|c| c.1 == *n && a.as_ref().map_or(true, |a| *a == c.0)) {
                Some(c) => c.2.clone(),
                // a function's result is named by its alias too
                None => match a {
                    None => match sc.iter().find(|c| c.0 == *n) {
                        Some(c) => c.2.clone(),
                        None => return err("42703", format!("column \"{n}\" does not exist")),
                    },
                    Some(a) if sc.iter().any(|c| c.0 == *a) => return err("42703", format!("column {a}.{n} does not exist")),
                    Some(a) => return err("42P01", format!("missing FROM-clause entry for table \"{a}\"")),
                },
            },
            E::Param(n) => self.params.get(n).cloned().unwrap_or_else(|| "unknown".into()),
            E::Lit(V::B(_)) => "bool".into(),
            E::Lit(V::I(_)) => "int4".into(),
            E::Lit(_) => "unknown".into(),
            E::Star | E::Default => "unknown".into(),
            E::Cast(x, t) => {
                if let Some(n) = Self::strip(x) {
                    self.params.entry(n).or_insert_with(|| t.clone());
                } else {
                    self.ty(x, sc)?;
                }
                t.clone()
            }
            E::Bin(o, a, b) => {
                let (mut x, mut y) = (self.ty(a, sc)?, self.ty(b, sc)?);
                if o == "and" || o == "or" {
                    self.want(a, "bool");
                    self.want(b, "bool");
                    return Ok("bool".into());
                }
                if x == "unknown" && y == "unknown" {
                    self.want(a, "text");
                    self.want(b, "text");
                }
                let other = |t: &str| if t.starts_with("varchar") { "text".to_owned() } else { t.to_owned() };
                if x == "unknown" {
                    self.want(a, &other(&y));
                    x = y.clone();
                }
                if y == "unknown" {
                    self.want(b, &other(&x));
                    y = x.clone();
                }
                let int = |t: &str| ["int2", "int4", "int8", "oid", "regclass"].contains(&t);
                let txt = |t: &str| ["text", "name", "unknown", "char", "bpchar"].contains(&t) || t.starts_with("varchar");
                if !(x == y || int(&x) && int(&y) || txt(&x) && txt(&y) || o == "||" || x.ends_with(']') && y == "unknown") {
                    return err("42883", format!("operator does not exist: {x} {o} {y}"));
                }
                match o.as_str() {
                    "||" => "text".into(),
                    "+" | "-" | "*" | "/" | "%" | "&" | "|" => x,
                    _ => "bool".into(),
                }
            }
            E::Not(a) => {
                self.ty(a, sc)?;
                self.want(a, "bool");
                "bool".into()
            }
            E::Neg(a) => self.ty(a, sc)?,
            E::IsNull(a, _) => {
                self.ty(a, sc)?;
                "bool".into()
            }
            E::Exists(s) => {
                self.select(s, sc)?;
                "bool".into()
            }
            E::Sub(s) => self.select(s, sc)?.first().map(|x| x.1.clone()).unwrap_or_else(|| "unknown".into()),
            E::In(a, v) => {
                let t = self.ty(a, sc)?;
                for x in v {
                    self.ty(x, sc)?;
                    self.want(x, &t);
                }
                "bool".into()
            }
            E::InSub(a, s) => {
                self.ty(a, sc)?;
                self.select(s, sc)?;
                "bool".into()
            }
            E::AnyOf(a, b) => {
                let t = self.ty(a, sc)?;
                let t = if t.starts_with("varchar") || t == "unknown" { "text".into() } else { t };
                self.want(b, &format!("{t}[]"));
                self.ty(b, sc)?;
                "bool".into()
            }
            E::Array(v) => {
                let mut t = "unknown".to_owned();
                for x in v {
                    let u = self.ty(x, sc)?;
                    if t == "unknown" {
                        t = u;
                    }
                }
                format!("{}[]", if t == "unknown" { "text" } else { &t })
            }
            E::ArraySub(s) => {
                let t = self.select(s, sc)?.first().map(|x| x.1.clone()).unwrap_or_default();
                format!("{}[]", if t == "unknown" { "text" } else { &t })
            }
            E::Index(a, i) => {
                let t = self.ty(a, sc)?;
                self.ty(i, sc)?;
                self.want(i, "int4");
                match syscat::elem(&t) {
                    Some(x) => x,
                    None => return err("42804", format!("cannot subscript type {t} because it does not support subscripting")),
                }
            }
            E::Case(op, v, other) => {
                let mut out = "unknown".to_owned();
                // the output of a type is no text
                let branch = |out: &mut String, t: String| -> R<()> {
                    if t != "unknown" && *out != "unknown" && (t == "cstring") != (*out == "cstring") {
                        return err("42804", format!("CASE types {out} and {t} cannot be matched"));
                    }
                    if *out == "unknown" {
                        *out = t;
                    }
                    Ok(())
                };
                let ot = match op {
                    Some(x) => Some(self.ty(x, sc)?),
                    None => None,
                };
                for (c, r) in v {
                    let t = self.ty(c, sc)?;
                    if ot.is_none() && t != "bool" && t != "unknown" {
                        return err("42804", format!("argument of CASE/WHEN must be type boolean, not type {t}"));
                    }
                    let t = self.ty(r, sc)?;
                    branch(&mut out, t)?;
                }
                if let Some(x) = other {
                    let t = self.ty(x, sc)?;
                    branch(&mut out, t)?;
                }
                if out == "unknown" { "text".into() } else { out }
            }
            E::Agg(a) => {
                let mut ts = vec![];
                for x in &a.args {
                    if *x != E::Star {
                        ts.push(self.ty(x, sc)?);
                    }
                }
                for o in &a.order {
                    self.ty(&o.0, sc)?;
                }
                if let Some(f) = &a.filter {
                    self.ty(f, sc)?;
                }
                let t = ts.first().cloned().unwrap_or_else(|| "text".into());
                match a.f.as_str() {
                    "count" | "sum" => "int8".into(),
                    "array_agg" => format!("{}[]", if t == "unknown" { "text" } else { &t }),
                    "string_agg" => "text".into(),
                    "bool_and" | "bool_or" | "every" => "bool".into(),
                    _ => t,
                }
            }
            E::Call(f, v) => {
                let mut ts = vec![];
                for x in v {
                    if *x != E::Star {
                        ts.push(self.ty(x, sc)?);
                    }
                }
                match f.as_str() {
                    "now" | "clock_timestamp" | "transaction_timestamp" => "timestamptz".into(),
                    "coalesce" | "nullif" | "greatest" | "least" => ts.iter().find(|t| *t != "unknown").cloned().unwrap_or_else(|| "unknown".into()),
                    "to_regclass" | "to_regnamespace" => {
                        for x in v {
                            self.want(x, "text");
                        }
                        if f == "to_regclass" { "regclass".into() } else { "text".into() }
                    }
                    "pg_advisory_xact_lock" | "pg_advisory_lock" => {
                        for x in v {
                            self.want(x, "int8");
                        }
                        "void".into()
                    }
                    "hashtext" | "length" | "char_length" | "array_length" | "cardinality" => {
                        for x in v {
                            self.want(x, "text");
                        }
                        "int4".into()
                    }
                    "lower" | "upper" | "quote_ident" => {
                        for x in v {
                            self.want(x, "text");
                        }
                        "text".into()
                    }
                    "current_schema" | "current_database" => "name".into(),
                    "has_schema_privilege" => "bool".into(),
                    _ => match syscat::result(f, &ts) {
                        Some(t) => {
                            for (x, t) in v.iter().zip(&ts) {
                                if t == "unknown" {
                                    self.want(x, "text");
                                }
                            }
                            t
                        }
                        None => return err("42883", format!("function {f} does not exist")),
                    },
                }
            }
        })
    }
    fn src(&mut self, f: &Src, left: &Scope) -> R<Scope> {
        Ok(match f {
            Src::Table(t, a, cs) => {
                let tab = table(self.cat, t)?;
                tab.cols.into_iter().enumerate().map(|(i, (n, ty))| (a.clone(), cs.get(i).cloned().unwrap_or(n), ty)).collect()
            }
            Src::Func(e, a, cs, ord) => {
                let E::Call(f, v) = e else { return syntax("function expected") };
                let mut ts = vec![];
                for x in v {
                    ts.push(self.ty(x, left)?);
                }
                let t = match f.as_str() {
                    "unnest" | "unnest_" => match ts.first().and_then(|t| syscat::elem(t)) {
                        Some(t) => t,
                        None => return err("42883", "function unnest does not exist"),
                    },
                    "generate_series" | "generate_subscripts" => "int4".into(),
                    _ => self.ty(e, left)?,
                };
                let name = cs.first().cloned().unwrap_or_else(|| a.clone());
                let mut o = vec![(a.clone(), name, t)];
                if *ord {
                    o.push((a.clone(), cs.get(1).cloned().unwrap_or_else(|| "ordinality".into()), "int8".into()));
                }
                o
            }
            Src::Sub(s, a, cs) => {
                self.select(s, left)?.into_iter().enumerate().map(|(i, (n, ty))| (a.clone(), cs.get(i).cloned().unwrap_or(n), ty)).collect()
            }
            Src::Join(l, _, r, on) => {
                let mut x = self.src(l, left)?;
                let mut sc = x.clone();
                sc.extend(left.iter().cloned());
                x.extend(self.src(r, &sc)?);
                if let Some(e) = on {
                    let mut sc = x.clone();
                    sc.extend(left.iter().cloned());
                    self.ty(e, &sc)?;
                    self.want(e, "bool");
                }
                x
            }
        })
    }
    pub fn scope(&mut self, s: &Select, outer: &Scope) -> R<Scope> {
        let mut sc: Scope = vec![];
        for f in &s.from {
            let mut left = sc.clone();
            left.extend(outer.iter().cloned());
            let x = self.src(f, &left)?;
            for c in &x {
                if sc.iter().any(|d| d.0 == c.0) {
                    return err("42712", format!("table name \"{}\" specified more than once", c.0));
                }
            }
            sc.extend(x);
        }
        sc.extend(outer.iter().cloned());
        Ok(sc)
    }
    /// names and types of the result
    pub fn select(&mut self, s: &Select, outer: &Scope) -> R<Vec<(String, String)>> {
        let sc = self.scope(s, outer)?;
        let own = sc.len() - outer.len();
        let mut out = vec![];
        for (e, a) in &s.items {
            if *e == E::Star {
                out.extend(sc[..own].iter().map(|c| (c.1.clone(), c.2.clone())));
                continue;
            }
            let t = self.ty(e, &sc)?;
            let n = a.clone().unwrap_or_else(|| match e {
                E::Col(_, n) => n.clone(),
                E::Exists(_) => "exists".into(),
                E::Call(f, _) => f.clone(),
                E::Agg(a) => a.f.clone(),
                E::Case(..) => "case".into(),
                E::Cast(x, _) => match &**x {
                    E::Col(_, n) => n.clone(),
                    _ => "text".into(),
                },
                _ => "?column?".into(),
            });
            out.push((n, t));
        }
        if let Some(f) = &s.filter {
            self.ty(f, &sc)?;
            self.want(f, "bool");
        }
        for e in &s.group {
            if !matches!(e, E::Lit(V::I(_))) {
                self.ty(e, &sc)?;
            }
        }
        if let Some(e) = &s.having {
            self.ty(e, &sc)?;
        }
        for (e, ..) in &s.order {
            if !matches!(e, E::Lit(V::I(_))) {
                // an output name or an input column
                if let E::Col(None, n) = e {
                    if out.iter().any(|o| o.0 == *n) {
                        continue;
                    }
                }
                self.ty(e, &sc)?;
            }
        }
        for e in [&s.limit, &s.offset].into_iter().flatten() {
            self.ty(e, &sc)?;
            self.want(e, "int8");
        }
        Ok(out)
    }
}

/// Parameter types and result columns of a statement.
pub fn describe(c: &Cat, s: &Stmt) -> R<(Vec<String>, Option<Vec<(String, String)>>)> {
    let mut t = Typer { cat: c, params: Params::new() };
    let cols = |c: &Cat, n: &QName| -> R<Scope> {
        if is_system(n) {
            return err("42501", "permission denied");
        }
        Ok(table(c, n)?.cols.into_iter().map(|x| (n.1.clone(), x.0, x.1)).collect())
    };
    let mut out = None;
    let mut ret = |t: &mut Typer, r: &Vec<(E, Option<String>)>, sc: &Scope| -> R<()> {
        if !r.is_empty() {
            let s = Select { items: r.clone(), ..Default::default() };
            let mut v = vec![];
            for (e, a) in &s.items {
                if *e == E::Star {
                    v.extend(sc.iter().map(|c| (c.1.clone(), c.2.clone())));
                } else {
                    let ty = t.ty(e, sc)?;
                    v.push((a.clone().unwrap_or_else(|| if let E::Col(_, n) = e { n.clone() } else { "?column?".into() }), ty));
                }
            }
            out = Some(v);
        }
        Ok(())
    };
    match s {
        Stmt::Select(s) => {
            let o = t.select(s, &vec![])?;
            out = Some(o);
        }
        Stmt::Insert { table: n, cols: cs, rows, ret: r, .. } => {
            let sc = cols(c, n)?;
            let names: Vec<String> = if cs.is_empty() { sc.iter().map(|x| x.1.clone()).collect() } else { cs.clone() };
            for r in rows {
                if r.len() > names.len() || (!cs.is_empty() && r.len() < names.len()) {
                    return syntax("INSERT has more or fewer expressions than target columns");
                }
                for (e, n) in r.iter().zip(&names) {
                    let Some(x) = sc.iter().find(|x| x.1 == *n) else { return err("42703", format!("column \"{n}\" does not exist")) };
                    if *e == E::Default {
                        continue;
                    }
                    t.want(e, &x.2);
                    let ty = t.ty(e, &vec![])?;
                    let txt = |t: &str| ["text", "name", "unknown"].contains(&t) || t.starts_with("varchar");
                    let int = |t: &str| ["int2", "int4", "int8"].contains(&t);
                    let ts = |t: &str| t.starts_with("timestamp");
                    if !(ty == x.2 || ty == "unknown" || txt(&ty) && txt(&x.2) || int(&ty) && int(&x.2) || ts(&ty) && ts(&x.2)) {
                        return err("42804", format!("column \"{n}\" is of type {} but expression is of type {ty}", x.2));
                    }
                }
            }
            for n in cs {
                if !sc.iter().any(|x| x.1 == *n) {
                    return err("42703", format!("column \"{n}\" does not exist"));
                }
            }
            ret(&mut t, r, &sc)?;
        }
        Stmt::Delete { table: n, filter, ret: r } => {
            let sc = cols(c, n)?;
            if let Some(f) = filter {
                t.ty(f, &sc)?;
            }
            ret(&mut t, r, &sc)?;
        }
        Stmt::Update { table: n, sets, filter, ret: r } => {
            let sc = cols(c, n)?;
            for (n, e) in sets {
                let Some(x) = sc.iter().find(|x| x.1 == *n) else { return err("42703", format!("column \"{n}\" does not exist")) };
                t.want(e, &x.2);
                t.ty(e, &sc)?;
            }
            if let Some(f) = filter {
                t.ty(f, &sc)?;
            }
            ret(&mut t, r, &sc)?;
        }
        _ => {}
    }
    let n = t.params.keys().max().copied().unwrap_or(0);
    let mut p = vec![];
    for i in 1..=n {
        match t.params.get(&i) {
            Some(x) if x != "unknown" => p.push(x.clone()),
            _ => return err("42P18", format!("could not determine data type of parameter ${i}")),
        }
    }
    Ok((p, out))
}

// ---- evaluation -------------------------------------------------------

pub struct Ev<'a> {
    pub cat: &'a Cat,
    pub params: &'a [V],
}

/// alias, column, value
pub type Row = Vec<(Rc<str>, Rc<str>, V)>;

pub fn row_of(alias: &str, cols: &[(String, String)], vals: &[V]) -> Row {
    let a: Rc<str> = alias.into();
    cols.iter().zip(vals).map(|(c, v)| (a.clone(), c.0.as_str().into(), v.clone())).collect()
}

impl<'a> Ev<'a> {
    pub fn eval(&self, e: &E, row: &Row) -> R<V> {
        Ok(match e {
            E::Col(a, n) => match row.iter().find(|c| *c.1 == **n && a.as_ref().map_or(true, |a| **a == *c.0)) {
                Some(c) => c.2.clone(),
                None => match row.iter().find(|c| a.is_none() && *c.0 == **n) {
                    Some(c) => c.2.clone(),
                    None => return err("42703", format!("column \"{n}\" does not exist")),
                },
            },
            E::Param(n) => match self.params.get(n - 1) {
                Some(v) => v.clone(),
                None => return err("08P01", format!("there is no parameter ${n}")),
            },
            E::Lit(v) => v.clone(),
            E::Star | E::Default => return syntax("* or DEFAULT is not allowed here"),
            E::Cast(x, t) => {
                let v = self.eval(x, row)?;
                match (t.as_str(), &v) {
                    (_, V::Null) => V::Null,
                    ("regclass", V::S(n)) => syscat::regclass(self.cat, n)?,
                    ("regclass", _) => v,
                    ("text" | "varchar" | "name", V::I(i)) if matches!(&**x, E::Cast(_, t) if t == "regclass") => syscat::class_name(self.cat, *i),
                    _ => cast(v, t)?,
                }
            }
            E::Bin(o, a, b) => {
                let x = self.eval(a, row)?;
                if o == "and" || o == "or" {
                    let y = self.eval(b, row)?;
                    let z = o == "or";
                    return Ok(if x == V::B(z) || y == V::B(z) {
                        V::B(z)
                    } else if x == V::Null || y == V::Null {
                        V::Null
                    } else {
                        V::B(!z)
                    });
                }
                let y = self.eval(b, row)?;
                if o == "same" {
                    return Ok(V::B(x == y));
                }
                if x == V::Null || y == V::Null {
                    return Ok(V::Null);
                }
                if o == "||" {
                    return Ok(V::S(format!("{}{}", store(&x).unwrap_or_default(), store(&y).unwrap_or_default())));
                }
                if let (V::I(p), V::I(q)) = (&x, &y) {
                    let r = match o.as_str() {
                        "+" => p.checked_add(*q),
                        "-" => p.checked_sub(*q),
                        "*" => p.checked_mul(*q),
                        "/" => p.checked_div(*q),
                        "%" => p.checked_rem(*q),
                        "&" => Some(p & q),
                        "|" => Some(p | q),
                        _ => Some(i64::MIN),
                    };
                    match r {
                        Some(i64::MIN) => {}
                        Some(r) => return Ok(V::I(r)),
                        None => return err("22003", "out of range"),
                    }
                }
                // a text literal takes the other side's type
                let (x, y) = match (x, y) {
                    (V::I(p), V::S(q)) => (V::I(p), cast(V::S(q), "int8")?),
                    (V::S(p), V::I(q)) => (cast(V::S(p), "int8")?, V::I(q)),
                    z => z,
                };
                let o2 = x.cmp(&y);
                V::B(match o.as_str() {
                    "=" => o2.is_eq(),
                    "<>" => o2.is_ne(),
                    "<" => o2.is_lt(),
                    "<=" => o2.is_le(),
                    ">" => o2.is_gt(),
                    ">=" => o2.is_ge(),
                    _ => return syntax(format!("operator {o}")),
                })
            }
            E::Not(a) => match self.eval(a, row)? {
                V::B(b) => V::B(!b),
                x => x,
            },
            E::Neg(a) => match self.eval(a, row)? {
                V::I(i) => V::I(-i),
                x => x,
            },
            E::IsNull(a, yes) => V::B((self.eval(a, row)? == V::Null) == *yes),
            E::Exists(s) => V::B(!self.select(s, row)?.is_empty()),
            E::Sub(s) => {
                let r = self.select(s, row)?;
                if r.len() > 1 {
                    return err("21000", "more than one row returned by a subquery used as an expression");
                }
                r.first().and_then(|x| x.first().cloned()).unwrap_or(V::Null)
            }
            E::In(a, v) => {
                let x = self.eval(a, row)?;
                let mut r = V::B(false);
                for y in v {
                    let y = self.eval(y, row)?;
                    if y == V::Null || x == V::Null {
                        r = V::Null;
                    } else if y == x {
                        return Ok(V::B(true));
                    }
                }
                r
            }
            E::InSub(a, s) => {
                let x = self.eval(a, row)?;
                V::B(self.select(s, row)?.iter().any(|r| r.first() == Some(&x)))
            }
            E::AnyOf(a, b) => {
                let x = self.eval(a, row)?;
                match (self.eval(b, row)?, store(&x)) {
                    (V::A(v), Some(x)) => match (v.contains(&Some(x)), v.contains(&None)) {
                        (true, _) => V::B(true),
                        (false, true) => V::Null,
                        _ => V::B(false),
                    },
                    _ => V::Null,
                }
            }
            E::ArraySub(s) => {
                let r = self.select(s, row)?;
                V::A(r.iter().map(|x| x.first().and_then(store)).collect())
            }
            E::Index(a, i) => {
                // the vectors of the catalogue count from zero
                let zero = matches!(&**a, E::Col(_, n) if ["indkey", "indoption", "indclass", "indcollation"].contains(&n.as_str()));
                match (self.eval(a, row)?, self.eval(i, row)?) {
                    (V::A(v), V::I(i)) => {
                        let k = if zero { i } else { i - 1 };
                        match usize::try_from(k).ok().and_then(|k| v.get(k).cloned()) {
                            Some(Some(s)) => num(s),
                            _ => V::Null,
                        }
                    }
                    _ => V::Null,
                }
            }
            E::Case(op, v, other) => {
                for (c, r) in v {
                    let hit = match op {
                        None => self.eval(c, row)? == V::B(true),
                        Some(o) => self.eval(&E::Bin("=".into(), o.clone(), Box::new(c.clone())), row)? == V::B(true),
                    };
                    if hit {
                        return self.eval(r, row);
                    }
                }
                match other {
                    Some(x) => self.eval(x, row)?,
                    None => V::Null,
                }
            }
            E::Agg(_) => return err("42803", "aggregate functions are not allowed here"),
            E::Array(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(store(&self.eval(x, row)?));
                }
                V::A(o)
            }
            E::Call(f, v) => {
                let mut a = vec![];
                for x in v {
                    a.push(self.eval(x, row)?);
                }
                match (f.as_str(), &a[..]) {
                    ("now" | "clock_timestamp" | "transaction_timestamp", _) => V::S("2024-01-01 00:00:00".into()),
                    ("coalesce", a) => a.iter().find(|x| **x != V::Null).cloned().unwrap_or(V::Null),
                    ("to_regnamespace", [V::S(n)]) => {
                        let t = lex(n)?;
                        match &t[..] {
                            [Tok::Id(n, _)] if self.cat.schemas.contains_key(n) => V::S(n.clone()),
                            _ => V::Null,
                        }
                    }
                    ("to_regclass", [V::S(n)]) => syscat::regclass(self.cat, n).unwrap_or(V::Null),
                    ("pg_advisory_xact_lock" | "pg_advisory_lock", _) => V::S(String::new()),
                    ("length" | "char_length", [V::S(s)]) => V::I(s.chars().count() as i64),
                    ("hashtext", [V::S(s)]) => V::I(s.bytes().fold(7i64, |h, b| (h * 31 + b as i64) & 0x7fff_ffff)),
                    ("cardinality" | "array_length", [V::A(a), ..]) => V::I(a.len() as i64),
                    ("lower", [V::S(s)]) => V::S(s.to_lowercase()),
                    ("upper", [V::S(s)]) => V::S(s.to_uppercase()),
                    ("quote_ident", [V::S(s)]) => V::S(tok_text(&Tok::Id(s.clone(), true))),
                    ("current_schema", _) => V::S("public".into()),
                    ("current_database", _) => V::S("db".into()),
                    ("like", [V::S(s), V::S(p)]) => V::B(like(s, p)),
                    ("nullif", [x, y]) => if x == y { V::Null } else { x.clone() },
                    (f, a) => match syscat::call(self.cat, f, a)? {
                        Some(v) => v,
                        None => return err("42883", format!("function {f} does not exist")),
                    },
                }
            }
        })
    }

    /// Rows of one FROM item, given what is to its left and around it.
    fn src(&self, f: &Src, left: &Row) -> R<Vec<Row>> {
        match f {
            Src::Table(t, a, cs) => {
                let mut tab = table(self.cat, t)?;
                for (c, n) in tab.cols.iter_mut().zip(cs) {
                    c.0 = n.clone();
                }
                let al: Rc<str> = a.as_str().into();
                let names: Vec<Rc<str>> = tab.cols.iter().map(|c| c.0.as_str().into()).collect();
                Ok(tab.rows.into_iter().map(|r| r.into_iter().zip(&names).map(|(v, n)| (al.clone(), n.clone(), v)).collect()).collect())
            }
            Src::Func(e, a, cs, ord) => {
                let E::Call(f, v) = e else { return syntax("function expected") };
                let mut x = vec![];
                for y in v {
                    x.push(self.eval(y, left)?);
                }
                let vals: Vec<V> = match (f.as_str(), &x[..]) {
                    ("unnest", [V::A(v)]) => v.iter().map(|s| s.clone().map_or(V::Null, num)).collect(),
                    ("generate_series", [V::I(a), V::I(b)]) => (*a..=*b).map(V::I).collect(),
                    ("generate_subscripts", [V::A(v), V::I(_)]) => {
                        let zero = matches!(v_first(e), Some(E::Col(_, n)) if ["indkey", "indoption", "indclass", "indcollation"].contains(&n.as_str()));
                        (0..v.len() as i64).map(|i| V::I(if zero { i } else { i + 1 })).collect()
                    }
                    (_, x) if x.contains(&V::Null) => vec![],
                    _ => vec![self.eval(e, left)?],
                };
                let al: Rc<str> = a.as_str().into();
                let c1: Rc<str> = cs.first().unwrap_or(a).as_str().into();
                let c2: Rc<str> = cs.get(1).map_or("ordinality", |s| s).into();
                Ok(vals
                    .into_iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let mut r = vec![(al.clone(), c1.clone(), v)];
                        if *ord {
                            r.push((al.clone(), c2.clone(), V::I(i as i64 + 1)));
                        }
                        r
                    })
                    .collect())
            }
            Src::Sub(s, a, cs) => {
                let mut t = Typer { cat: self.cat, params: Params::new() };
                let sc: Scope = left.iter().map(|c| (c.0.to_string(), c.1.to_string(), "unknown".into())).collect();
                let names: Vec<(String, String)> =
                    t.select(s, &sc)?.into_iter().enumerate().map(|(i, (n, _))| (cs.get(i).cloned().unwrap_or(n), String::new())).collect();
                Ok(self.select(s, left)?.iter().map(|r| row_of(a, &names, r)).collect())
            }
            Src::Join(l, k, r, on) => {
                let ls = self.src(l, left)?;
                let fixed = !matches!(**r, Src::Func(..) | Src::Sub(..));
                let shared = if fixed { Some(self.src(r, left)?) } else { None };
                let blank = |f: &Src| -> R<Row> {
                    let mut t = Typer { cat: self.cat, params: Params::new() };
                    let mut sc: Scope = left.iter().map(|c| (c.0.to_string(), c.1.to_string(), "unknown".into())).collect();
                    if let Some(x) = ls.first() {
                        sc.splice(0..0, x.iter().map(|c| (c.0.to_string(), c.1.to_string(), "unknown".to_owned())));
                    }
                    Ok(t.src(f, &sc)?.into_iter().map(|c| (c.0.as_str().into(), c.1.as_str().into(), V::Null)).collect())
                };
                let mut out = vec![];
                let mut used = std::collections::BTreeSet::new();
                for x in &ls {
                    let own;
                    let rs = match &shared {
                        Some(r) => r,
                        None => {
                            let mut full = x.clone();
                            full.extend(left.iter().cloned());
                            own = self.src(r, &full)?;
                            &own
                        }
                    };
                    let mut hit = false;
                    for (i, y) in rs.iter().enumerate() {
                        let mut z = x.clone();
                        z.extend(y.iter().cloned());
                        let n = z.len();
                        if let Some(e) = on {
                            z.extend(left.iter().cloned());
                            if self.eval(e, &z)? != V::B(true) {
                                continue;
                            }
                            z.truncate(n);
                        }
                        hit = true;
                        used.insert(i);
                        out.push(z);
                    }
                    if !hit && (*k == 'l' || *k == 'f') {
                        let mut z = x.clone();
                        z.extend(blank(r)?);
                        out.push(z);
                    }
                }
                if *k == 'r' || *k == 'f' {
                    let Some(rs) = &shared else { return syntax("this join is not modelled") };
                    for (i, y) in rs.iter().enumerate() {
                        if !used.contains(&i) {
                            let mut z = blank(l)?;
                            z.extend(y.iter().cloned());
                            out.push(z);
                        }
                    }
                }
                Ok(out)
            }
        }
    }

    /// The rows of the FROM list that pass the filter.
    pub fn rows(&self, s: &Select, outer: &Row) -> R<Vec<Row>> {
        let mut todo: Vec<&E> = vec![];
        if let Some(f) = &s.filter {
            conjuncts(f, &mut todo);
        }
        let mut acc: Vec<Row> = vec![vec![]];
        let mut known: Vec<String> = vec![];
        let mut done = vec![false; todo.len()];
        for (k, f) in s.from.iter().enumerate() {
            let fixed = !matches!(f, Src::Func(..) | Src::Sub(..));
            let shared = if fixed { Some(self.src(f, outer)?) } else { None };
            let mut next = vec![];
            for l in &acc {
                let own;
                let rs = match &shared {
                    Some(r) => r,
                    None => {
                        let mut full = l.clone();
                        full.extend(outer.iter().cloned());
                        own = self.src(f, &full)?;
                        &own
                    }
                };
                for r in rs {
                    let mut x = l.clone();
                    x.extend(r.iter().cloned());
                    next.push(x);
                }
            }
            if let Some(x) = next.first() {
                for c in x {
                    if !known.iter().any(|k| **k == *c.0) {
                        known.push(c.0.to_string());
                    }
                }
            }
            // conditions that can be judged already
            for (i, e) in todo.iter().enumerate() {
                if done[i] || !(k + 1 == s.from.len() || judged(e, &known)) {
                    continue;
                }
                done[i] = true;
                let mut keep = vec![];
                for x in next {
                    let n = x.len();
                    let mut full = x;
                    full.extend(outer.iter().cloned());
                    if self.eval(e, &full)? == V::B(true) {
                        full.truncate(n);
                        keep.push(full);
                    }
                }
                next = keep;
            }
            acc = next;
        }
        if s.from.is_empty() {
            for e in todo {
                if self.eval(e, outer)? != V::B(true) {
                    return Ok(vec![]);
                }
            }
        }
        if !matches!(s.from[..], [Src::Func(..)] | []) {
            // SQL promises no order
            match self.cat.phys.0 {
                0 => {}
                1 => acc.reverse(),
                k => {
                    let n = acc.len().max(1);
                    acc.rotate_left((k as usize - 1) % n);
                }
            }
        }
        Ok(acc)
    }

    pub fn select(&self, s: &Select, outer: &Row) -> R<Vec<Vec<V>>> {
        let rows = self.rows(s, outer)?;
        let agg = !s.group.is_empty() || s.items.iter().any(|(e, _)| has_agg(e)) || s.having.is_some();
        if agg {
            return self.grouped(s, rows, outer);
        }
        let mut res: Vec<(Vec<V>, Vec<V>)> = vec![];
        for r in rows {
            let mut full = r.clone();
            full.extend(outer.iter().cloned());
            let mut o = vec![];
            let mut names = vec![];
            for (e, a) in &s.items {
                if *e == E::Star {
                    o.extend(r.iter().map(|c| c.2.clone()));
                    names.extend(r.iter().map(|c| c.1.to_string()));
                } else {
                    o.push(self.eval(e, &full)?);
                    names.push(a.clone().unwrap_or_else(|| if let E::Col(_, n) = e { n.clone() } else { String::new() }));
                }
            }
            let keys = self.keys(&s.order, &o, &names, &full)?;
            res.push((keys, o));
        }
        self.finish(s, res)
    }

    fn keys(&self, order: &[Ord_], o: &[V], names: &[String], full: &Row) -> R<Vec<V>> {
        let mut keys = vec![];
        for (e, ..) in order {
            keys.push(match e {
                E::Lit(V::I(i)) => o.get(*i as usize - 1).cloned().unwrap_or(V::Null),
                E::Col(None, n) if names.contains(n) => o[names.iter().position(|x| x == n).unwrap()].clone(),
                _ => self.eval(e, full)?,
            });
        }
        Ok(keys)
    }

    fn grouped(&self, s: &Select, rows: Vec<Row>, outer: &Row) -> R<Vec<Vec<V>>> {
        let rows: Vec<Row> = rows
            .into_iter()
            .map(|mut r| {
                r.extend(outer.iter().cloned());
                r
            })
            .collect();
        let mut groups: Vec<(Vec<V>, Vec<Row>)> = vec![];
        if s.group.is_empty() {
            groups.push((vec![], rows));
        } else {
            for r in rows {
                let mut k = vec![];
                for g in &s.group {
                    let g = match g {
                        E::Lit(V::I(i)) => &s.items[*i as usize - 1].0,
                        // an output name, unless a column has it
                        E::Col(None, n) if !r.iter().any(|c| *c.1 == **n) => s.items.iter().find(|x| x.1.as_ref() == Some(n)).map_or(g, |x| &x.0),
                        _ => g,
                    };
                    k.push(self.eval(g, &r)?);
                }
                match groups.iter_mut().find(|g| g.0 == k) {
                    Some(g) => g.1.push(r),
                    None => groups.push((k, vec![r])),
                }
            }
        }
        let mut res = vec![];
        for (_, rs) in &groups {
            let first = rs.first().unwrap_or(outer);
            if let Some(h) = &s.having {
                if self.eval(&self.subst(h, rs)?, first)? != V::B(true) {
                    continue;
                }
            }
            let (mut o, mut names) = (vec![], vec![]);
            for (e, a) in &s.items {
                o.push(self.eval(&self.subst(e, rs)?, first)?);
                names.push(a.clone().unwrap_or_else(|| if let E::Col(_, n) = e { n.clone() } else { String::new() }));
            }
            let mut order = vec![];
            for x in &s.order {
                order.push((self.subst(&x.0, rs)?, x.1, x.2));
            }
            let k = self.keys(&order, &o, &names, first)?;
            res.push((k, o));
        }
        self.finish(s, res)
    }

    fn finish(&self, s: &Select, mut res: Vec<(Vec<V>, Vec<V>)>) -> R<Vec<Vec<V>>> {
        res.sort_by(|a, b| compare(&s.order, &a.0, &b.0));
        let mut out: Vec<Vec<V>> = res.into_iter().map(|x| x.1).collect();
        if s.distinct {
            let mut seen = vec![];
            out.retain(|r| {
                let new = !seen.contains(r);
                seen.push(r.clone());
                new
            });
        }
        let n = |e: &Option<E>| -> R<Option<usize>> {
            match e {
                None => Ok(None),
                Some(e) => match self.eval(e, &vec![])? {
                    V::I(i) => Ok(Some(i.max(0) as usize)),
                    _ => Ok(None),
                },
            }
        };
        if let Some(k) = n(&s.offset)? {
            out = out.into_iter().skip(k).collect();
        }
        if let Some(k) = n(&s.limit)? {
            out.truncate(k);
        }
        Ok(out)
    }

    /// The expression with its aggregates replaced by their values.
    fn subst(&self, e: &E, rows: &[Row]) -> R<E> {
        let go = |x: &E| self.subst(x, rows);
        let bx = |x: &E| -> R<Box<E>> { Ok(Box::new(self.subst(x, rows)?)) };
        Ok(match e {
            E::Agg(a) => E::Lit(self.agg(a, rows)?),
            E::Bin(o, a, b) => E::Bin(o.clone(), bx(a)?, bx(b)?),
            E::Call(f, v) => E::Call(f.clone(), v.iter().map(go).collect::<R<_>>()?),
            E::Cast(a, t) => E::Cast(bx(a)?, t.clone()),
            E::Not(a) => E::Not(bx(a)?),
            E::Neg(a) => E::Neg(bx(a)?),
            E::IsNull(a, b) => E::IsNull(bx(a)?, *b),
            E::In(a, v) => E::In(bx(a)?, v.iter().map(go).collect::<R<_>>()?),
            E::AnyOf(a, b) => E::AnyOf(bx(a)?, bx(b)?),
            E::Array(v) => E::Array(v.iter().map(go).collect::<R<_>>()?),
            E::Index(a, b) => E::Index(bx(a)?, bx(b)?),
            E::Case(o, v, x) => {
                let o = match o {
                    Some(o) => Some(bx(o)?),
                    None => None,
                };
                let mut w = vec![];
                for (c, r) in v {
                    w.push((go(c)?, go(r)?));
                }
                let x = match x {
                    Some(x) => Some(bx(x)?),
                    None => None,
                };
                E::Case(o, w, x)
            }
            _ => e.clone(),
        })
    }

    fn agg(&self, a: &Agg, rows: &[Row]) -> R<V> {
        let mut vs: Vec<(Vec<V>, V, V)> = vec![];
        for r in rows {
            if let Some(f) = &a.filter {
                if self.eval(f, r)? != V::B(true) {
                    continue;
                }
            }
            let mut k = vec![];
            for o in &a.order {
                k.push(self.eval(&o.0, r)?);
            }
            let v = match a.args.first() {
                Some(E::Star) | None => V::I(1),
                Some(x) => self.eval(x, r)?,
            };
            let sep = match a.args.get(1) {
                Some(x) => self.eval(x, r)?,
                None => V::Null,
            };
            if v == V::Null && a.f != "array_agg" {
                continue;
            }
            if a.distinct && vs.iter().any(|x| x.1 == v) {
                continue;
            }
            vs.push((k, v, sep));
        }
        vs.sort_by(|x, y| compare(&a.order, &x.0, &y.0));
        if a.distinct && a.order.is_empty() {
            vs.sort_by(|x, y| x.1.cmp(&y.1));
        }
        if a.f == "count" {
            return Ok(V::I(vs.len() as i64));
        }
        if vs.is_empty() {
            return Ok(V::Null);
        }
        let it = vs.iter().map(|x| &x.1);
        Ok(match a.f.as_str() {
            "max" => it.max().cloned().unwrap(),
            "min" => it.min().cloned().unwrap(),
            "sum" => V::I(it.map(|v| if let V::I(i) = v { *i } else { 0 }).sum()),
            "bool_and" | "every" => V::B(it.clone().all(|v| *v == V::B(true))),
            "bool_or" => V::B(it.clone().any(|v| *v == V::B(true))),
            "string_agg" => {
                let mut s = String::new();
                for (i, (_, v, sep)) in vs.iter().enumerate() {
                    if i > 0 {
                        s += &store(sep).unwrap_or_default();
                    }
                    s += &store(v).unwrap_or_default();
                }
                V::S(s)
            }
            _ => V::A(it.map(store).collect()),
        })
    }
}

fn v_first(e: &E) -> Option<&E> {
    match e {
        E::Call(_, v) => v.first(),
        _ => None,
    }
}

/// An element of an array: numbers as numbers.
fn num(s: String) -> V {
    match s.parse() {
        Ok(i) => V::I(i),
        Err(_) => V::S(s),
    }
}

fn compare(order: &[Ord_], a: &[V], b: &[V]) -> std::cmp::Ordering {
    for (i, (_, desc, first)) in order.iter().enumerate() {
        let (x, y) = (&a[i], &b[i]);
        let c = match (*x == V::Null, *y == V::Null) {
            (true, true) => continue,
            (true, false) if *first => return std::cmp::Ordering::Less,
            (true, false) => return std::cmp::Ordering::Greater,
            (false, true) if *first => return std::cmp::Ordering::Greater,
            (false, true) => return std::cmp::Ordering::Less,
            _ => x.cmp(y),
        };
        if c.is_ne() {
            return if *desc { c.reverse() } else { c };
        }
    }
    std::cmp::Ordering::Equal
}

fn conjuncts<'a>(e: &'a E, out: &mut Vec<&'a E>) {
    match e {
        E::Bin(o, a, b) if o == "and" => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        _ => out.push(e),
    }
}

/// Does the condition only use these tables?
fn judged(e: &E, known: &[String]) -> bool {
    let all = |v: &[E]| v.iter().all(|x| judged(x, known));
    match e {
        E::Col(Some(a), _) => known.contains(a),
        E::Param(_) | E::Lit(_) => true,
        E::Cast(a, _) | E::Not(a) | E::Neg(a) | E::IsNull(a, _) => judged(a, known),
        E::Bin(_, a, b) | E::AnyOf(a, b) => judged(a, known) && judged(b, known),
        E::Call(_, v) | E::Array(v) => all(v),
        E::In(a, v) => judged(a, known) && all(v),
        _ => false,
    }
}

fn like(s: &str, p: &str) -> bool {
    let (s, p): (Vec<char>, Vec<char>) = (s.chars().collect(), p.chars().collect());
    fn go(s: &[char], p: &[char]) -> bool {
        match p.split_first() {
            None => s.is_empty(),
            Some(('%', r)) => (0..=s.len()).any(|i| go(&s[i..], r)),
            Some(('_', r)) => !s.is_empty() && go(&s[1..], r),
            Some(('\\', r)) if !r.is_empty() => s.first() == Some(&r[0]) && go(&s[1..], &r[1..]),
            Some((c, r)) => s.first() == Some(c) && go(&s[1..], r),
        }
    }
    go(&s, &p)
}

fn has_agg(e: &E) -> bool {
    match e {
        E::Agg(_) => true,
        E::Call(_, a) | E::Array(a) => a.iter().any(has_agg),
        E::Bin(_, a, b) | E::AnyOf(a, b) | E::Index(a, b) => has_agg(a) || has_agg(b),
        E::Cast(a, _) | E::Not(a) | E::Neg(a) | E::IsNull(a, _) => has_agg(a),
        E::In(a, v) => has_agg(a) || v.iter().any(has_agg),
        E::Case(o, v, x) => o.iter().any(|x| has_agg(x)) || x.iter().any(|x| has_agg(x)) || v.iter().any(|x| has_agg(&x.0) || has_agg(&x.1)),
        _ => false,
    }
}

pub fn cast(v: V, t: &str) -> R<V> {
    if v == V::Null {
        return Ok(v);
    }
    if ["int2", "int4", "int8", "oid"].contains(&t) {
        return match store(&v).and_then(|s| s.trim().parse().ok()) {
            Some(i) => Ok(V::I(i)),
            None => err("22P02", "invalid input syntax for type integer"),
        };
    }
    if t == "bool" {
        return match store(&v).as_deref() {
            Some("t" | "true") => Ok(V::B(true)),
            Some("f" | "false") => Ok(V::B(false)),
            _ => err("22P02", "invalid input syntax for type boolean"),
        };
    }
    if t.ends_with("[]") {
        return match v {
            V::A(_) => Ok(v),
            _ => err("22P02", "malformed array literal"),
        };
    }
    if t == "json" || t == "jsonb" {
        let s = store(&v).unwrap_or_default();
        return match crate::json::parse(&s) {
            Ok(_) => Ok(V::S(s)),
            Err(e) => err("22P02", format!("invalid input syntax for type json: {e}")),
        };
    }
    Ok(match v {
        V::S(_) => v,
        V::A(_) => return err("42846", "cannot cast array to text here"),
        x => V::S(store(&x).unwrap_or_default()),
    })
}
