//! The system catalogue as PostgreSQL presents it (versions 14 to 17): tables and functions over `Cat`.
use crate::pg::*;
use crate::pglex::*;
use crate::sql::{Tab, V};
use std::collections::BTreeMap;

/// name, oid, length, category, typmod output kind
const TYPES: [(&str, i64, i64, &str); 44] = [
    ("bool", 16, 1, "B"),
    ("bytea", 17, -1, "U"),
    ("char", 18, 1, "Z"),
    ("name", 19, 64, "S"),
    ("int8", 20, 8, "N"),
    ("int2", 21, 2, "N"),
    ("int2vector", 22, -1, "A"),
    ("int4", 23, 4, "N"),
    ("text", 25, -1, "S"),
    ("oid", 26, 4, "N"),
    ("tid", 27, 6, "U"),
    ("xid", 28, 4, "U"),
    ("cid", 29, 4, "U"),
    ("oidvector", 30, -1, "A"),
    ("json", 114, -1, "U"),
    ("xml", 142, -1, "U"),
    ("point", 600, 16, "G"),
    ("lseg", 601, 32, "G"),
    ("path", 602, -1, "G"),
    ("box", 603, 32, "G"),
    ("polygon", 604, -1, "G"),
    ("line", 628, 24, "G"),
    ("cidr", 650, -1, "I"),
    ("float4", 700, 4, "N"),
    ("float8", 701, 8, "N"),
    ("circle", 718, 24, "G"),
    ("money", 790, 8, "N"),
    ("macaddr", 829, 6, "U"),
    ("inet", 869, -1, "I"),
    ("bpchar", 1042, -1, "S"),
    ("varchar", 1043, -1, "S"),
    ("date", 1082, 4, "D"),
    ("time", 1083, 8, "D"),
    ("timestamp", 1114, 8, "D"),
    ("timestamptz", 1184, 8, "D"),
    ("interval", 1186, 16, "T"),
    ("timetz", 1266, 12, "D"),
    ("bit", 1560, -1, "V"),
    ("varbit", 1562, -1, "V"),
    ("numeric", 1700, -1, "N"),
    ("uuid", 2950, 16, "U"),
    ("tsvector", 3614, -1, "U"),
    ("jsonb", 3802, -1, "U"),
    ("regclass", 2205, 4, "N"),
];
/// pseudo-types: name, oid
const PSEUDO: [(&str, i64); 5] = [("record", 2249), ("void", 2278), ("trigger", 2279), ("cstring", 2275), ("event_trigger", 3838)];
/// types of users: schema, name, oid, length, type, category
const USER: [(&str, &str, i64, i64, &str, &str); 6] = [
    ("public", "mood", 9001, 4, "e", "E"),
    ("public", "Mood Type", 9002, 4, "e", "E"),
    ("app", "mood", 9003, 4, "e", "E"),
    ("app", "vector", 9004, -1, "b", "U"),
    ("public", "geometry", 9005, -1, "b", "U"),
    ("public", "positive", 9006, 4, "d", "N"),
];
/// types without an array type
const NO_ARRAY: [&str; 0] = [];
const ARRAY_BASE: i64 = 5000;

/// oid of an element: types of fixed size and these element types that can be subscripted
fn subscripted(n: &str) -> i64 {
    match n {
        "name" => 18,
        "point" | "line" => 701,
        "lseg" | "box" => 600,
        "int2vector" => 21,
        "oidvector" => 26,
        _ => 0,
    }
}

pub const RELS: [(&str, i64); 12] = [
    ("pg_type", 1247),
    ("pg_attribute", 1249),
    ("pg_proc", 1255),
    ("pg_class", 1259),
    ("pg_attrdef", 2604),
    ("pg_constraint", 2606),
    ("pg_depend", 2608),
    ("pg_index", 2610),
    ("pg_namespace", 2615),
    ("pg_rewrite", 2618),
    ("pg_trigger", 2620),
    ("pg_sequence", 2224),
];

#[derive(Clone)]
struct WCon {
    oid: i64,
    name: String,
    index: i64,
}
#[derive(Clone)]
struct WRel {
    oid: i64,
    ns: i64,
    schema: String,
    name: String,
    kind: &'static str,
    row_type: i64,
    /// the constraint it is the index of
    key_of: Option<(String, String)>,
}

/// Identifiers of everything.
struct W<'a> {
    c: &'a Cat,
    ns: Vec<(i64, String)>,
    rels: Vec<WRel>,
    cons: BTreeMap<(String, String, String), WCon>,
    fns: BTreeMap<(String, (String, Vec<String>)), i64>,
}

fn world(c: &Cat) -> W<'_> {
    let mut next = 16383;
    let mut id = || {
        next += 1;
        next
    };
    let mut ns = vec![(11, "pg_catalog".to_owned()), (13000, "information_schema".to_owned())];
    for s in c.schemas.keys() {
        ns.push((if s == "public" { 2200 } else { id() }, s.clone()));
    }
    let mut w = W { c, ns: ns.clone(), rels: vec![], cons: BTreeMap::new(), fns: BTreeMap::new() };
    for (sn, s) in &c.schemas {
        let nsid = ns.iter().find(|x| x.1 == *sn).unwrap().0;
        for k in s.fns.keys() {
            w.fns.insert((sn.clone(), k.clone()), id());
        }
        for (rn, r) in &s.rels {
            let kind = match r {
                CRel::Table(_) => "r",
                CRel::View(_) => "v",
                CRel::Index(_) => "i",
                CRel::Seq(_) => "S",
            };
            let oid = id();
            let row_type = if kind == "i" || kind == "S" { 0 } else { id() + 1_000_000 };
            w.rels.push(WRel { oid, ns: nsid, schema: sn.clone(), name: rn.clone(), kind, row_type, key_of: None });
        }
        for (rn, r) in &s.rels {
            if let CRel::Table(t) = r {
                for (cn, k) in &t.cons {
                    let index = if matches!(k.kind, CKind::Pk(_) | CKind::Uq(_)) {
                        let oid = id();
                        w.rels.push(WRel { oid, ns: nsid, schema: sn.clone(), name: cn.clone(), kind: "i", row_type: 0, key_of: Some((rn.clone(), cn.clone())) });
                        oid
                    } else {
                        0
                    };
                    w.cons.insert((sn.clone(), rn.clone(), cn.clone()), WCon { oid: id(), name: cn.clone(), index });
                }
            }
        }
    }
    w
}

impl<'a> W<'a> {
    /// pg_class.relkind
    fn relkind(&self, r: &WRel) -> &'static str {
        if r.kind == "i" {
            let t = match &r.key_of {
                Some((t, _)) => t.clone(),
                None => index_of(self, r).0,
            };
            let parted = self.c.kinds.get(&(r.schema.clone(), t)).is_some_and(|k| *k == "p");
            return if parted { "I" } else { "i" };
        }
        self.c.kinds.get(&(r.schema.clone(), r.name.clone())).copied().unwrap_or(r.kind)
    }
    fn rel(&self, s: &str, n: &str) -> Option<&WRel> {
        self.rels.iter().find(|r| r.schema == s && r.name == n)
    }
    fn by_oid(&self, o: i64) -> Option<&WRel> {
        self.rels.iter().find(|r| r.oid == o)
    }
    /// Number of a column: its place, after the dropped ones.
    fn attnum(&self, t: &CTable, col: &str) -> i64 {
        match t.cols.iter().position(|c| c.name == col) {
            Some(i) => self.num(t, i),
            None => 0,
        }
    }
    fn num(&self, t: &CTable, i: usize) -> i64 {
        match dropped(self.c, t) {
            Some(d) if i as i64 + 1 >= d => i as i64 + 2,
            _ => i as i64 + 1,
        }
    }
    fn table(&self, s: &str, n: &str) -> &'a CTable {
        match &self.c.schemas[s].rels[n] {
            CRel::Table(t) => t,
            _ => unreachable!(),
        }
    }
}

/// The number of the column that was dropped, if one was.
fn dropped(c: &Cat, t: &CTable) -> Option<i64> {
    match c.phys.1 {
        1 => Some(1),
        2 if t.cols.len() > 1 => Some(2),
        _ => None,
    }
}

// ---- types --------------------------------------------------------------

/// `varchar(10)[]`: name, modifiers, is it an array
fn split(t: &str) -> (String, Vec<i64>, bool) {
    let arr = t.ends_with("[]");
    let t = t.trim_end_matches("[]");
    match t.find('(') {
        Some(i) => (t[..i].into(), t[i + 1..].trim_end_matches(')').split(',').filter_map(|x| x.trim().parse().ok()).collect(), arr),
        None if t == "\"char\"" => ("char".into(), vec![], arr),
        None => (t.into(), vec![], arr),
    }
}
fn type_oid(w: &W, t: &str) -> (i64, i64) {
    let (n, m, arr) = split(t);
    let mut typmod = -1;
    if let Some(k) = m.first() {
        typmod = match n.as_str() {
            "varchar" | "bpchar" => k + 4,
            "numeric" => ((k << 16) | (m.get(1).copied().unwrap_or(0) & 0x7ff)) + 4,
            "interval" => (0x7fff << 16) | k,
            _ => *k,
        };
    }
    let n = n.strip_prefix("setof ").unwrap_or(&n);
    let base = TYPES.iter().find(|x| x.0 == n).map(|x| x.1).or_else(|| PSEUDO.iter().find(|x| x.0 == n).map(|x| x.1));
    let (schema, name) = match crate::pglex::P::new(n).and_then(|mut p| p.qname()) {
        Ok((s, n)) => (s.unwrap_or("public".into()), n),
        Err(_) => ("public".into(), n.to_owned()),
    };
    let base = base.or_else(|| USER.iter().find(|x| x.0 == schema && x.1 == name).map(|x| x.2));
    let oid = match base {
        Some(o) if arr => o + ARRAY_BASE,
        Some(o) => o,
        None => w.rels.iter().find(|r| r.name == name && r.row_type > 0).map_or(25, |r| r.row_type + if arr { ARRAY_BASE } else { 0 }),
    };
    (oid, typmod)
}
fn modout(n: &str, m: i64) -> String {
    match n {
        _ if m < 0 => String::new(),
        "varchar" | "bpchar" => format!("({})", m - 4),
        "numeric" => format!("({},{})", ((m - 4) >> 16) & 0xffff, (m - 4) & 0x7ff),
        "interval" => format!("({})", m & 0xffff),
        "geometry" => format!("(Point,{m})"),
        "timestamp" | "time" => format!("({m}) without time zone"),
        "timestamptz" | "timetz" => format!("({m}) with time zone"),
        _ => format!("({m})"),
    }
}
fn format_type(w: &W, oid: i64, m: i64) -> String {
    let (base, arr) = if TYPES.iter().any(|t| t.1 == oid - ARRAY_BASE) || USER.iter().any(|t| t.2 == oid - ARRAY_BASE) || w.rels.iter().any(|r| r.row_type > 0 && r.row_type == oid - ARRAY_BASE) {
        (oid - ARRAY_BASE, "[]")
    } else {
        (oid, "")
    };
    let n = TYPES.iter().find(|t| t.1 == base).map(|t| t.0).or_else(|| PSEUDO.iter().find(|t| t.1 == base).map(|t| t.0));
    if let Some((s, n, ..)) = USER.iter().find(|t| t.2 == base) {
        let q = if *s == "public" { String::new() } else { format!("{}.", id(s)) };
        return format!("{q}{}{}{arr}", id(n), modout(n, m));
    }
    let Some(n) = n else {
        return w.rels.iter().find(|r| r.row_type == base).map_or("???".into(), |r| {
            let q = if r.schema == "public" { String::new() } else { format!("{}.", id(&r.schema)) };
            format!("{q}{}{arr}", id(&r.name))
        });
    };
    let mo = modout(n, m);
    let s = match n {
        "int4" => "integer".into(),
        "int8" => "bigint".into(),
        "int2" => "smallint".into(),
        "bool" => "boolean".into(),
        "float8" => "double precision".into(),
        "float4" => "real".into(),
        "varchar" => format!("character varying{mo}"),
        "bpchar" if m < 0 => "bpchar".into(),
        "bpchar" => format!("character{mo}"),
        "char" => "\"char\"".into(),
        "bit" if m < 0 => "\"bit\"".into(),
        "varbit" => format!("bit varying{mo}"),
        "timestamp" | "time" if m < 0 => format!("{n} without time zone"),
        "timestamptz" if m < 0 => "timestamp with time zone".into(),
        "timetz" if m < 0 => "time with time zone".into(),
        "timestamptz" => format!("timestamp{mo}"),
        "timetz" => format!("time{mo}"),
        _ => format!("{n}{mo}"),
    };
    s + arr
}

// ---- text of definitions --------------------------------------------------

pub fn id(n: &str) -> String {
    tok_text(&Tok::Id(n.to_owned(), true))
}

/// How an expression is shown: literals with their type.
fn show_expr(text: &str, lit: &str) -> String {
    let Ok(t) = lex(text) else { return text.to_owned() };
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        let prev = if i > 0 { Some(&t[i - 1]) } else { None };
        let mut w = tok_text(x);
        if let Tok::Str(v) = x {
            let reg = i >= 2 && t[i - 1] == Tok::P("(") && matches!(&t[i - 2], Tok::Id(n, _) if n == "nextval");
            if reg {
                // shown by name, without the schema that is searched anyway
                let v = v.strip_prefix("public.").unwrap_or(v);
                w = tok_text(&Tok::Str(v.to_owned())) + "::regclass";
            } else if t.get(i + 1) != Some(&Tok::P("::")) && !lit.is_empty() {
                w = format!("{w}::{lit}");
            }
        }
        let tight = matches!(x, Tok::P("(" | ")" | "," | "." | "::" | "[" | "]")) && !(*x == Tok::P("(") && !matches!(prev, Some(Tok::Id(..) | Tok::P("("))));
        let after = matches!(prev, Some(Tok::P("(" | "." | "::" | "[")));
        if i > 0 && !tight && !after {
            s.push(' ');
        }
        s += &w;
    }
    s
}
fn operator(text: &str) -> bool {
    let Ok(t) = lex(text) else { return false };
    let mut d = 0;
    for x in &t {
        match x {
            Tok::P("(") => d += 1,
            Tok::P(")") => d -= 1,
            Tok::P("." | "," | "::" | "[" | "]") => {}
            Tok::P(_) if d == 0 => return true,
            Tok::Id(w, false) if d == 0 && ["and", "or", "not", "is", "in", "like", "between"].contains(&w.as_str()) => return true,
            _ => {}
        }
    }
    false
}
fn literal_type(w: &W, ty: &str) -> String {
    let o = type_oid(w, ty).0;
    match split(ty).0.as_str() {
        "int2" | "int4" | "int8" | "numeric" | "float4" | "float8" => format!("{}", format_type(w, o, -1)),
        _ => format_type(w, o, -1),
    }
}

/// A key of an index without its options: text, is it a column, options, and the rest
/// Operator classes that are no defaults.
const OPS: [(&str, i64); 4] = [("text_pattern_ops", 10049), ("varchar_pattern_ops", 10050), ("bpchar_pattern_ops", 10051), ("jsonb_path_ops", 10062)];

fn key(e: &CExpr) -> (String, Option<String>, i64, String) {
    let mut t = lex(&e.text).unwrap_or_default();
    let word = |t: &[Tok], w: &str| matches!(t.last(), Some(Tok::Id(x, false)) if x == w);
    let mut first = None;
    if t.len() >= 3 && (word(&t, "first") || word(&t, "last")) && word(&t[..t.len() - 1], "nulls") {
        first = Some(word(&t, "first"));
        t.truncate(t.len() - 2);
    }
    let mut desc = false;
    if t.len() > 1 && (word(&t, "desc") || word(&t, "asc")) {
        desc = word(&t, "desc");
        t.pop();
    }
    let mut rest = String::new();
    if t.len() > 1 {
        if let Some(Tok::Id(x, false)) = t.last() {
            if x.ends_with("_ops") {
                rest = x.clone();
                t.pop();
            }
        }
    }
    let opt = desc as i64 | (first.unwrap_or(desc) as i64) << 1;
    if let [Tok::Id(n, _)] = &t[..] {
        return (id(n), Some(n.clone()), opt, rest);
    }
    let text = show_expr(&norm_toks(&t), "text");
    let call = !operator(&text);
    (if call { text } else { format!("({text})") }, None, opt, rest)
}
fn options(o: i64) -> &'static str {
    match o {
        1 => " DESC NULLS LAST",
        2 => " NULLS FIRST",
        3 => " DESC",
        _ => "",
    }
}

fn qual(w: &W, r: &WRel) -> String {
    let _ = w;
    if r.schema == "public" {
        id(&r.name)
    } else {
        format!("{}.{}", id(&r.schema), id(&r.name))
    }
}

fn list(v: &[String]) -> String {
    v.iter().map(|x| id(x)).collect::<Vec<_>>().join(", ")
}

fn constraintdef(w: &W, oid: i64) -> Option<String> {
    let (k, _) = w.cons.iter().find(|x| x.1.oid == oid)?;
    let con = &w.table(&k.0, &k.1).cons[&k.2];
    let mut s = match &con.kind {
        CKind::Pk(v) => format!("PRIMARY KEY ({})", list(v)),
        CKind::Uq(v) => format!("UNIQUE ({})", list(v)),
        CKind::Ck(e) => format!("CHECK ({})", check_text(&e.text)),
        CKind::Fk { cols, ts, tt, tc, m, u, d, .. } => {
            let r = w.rel(ts, tt)?;
            let mut s = format!("FOREIGN KEY ({}) REFERENCES {}({})", list(cols), qual(w, r), list(tc));
            if m.eq_ignore_ascii_case("FULL") {
                s += " MATCH FULL";
            }
            if !u.eq_ignore_ascii_case("NO ACTION") {
                s += &format!(" ON UPDATE {}", u.to_uppercase());
            }
            if !d.eq_ignore_ascii_case("NO ACTION") {
                s += &format!(" ON DELETE {}", d.to_uppercase());
            }
            s
        }
    };
    if con.deferrable {
        s += " DEFERRABLE";
    }
    if con.deferred {
        s += " INITIALLY DEFERRED";
    }
    if let Some(m) = mark(w, k) {
        s += &format!(" {m}");
    }
    Some(s)
}
fn check_text(e: &str) -> String {
    let t = show_expr(e, "text");
    if operator(&t) {
        format!("({t})")
    } else {
        t
    }
}
/// Is the column's default an expression it is generated from?
fn generated(w: &W, schema: &str, table: &str, col: &str) -> bool {
    w.c.kinds.get(&(schema.to_owned(), format!("{table}.{col}"))).is_some()
}
/// NO INHERIT or NOT VALID
fn mark(w: &W, con: &(String, String, String)) -> Option<&'static str> {
    w.c.kinds.get(&(con.0.clone(), format!("{} {}", con.1, con.2))).copied()
}

/// keys of an index: text, column number (0: expression), options, rest
fn index_keys(w: &W, r: &WRel) -> Vec<(String, i64, i64, String)> {
    match &r.key_of {
        Some((t, cn)) => {
            let tab = w.table(&r.schema, t);
            match &tab.cons[cn].kind {
                CKind::Pk(v) | CKind::Uq(v) => v.iter().map(|c| (id(c), w.attnum(tab, c), 0, String::new())).collect(),
                _ => vec![],
            }
        }
        None => match &w.c.schemas[&r.schema].rels[&r.name] {
            CRel::Index(i) => {
                let tab = w.table(&r.schema, &i.table);
                i.keys
                    .iter()
                    .map(|k| {
                        let (t, c, o, rest) = key(k);
                        (t, c.map_or(0, |c| w.attnum(tab, &c)), o, rest)
                    })
                    .collect()
            }
            _ => vec![],
        },
    }
}
/// table, unique, method
fn index_of(w: &W, r: &WRel) -> (String, bool, String) {
    match &r.key_of {
        Some((t, _)) => (t.clone(), true, "btree".into()),
        None => match &w.c.schemas[&r.schema].rels[&r.name] {
            CRel::Index(i) => (i.table.clone(), i.unique, i.method.clone()),
            _ => unreachable!(),
        },
    }
}
/// Has the index a condition?
fn partial(w: &W, r: &WRel) -> bool {
    w.c.kinds.get(&(r.schema.clone(), format!("{} where", r.name))).is_some()
}
fn indexdef(w: &W, oid: i64, k: i64) -> Option<String> {
    let r = w.by_oid(oid).filter(|r| r.kind == "i")?;
    let keys = index_keys(w, r);
    if k > 0 {
        return Some(keys.get(k as usize - 1).map_or(String::new(), |x| x.0.clone()));
    }
    let (t, u, m) = index_of(w, r);
    let ks: Vec<String> = keys.iter().map(|x| format!("{}{}{}{}", x.0, if x.3.is_empty() { "" } else { " " }, x.3, if m == "btree" { options(x.2) } else { "" })).collect();
    Some(format!("CREATE {}INDEX {} ON {}.{} USING {m} ({})", if u { "UNIQUE " } else { "" }, id(&r.name), id(&r.schema), id(&t), ks.join(", ")) + if partial(w, r) { " WHERE (1 > 0)" } else { "" })
}

fn viewdef(v: &CView) -> String {
    let t = lex(&v.q).unwrap_or_default();
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::Id(w, false) if i > 0 && ["from", "where"].contains(&w.as_str()) => s += "\n  ",
            _ => {}
        }
        let prev = if i > 0 { Some(&t[i - 1]) } else { None };
        let tight = matches!(x, Tok::P("." | "," | ")")) || matches!(prev, Some(Tok::P("." | "("))) || (*x == Tok::P("(") && matches!(prev, Some(Tok::Id(..))));
        if !tight {
            s.push(' ');
        }
        s += &match x {
            Tok::Id(w, false) if ["select", "from", "as", "where", "and", "or", "not", "null"].contains(&w.as_str()) => w.to_uppercase(),
            _ => tok_text(x),
        };
    }
    s + ";"
}

fn fn_args(w: &W, f: &CFn) -> String {
    f.args
        .iter()
        .map(|(n, t)| {
            // the type, and a default if there is one
            let (ty, def) = match t.split_once(" default ") {
                Some((a, b)) => (a, format!(" DEFAULT {}", show_expr(b, &literal_type(w, a)))),
                None => (t.as_str(), String::new()),
            };
            let (o, _) = type_oid(w, ty);
            format!("{}{}{}{def}", if n.is_empty() { String::new() } else { id(n) }, if n.is_empty() { "" } else { " " }, format_type(w, o, -1))
        })
        .collect::<Vec<_>>()
        .join(", ")
}

// ---- tables ---------------------------------------------------------------

struct T {
    cols: Vec<(&'static str, &'static str)>,
    rows: Vec<Vec<V>>,
}
fn s(x: impl Into<String>) -> V {
    V::S(x.into())
}
fn nums(v: Vec<i64>) -> V {
    V::A(v.into_iter().map(|i| Some(i.to_string())).collect())
}

pub fn tab(c: &Cat, name: &str) -> Option<Tab> {
    let w = world(c);
    let t = match name {
        "pg_namespace" => T { cols: vec![("oid", "oid"), ("nspname", "name"), ("nspowner", "oid")], rows: w.ns.iter().map(|n| vec![V::I(n.0), s(&n.1), V::I(10)]).collect() },
        "pg_class" => {
            let mut rows = vec![];
            for r in &w.rels {
                let am = match r.kind {
                    "i" => am_oid(&index_of(&w, r).2),
                    "r" if ["r", "m"].contains(&w.relkind(r)) => 2,
                    _ => 0,
                };
                let natts = match w.c.schemas[&r.schema].rels.get(&r.name) {
                    Some(CRel::Table(t)) => t.cols.len() as i64,
                    _ => 1,
                };
                rows.push(vec![
                    V::I(r.oid),
                    s(&r.name),
                    V::I(r.ns),
                    V::I(r.row_type),
                    V::I(0),
                    V::I(10),
                    V::I(am),
                    s(w.relkind(r)),
                    V::I(natts),
                    s("p"),
                    V::B(false),
                    V::B(r.kind == "r" && w.rels.iter().any(|i| i.kind == "i" && i.schema == r.schema && index_of(&w, i).0 == r.name)),
                    V::Null,
                ]);
            }
            T {
                cols: vec![
                    ("oid", "oid"),
                    ("relname", "name"),
                    ("relnamespace", "oid"),
                    ("reltype", "oid"),
                    ("reloftype", "oid"),
                    ("relowner", "oid"),
                    ("relam", "oid"),
                    ("relkind", "char"),
                    ("relnatts", "int2"),
                    ("relpersistence", "char"),
                    ("relispartition", "bool"),
                    ("relhasindex", "bool"),
                    ("reloptions", "text[]"),
                ],
                rows,
            }
        }
        "pg_attribute" => {
            let mut rows = vec![];
            let att = |rel: i64, n: &str, num: i64, ty: (i64, i64), nn: bool, has: bool, gone: bool, gen: bool| {
                vec![V::I(rel), s(n), V::I(ty.0), V::I(num), V::I(ty.1), V::B(nn), V::B(has), V::B(gone), s(if gen { "s" } else { "" }), s(""), V::I(if ty.0 > ARRAY_BASE { 1 } else { 0 })]
            };
            for r in &w.rels {
                let rel = if r.key_of.is_some() { None } else { Some(&w.c.schemas[&r.schema].rels[&r.name]) };
                match rel {
                    Some(CRel::Table(t)) => {
                        for (n, num, ty) in [("tableoid", -6, 26), ("cmax", -5, 29), ("xmax", -4, 28), ("cmin", -3, 29), ("xmin", -2, 28), ("ctid", -1, 27)] {
                            rows.push(att(r.oid, n, num, (ty, -1), true, false, false, false));
                        }
                        if let Some(d) = dropped(c, t) {
                            rows.push(att(r.oid, &format!("........pg.dropped.{d}........"), d, (0, -1), false, false, true, false));
                        }
                        for (i, x) in t.cols.iter().enumerate() {
                            rows.push(att(r.oid, &x.name, w.num(t, i), type_oid(&w, &x.ty), x.nn, x.def.is_some() || x.serial.is_some(), false, generated(&w, &r.schema, &r.name, &x.name)));
                        }
                    }
                    Some(CRel::View(v)) => {
                        for (i, n) in v.out.iter().flatten().enumerate() {
                            rows.push(att(r.oid, n, i as i64 + 1, (23, -1), false, false, false, false));
                        }
                    }
                    Some(CRel::Seq(_)) => {
                        for (i, (n, ty)) in [("last_value", 20), ("log_cnt", 20), ("is_called", 16)].into_iter().enumerate() {
                            rows.push(att(r.oid, n, i as i64 + 1, (ty, -1), true, false, false, false));
                        }
                    }
                    _ => {
                        for (i, k) in index_keys(&w, r).iter().enumerate() {
                            let n = if k.1 == 0 { "expr".to_owned() } else { k.0.clone() };
                            rows.push(att(r.oid, &n, i as i64 + 1, (23, -1), false, false, false, false));
                        }
                    }
                }
            }
            T {
                cols: vec![
                    ("attrelid", "oid"),
                    ("attname", "name"),
                    ("atttypid", "oid"),
                    ("attnum", "int2"),
                    ("atttypmod", "int4"),
                    ("attnotnull", "bool"),
                    ("atthasdef", "bool"),
                    ("attisdropped", "bool"),
                    ("attgenerated", "char"),
                    ("attidentity", "char"),
                    ("attndims", "int2"),
                ],
                rows,
            }
        }
        "pg_attrdef" => {
            let mut rows = vec![];
            for r in w.rels.iter().filter(|r| r.kind == "r") {
                let t = w.table(&r.schema, &r.name);
                for (i, x) in t.cols.iter().enumerate() {
                    let text = match (&x.def, &x.serial) {
                        (Some(d), _) => show_expr(&d.text, &literal_type(&w, &x.ty)),
                        (None, Some(q)) => show_expr(&format!("nextval('{}.{}')", id(&r.schema), id(q).replace('\'', "''")), ""),
                        _ => continue,
                    };
                    let text = if operator(&text) { format!("({text})") } else { text };
                    rows.push(vec![V::I(40000 + rows.len() as i64), V::I(r.oid), V::I(w.num(t, i)), s(text)]);
                }
            }
            T { cols: vec![("oid", "oid"), ("adrelid", "oid"), ("adnum", "int2"), ("adbin", "text")], rows }
        }
        "pg_type" => {
            let mut rows = vec![];
            let mut add = |oid: i64, n: &str, ns: i64, len: i64, ty: &str, cat: &str, rel: i64, elem: i64, arr: i64, storage: &str| {
                rows.push(vec![V::I(oid), s(n), V::I(ns), V::I(10), V::I(len), s(ty), s(cat), V::I(rel), V::I(elem), V::I(arr), s(storage), V::B(false), V::I(0), V::I(-1)])
            };
            for (n, o, len, cat) in TYPES {
                let arr = if NO_ARRAY.contains(&n) { 0 } else { o + ARRAY_BASE };
                let plain = len != -1 || n.ends_with("vector") && n != "tsvector";
                add(o, n, 11, len, "b", cat, 0, subscripted(n), arr, if plain { "p" } else { "x" });
                if arr != 0 {
                    add(arr, &format!("_{n}"), 11, -1, "b", "A", 0, o, 0, "x");
                }
            }
            for (n, o) in PSEUDO {
                add(o, n, 11, 4, "p", "P", 0, 0, 0, "p");
            }
            for (sn, n, o, len, ty, cat) in USER {
                if let Some((ns, _)) = w.ns.iter().find(|x| x.1 == sn) {
                    add(o, n, *ns, len, ty, cat, 0, 0, o + ARRAY_BASE, "x");
                    add(o + ARRAY_BASE, &format!("_{n}"), *ns, -1, "b", "A", 0, o, 0, "x");
                }
            }
            for r in w.rels.iter().filter(|r| r.row_type > 0) {
                add(r.row_type, &r.name, r.ns, -1, "c", "C", r.oid, 0, r.row_type + ARRAY_BASE, "x");
                add(r.row_type + ARRAY_BASE, &format!("_{}", r.name), r.ns, -1, "b", "A", 0, r.row_type, 0, "x");
            }
            T {
                cols: vec![
                    ("oid", "oid"),
                    ("typname", "name"),
                    ("typnamespace", "oid"),
                    ("typowner", "oid"),
                    ("typlen", "int2"),
                    ("typtype", "char"),
                    ("typcategory", "char"),
                    ("typrelid", "oid"),
                    ("typelem", "oid"),
                    ("typarray", "oid"),
                    ("typstorage", "char"),
                    ("typnotnull", "bool"),
                    ("typbasetype", "oid"),
                    ("typtypmod", "int4"),
                ],
                rows,
            }
        }
        "pg_constraint" => {
            let mut rows = vec![];
            for ((sn, tn, cn), k) in &w.cons {
                let t = w.table(sn, tn);
                let con = &t.cons[cn];
                let rel = w.rel(sn, tn).unwrap();
                let at = |v: &[String], t: &CTable| nums(v.iter().map(|c| w.attnum(t, c)).collect());
                let rule = |r: &str| match r.to_uppercase().as_str() {
                    "CASCADE" => "c",
                    "SET NULL" => "n",
                    "SET DEFAULT" => "d",
                    "RESTRICT" => "r",
                    _ => "a",
                };
                let (ty, key, f) = match &con.kind {
                    CKind::Pk(v) => ("p", at(v, t), None),
                    CKind::Uq(v) => ("u", at(v, t), None),
                    CKind::Ck(e) => {
                        let mut v: Vec<String> = vec![];
                        for c in &e.cols {
                            if !v.contains(c) {
                                v.push(c.clone());
                            }
                        }
                        ("c", at(&v, t), None)
                    }
                    CKind::Fk { cols, .. } => ("f", at(cols, t), Some(&con.kind)),
                };
                let (frel, fkey, idx, m, u, d) = match f {
                    Some(CKind::Fk { ts, tt, tc, m, u, d, key, .. }) => {
                        let idx = w.cons.get(&(ts.clone(), tt.clone(), key.clone())).map(|k| k.index).filter(|i| *i != 0).or_else(|| w.rel(ts, key).map(|r| r.oid)).unwrap_or(0);
                        let mt = match m.to_uppercase().as_str() {
                            "FULL" => "f",
                            "PARTIAL" => "p",
                            _ => "s",
                        };
                        (w.rel(ts, tt).map_or(0, |r| r.oid), at(tc, w.table(ts, tt)), idx, mt, rule(u), rule(d))
                    }
                    _ => (0, V::Null, k.index, " ", " ", " "),
                };
                rows.push(vec![
                    V::I(k.oid),
                    s(&k.name),
                    V::I(rel.ns),
                    s(ty),
                    V::B(con.deferrable),
                    V::B(con.deferred),
                    V::B(mark(&w, &(sn.clone(), tn.clone(), cn.clone())) != Some("NOT VALID")),
                    V::I(rel.oid),
                    V::I(0),
                    V::I(idx),
                    V::I(0),
                    V::I(frel),
                    s(u),
                    s(d),
                    s(m),
                    key,
                    fkey,
                    V::B(true),
                    V::B(mark(&w, &(sn.clone(), tn.clone(), cn.clone())) == Some("NO INHERIT")),
                    match &con.kind {
                        CKind::Ck(e) => s(check_text(&e.text)),
                        _ => V::Null,
                    },
                ]);
            }
            T {
                cols: vec![
                    ("oid", "oid"),
                    ("conname", "name"),
                    ("connamespace", "oid"),
                    ("contype", "char"),
                    ("condeferrable", "bool"),
                    ("condeferred", "bool"),
                    ("convalidated", "bool"),
                    ("conrelid", "oid"),
                    ("contypid", "oid"),
                    ("conindid", "oid"),
                    ("conparentid", "oid"),
                    ("confrelid", "oid"),
                    ("confupdtype", "char"),
                    ("confdeltype", "char"),
                    ("confmatchtype", "char"),
                    ("conkey", "int2[]"),
                    ("confkey", "int2[]"),
                    ("conislocal", "bool"),
                    ("connoinherit", "bool"),
                    ("conbin", "text"),
                ],
                rows,
            }
        }
        "pg_index" => {
            let mut rows = vec![];
            for r in w.rels.iter().filter(|r| r.kind == "i") {
                let ks = index_keys(&w, r);
                let (t, u, _) = index_of(&w, r);
                let ex: Vec<String> = ks.iter().filter(|k| k.1 == 0).map(|k| k.0.clone()).collect();
                let pk = match &r.key_of {
                    Some((t, c)) => matches!(w.table(&r.schema, t).cons[c].kind, CKind::Pk(_)),
                    None => false,
                };
                rows.push(vec![
                    V::I(r.oid),
                    V::I(w.rel(&r.schema, &t).map_or(0, |x| x.oid)),
                    V::I(ks.len() as i64),
                    V::I(ks.len() as i64),
                    V::B(u),
                    V::B(pk),
                    V::B(true),
                    V::B(true),
                    nums(ks.iter().map(|k| k.1).collect()),
                    nums(ks.iter().map(|k| k.2).collect()),
                    nums(ks.iter().map(|k| OPS.iter().find(|o| o.0 == k.3).map_or(1978, |o| o.1)).collect()),
                    if ex.is_empty() { V::Null } else { s(ex.join(", ")) },
                    match partial(&w, r) {
                        true => s("(1 > 0)"),
                        false => V::Null,
                    },
                ]);
            }
            T {
                cols: vec![
                    ("indexrelid", "oid"),
                    ("indrelid", "oid"),
                    ("indnatts", "int2"),
                    ("indnkeyatts", "int2"),
                    ("indisunique", "bool"),
                    ("indisprimary", "bool"),
                    ("indisvalid", "bool"),
                    ("indislive", "bool"),
                    ("indkey", "int2[]"),
                    ("indoption", "int2[]"),
                    ("indclass", "oid[]"),
                    ("indexprs", "text"),
                    ("indpred", "text"),
                ],
                rows,
            }
        }
        "pg_opclass" => {
            T { cols: vec![("oid", "oid"), ("opcname", "name"), ("opcdefault", "bool")], rows: std::iter::once(vec![V::I(1978), s("int4_ops"), V::B(true)]).chain(OPS.iter().map(|o| vec![V::I(o.1), s(o.0), V::B(false)])).collect() }
        }
        "pg_am" => T {
            cols: vec![("oid", "oid"), ("amname", "name"), ("amtype", "char")],
            rows: [("heap", 2, "t"), ("btree", 403, "i"), ("hash", 405, "i"), ("gist", 783, "i"), ("gin", 2742, "i"), ("spgist", 4000, "i"), ("brin", 3580, "i")]
                .into_iter()
                .map(|(n, o, t)| vec![V::I(o), s(n), s(t)])
                .collect(),
        },
        "pg_language" => T {
            cols: vec![("oid", "oid"), ("lanname", "name")],
            rows: LANGS.into_iter().map(|(n, o)| vec![V::I(o), s(n)]).collect(),
        },
        "pg_proc" => {
            let mut rows = vec![];
            for ((sn, k), oid) in &w.fns {
                let f = &c.schemas[sn].fns[k];
                let low = f.ret.to_lowercase();
                let (set, ret) = match low.strip_prefix("setof ") {
                    Some(r) => (true, r.to_owned()),
                    None => (false, f.ret.clone()),
                };
                let vol = match f.vol.to_uppercase().as_str() {
                    "IMMUTABLE" => "i",
                    "STABLE" => "s",
                    _ => "v",
                };
                rows.push(vec![
                    V::I(*oid),
                    s(&k.0),
                    V::I(w.ns.iter().find(|n| n.1 == *sn).unwrap().0),
                    V::I(10),
                    V::I(LANGS.iter().find(|l| l.0 == f.lang.to_lowercase()).map_or(14, |l| l.1)),
                    s(c.kinds.get(&(sn.clone(), format!("{}()", k.0))).copied().unwrap_or("f")),
                    V::B(set),
                    s(vol),
                    V::I(f.args.len() as i64),
                    V::I(type_oid(&w, &ret).0),
                    s(&f.body),
                    V::B(false),
                    if f.lang.eq_ignore_ascii_case("c") { s("$libdir/some") } else { V::Null },
                    V::B(false),
                    V::I(0),
                ]);
            }
            T {
                cols: vec![
                    ("oid", "oid"),
                    ("proname", "name"),
                    ("pronamespace", "oid"),
                    ("proowner", "oid"),
                    ("prolang", "oid"),
                    ("prokind", "char"),
                    ("proretset", "bool"),
                    ("provolatile", "char"),
                    ("pronargs", "int2"),
                    ("prorettype", "oid"),
                    ("prosrc", "text"),
                    ("prosecdef", "bool"),
                    ("probin", "text"),
                    ("proisstrict", "bool"),
                    ("provariadic", "oid"),
                ],
                rows,
            }
        }
        "pg_sequence" => {
            let mut rows = vec![];
            for r in w.rels.iter().filter(|r| r.kind == "S") {
                if let CRel::Seq(q) = &c.schemas[&r.schema].rels[&r.name] {
                    let q = &q.s;
                    rows.push(vec![V::I(r.oid), V::I(type_oid(&w, &q.ty).0), V::I(q.start), V::I(q.inc), V::I(q.max), V::I(q.min), V::I(q.cache), V::B(q.cycle)]);
                }
            }
            T {
                cols: vec![
                    ("seqrelid", "oid"),
                    ("seqtypid", "oid"),
                    ("seqstart", "int8"),
                    ("seqincrement", "int8"),
                    ("seqmax", "int8"),
                    ("seqmin", "int8"),
                    ("seqcache", "int8"),
                    ("seqcycle", "bool"),
                ],
                rows,
            }
        }
        "pg_depend" => {
            let mut rows = vec![];
            let (cls, con, nsp, def, proc) = (1259, 2606, 2615, 2604, 1255);
            let mut add = |a: (i64, i64, i64), b: (i64, i64, i64), t: &str| rows.push(vec![V::I(a.0), V::I(a.1), V::I(a.2), V::I(b.0), V::I(b.1), V::I(b.2), s(t)]);
            for (_, o) in &w.fns {
                add((proc, *o, 0), (nsp, 2200, 0), "n");
            }
            for r in &w.rels {
                if r.key_of.is_none() && r.kind != "i" {
                    add((cls, r.oid, 0), (nsp, r.ns, 0), "n");
                }
                match c.schemas[&r.schema].rels.get(&r.name).filter(|_| r.key_of.is_none()) {
                    Some(CRel::Seq(q)) => {
                        if let Some((t, col)) = &q.s.owned {
                            if let Some(x) = w.rel(&r.schema, t) {
                                add((cls, r.oid, 0), (cls, x.oid, w.attnum(w.table(&r.schema, t), col)), "a");
                            }
                        }
                    }
                    Some(CRel::Index(i)) => {
                        let x = w.rel(&r.schema, &i.table).unwrap();
                        for k in index_keys(&w, r) {
                            if k.1 != 0 {
                                add((cls, r.oid, 0), (cls, x.oid, k.1), "a");
                            }
                        }
                    }
                    Some(CRel::Table(t)) => {
                        let mut n = 0;
                        for (i, x) in t.cols.iter().enumerate() {
                            if x.def.is_some() || x.serial.is_some() {
                                n += 1;
                                add((def, r.oid + 500_000 + n, 0), (cls, r.oid, w.num(t, i)), "a");
                                for (qs, qn) in x.def.iter().flat_map(|d| &d.seqs) {
                                    if let Some(q) = w.rel(qs, qn) {
                                        add((def, r.oid + 500_000 + n, 0), (cls, q.oid, 0), "n");
                                    }
                                }
                            }
                        }
                        for (cn, k) in &t.cons {
                            let wc = &w.cons[&(r.schema.clone(), r.name.clone(), cn.clone())];
                            let own: Vec<String> = match &k.kind {
                                CKind::Pk(v) | CKind::Uq(v) => v.clone(),
                                CKind::Fk { cols, .. } => cols.clone(),
                                CKind::Ck(e) => e.cols.clone(),
                            };
                            for col in &own {
                                add((con, wc.oid, 0), (cls, r.oid, w.attnum(t, col)), "a");
                            }
                            if wc.index != 0 {
                                add((cls, wc.index, 0), (con, wc.oid, 0), "i");
                            }
                            if let CKind::Fk { ts, tt, tc, key, .. } = &k.kind {
                                let f = w.rel(ts, tt).unwrap().oid;
                                for col in tc {
                                    add((con, wc.oid, 0), (cls, f, w.attnum(w.table(ts, tt), col)), "n");
                                }
                                let idx = w.cons.get(&(ts.clone(), tt.clone(), key.clone())).map(|k| k.index).filter(|i| *i != 0).or_else(|| w.rel(ts, key).map(|r| r.oid));
                                if let Some(i) = idx {
                                    add((con, wc.oid, 0), (cls, i, 0), "n");
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            T {
                cols: vec![("classid", "oid"), ("objid", "oid"), ("objsubid", "int4"), ("refclassid", "oid"), ("refobjid", "oid"), ("refobjsubid", "int4"), ("deptype", "char")],
                rows,
            }
        }
        "pg_trigger" => T { cols: vec![("oid", "oid"), ("tgrelid", "oid"), ("tgname", "name"), ("tgtype", "int2"), ("tgisinternal", "bool")], rows: vec![] },
        "pg_inherits" => T { cols: vec![("inhrelid", "oid"), ("inhparent", "oid")], rows: vec![] },
        "pg_description" => T { cols: vec![("objoid", "oid"), ("classoid", "oid"), ("objsubid", "int4"), ("description", "text")], rows: vec![] },
        "pg_tables" => T {
            cols: vec![("schemaname", "name"), ("tablename", "name")],
            rows: w.rels.iter().filter(|r| ["r", "p"].contains(&w.relkind(r))).map(|r| vec![s(&r.schema), s(&r.name)]).collect(),
        },
        "pg_views" => T {
            cols: vec![("schemaname", "name"), ("viewname", "name"), ("definition", "text")],
            rows: w
                .rels
                .iter()
                .filter(|r| r.kind == "v")
                .map(|r| match &c.schemas[&r.schema].rels[&r.name] {
                    CRel::View(v) => vec![s(&r.schema), s(&r.name), s(viewdef(v))],
                    _ => unreachable!(),
                })
                .collect(),
        },
        "pg_indexes" => T {
            cols: vec![("schemaname", "name"), ("tablename", "name"), ("indexname", "name"), ("indexdef", "text")],
            rows: w.rels.iter().filter(|r| r.kind == "i").map(|r| vec![s(&r.schema), s(index_of(&w, r).0), s(&r.name), s(indexdef(&w, r.oid, 0).unwrap_or_default())]).collect(),
        },
        _ => return None,
    };
    Some(Tab { cols: t.cols.into_iter().map(|x| (x.0.to_owned(), x.1.to_owned())).collect(), rows: t.rows })
}
const LANGS: [(&str, i64); 4] = [("internal", 12), ("c", 13), ("sql", 14), ("plpgsql", 13500)];

fn am_oid(m: &str) -> i64 {
    match m {
        "btree" => 403,
        "hash" => 405,
        "gist" => 783,
        "gin" => 2742,
        "spgist" => 4000,
        _ => 3580,
    }
}

pub fn info(c: &Cat, name: &str) -> Option<Tab> {
    let w = world(c);
    let cols = |v: Vec<(&str, &str)>| v.iter().map(|x| (x.0.to_owned(), x.1.to_owned())).collect::<Vec<_>>();
    Some(match name {
        "schemata" => Tab { cols: cols(vec![("catalog_name", "name"), ("schema_name", "name")]), rows: w.ns.iter().map(|n| vec![s("d"), s(&n.1)]).collect() },
        "tables" => Tab {
            cols: cols(vec![("table_schema", "name"), ("table_name", "name"), ("table_type", "varchar")]),
            rows: w
                .rels
                .iter()
                .filter(|r| ["r", "p", "f", "v"].contains(&w.relkind(r)))
                .map(|r| {
                    let k = match w.relkind(r) {
                        "f" => "FOREIGN",
                        "v" => "VIEW",
                        _ => "BASE TABLE",
                    };
                    vec![s(&r.schema), s(&r.name), s(k)]
                })
                .collect(),
        },
        _ => return None,
    })
}

pub fn regclass(c: &Cat, n: &str) -> R<V> {
    if let Ok(i) = n.parse() {
        return Ok(V::I(i));
    }
    let q = P::new(n)?.qname()?;
    if q.0.as_deref().map_or(true, |s| s == "pg_catalog") {
        if let Some(x) = RELS.iter().find(|x| x.0 == q.1) {
            return Ok(V::I(x.1));
        }
    }
    let w = world(c);
    let sn = q.0.unwrap_or_else(|| "public".into());
    match w.rel(&sn, &q.1) {
        Some(r) => Ok(V::I(r.oid)),
        None => err("42P01", format!("relation \"{n}\" does not exist")),
    }
}
pub fn class_name(c: &Cat, o: i64) -> V {
    if let Some(x) = RELS.iter().find(|x| x.1 == o) {
        return s(x.0);
    }
    let w = world(c);
    match w.by_oid(o) {
        Some(r) => s(qual(&w, r)),
        None => s(o.to_string()),
    }
}

/// Type of the elements of an array type.
pub fn elem(t: &str) -> Option<String> {
    match t {
        "int2vector" => Some("int2".into()),
        "oidvector" => Some("oid".into()),
        _ => t.strip_suffix("[]").map(|x| x.to_owned()),
    }
}

const MODOUT: &str = "typmodout";

/// Result type of a function, if it is one of these.
pub fn result(f: &str, ts: &[String]) -> Option<String> {
    Some(
        match f {
            "pg_has_role" | "has_table_privilege" | "has_any_column_privilege" | "has_sequence_privilege" | "has_function_privilege" | "has_column_privilege"
            | "pg_is_other_temp_schema" | "pg_table_is_visible" | "like" | "starts_with" => "bool",
            "pg_get_expr" | "pg_get_constraintdef" | "pg_get_indexdef" | "pg_get_viewdef" | "format_type" | "pg_get_function_arguments"
            | "pg_get_function_identity_arguments" | "pg_get_function_result" | "substring" | "substr" | "left" | "right" | "trim" | "btrim" | "ltrim" | "rtrim"
            | "replace" | "split_part" | "concat" | "concat_ws" | "array_to_string" | "obj_description" | "col_description" | "quote_literal" | "initcap" | "repeat"
            | "pg_get_serial_sequence" | "current_setting" => "text",
            "pg_relation_is_updatable" | "position" | "strpos" | "array_position" | "array_upper" | "array_lower" => "int4",
            "array_append" | "array_prepend" | "array_cat" | "array_remove" => return ts.iter().find(|t| t.ends_with("[]")).cloned(),
            _ if f.ends_with(MODOUT) => "cstring",
            _ => return None,
        }
        .into(),
    )
}

/// The functions of `result`.
pub fn call(c: &Cat, f: &str, a: &[V]) -> R<Option<V>> {
    let text = |v: &V| crate::sql::store(v).unwrap_or_default();
    if ["concat", "concat_ws"].contains(&f) {
        let v: Vec<String> = a.iter().filter_map(crate::sql::store).collect();
        return Ok(Some(s(if f == "concat" { v.concat() } else { v[1..].join(&v[0]) })));
    }
    if f == "format_type" {
        return Ok(match a {
            [V::Null, _] => Some(V::Null),
            [V::I(o), V::I(m)] => Some(s(format_type(&world(c), *o, *m))),
            [V::I(o), V::Null] => Some(s(format_type(&world(c), *o, -1))),
            _ => None,
        });
    }
    if result(f, &[String::from("text[]")]).is_some() && a.contains(&V::Null) && !f.starts_with("array_") {
        return Ok(Some(V::Null));
    }
    let part = |x: &str, from: i64, n: Option<i64>| -> String {
        let ch: Vec<char> = x.chars().collect();
        let end = n.map_or(i64::MAX, |n| from + n);
        ch.iter().enumerate().filter(|(i, _)| (*i as i64 + 1) >= from && (*i as i64 + 1) < end).map(|x| *x.1).collect()
    };
    Ok(Some(match (f, a) {
        ("pg_has_role" | "has_table_privilege" | "has_any_column_privilege" | "has_sequence_privilege" | "has_function_privilege" | "has_column_privilege", _) => V::B(true),
        ("pg_is_other_temp_schema", _) => V::B(false),
        ("pg_table_is_visible", [V::I(o)]) => {
            let w = world(c);
            V::B(w.by_oid(*o).map_or(false, |r| r.schema == "public"))
        }
        ("pg_get_expr", [e, ..]) => e.clone(),
        ("pg_get_constraintdef", [V::I(o), ..]) => constraintdef(&world(c), *o).map_or(V::Null, s),
        ("pg_get_indexdef", [V::I(o)]) => indexdef(&world(c), *o, 0).map_or(V::Null, s),
        ("pg_get_indexdef", [V::I(o), V::I(k), _]) => indexdef(&world(c), *o, *k).map_or(V::Null, s),
        ("pg_get_viewdef", [V::I(o), ..]) => {
            let w = world(c);
            match w.by_oid(*o).and_then(|r| c.schemas[&r.schema].rels.get(&r.name)) {
                Some(CRel::View(v)) => s(viewdef(v)),
                _ => V::Null,
            }
        }
        ("pg_get_function_arguments" | "pg_get_function_identity_arguments" | "pg_get_function_result", [V::I(o)]) => {
            let w = world(c);
            match w.fns.iter().find(|x| x.1 == o) {
                Some(((sn, k), _)) => {
                    let x = &c.schemas[sn].fns[k];
                    if f == "pg_get_function_result" {
                        let low = x.ret.to_lowercase();
                        match low.strip_prefix("setof ") {
                            Some(r) => s(format!("SETOF {}", format_type(&w, type_oid(&w, r).0, -1))),
                            None => s(format_type(&w, type_oid(&w, &x.ret).0, -1)),
                        }
                    } else {
                        let t = fn_args(&w, x);
                        s(t)
                    }
                }
                None => V::Null,
            }
        }
        ("pg_relation_is_updatable", [V::I(o), ..]) => {
            let w = world(c);
            let up = w.by_oid(*o).map_or(false, |r| match c.schemas[&r.schema].rels.get(&r.name) {
                Some(CRel::View(v)) => !v.deps.is_empty(),
                Some(CRel::Table(_)) => true,
                _ => false,
            });
            V::I(if up { 28 } else { 0 })
        }
        ("substring" | "substr", [x, V::I(from)]) => s(part(&text(x), *from, None)),
        ("substring" | "substr", [x, V::I(from), V::I(n)]) => s(part(&text(x), *from, Some(*n))),
        ("left", [x, V::I(n)]) => {
            let x = text(x);
            let len = x.chars().count() as i64;
            let k = if *n < 0 { (len + n).max(0) } else { (*n).min(len) };
            s(x.chars().take(k as usize).collect::<String>())
        }
        ("right", [x, V::I(n)]) => {
            let x = text(x);
            let len = x.chars().count() as i64;
            let k = if *n < 0 { (-n).min(len) } else { (len - n).max(0) };
            s(x.chars().skip(k as usize).collect::<String>())
        }
        ("trim" | "btrim" | "ltrim" | "rtrim", [x, r @ ..]) => {
            let set: Vec<char> = r.first().map_or(vec![' '], |c| text(c).chars().collect());
            let x = text(x);
            let is = |c: char| set.contains(&c);
            s(match f {
                "ltrim" => x.trim_start_matches(is),
                "rtrim" => x.trim_end_matches(is),
                _ => x.trim_matches(is),
            })
        }
        ("replace", [x, y, z]) => s(text(x).replace(&text(y), &text(z))),
        ("split_part", [x, y, V::I(n)]) => s(text(x).split(text(y).as_str()).nth((*n as usize).saturating_sub(1)).unwrap_or("")),
        ("repeat", [x, V::I(n)]) => s(text(x).repeat((*n).max(0) as usize)),
        ("starts_with", [x, y]) => V::B(text(x).starts_with(&text(y))),
        ("position" | "strpos", [x, y]) => V::I(text(x).find(&text(y)).map_or(0, |i| text(x)[..i].chars().count() as i64 + 1)),
        ("array_to_string", [V::A(v), sep, ..]) => s(v.iter().flatten().cloned().collect::<Vec<_>>().join(&text(sep))),
        ("array_to_string", _) => V::Null,
        ("array_position", [V::A(v), x]) => v.iter().position(|y| *y == crate::sql::store(x)).map_or(V::Null, |i| V::I(i as i64 + 1)),
        ("array_position", _) => V::Null,
        ("array_upper", [V::A(v), _]) => V::I(v.len() as i64),
        ("array_lower", [V::A(_), _]) => V::I(1),
        ("obj_description" | "col_description", _) => V::Null,
        ("quote_literal", [x]) => s(tok_text(&Tok::Str(text(x)))),
        (_, [V::I(m)]) if f.ends_with(MODOUT) => s(modout(f.trim_end_matches(MODOUT), *m)),
        _ => return Ok(None),
    }))
}
