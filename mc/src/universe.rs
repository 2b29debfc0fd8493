//! Bounded universes of schemas: products of slots, one alternative per slot.
use crate::model::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum Put {
    PSchema(&'static str),
    PTable(&'static str, &'static str),
    PCol(&'static str, &'static str, Col),
    PCon(&'static str, &'static str, &'static str, Con),
    PRel(&'static str, &'static str, Rel),
    PFn(&'static str, &'static str, Func),
}

pub type Alt = Vec<Put>;

pub struct Slice {
    pub name: &'static str,
    pub base: Alt,
    pub slots: Vec<Vec<Alt>>,
    /// only pairs of states that differ in at most this many slots (quick, thorough); 0 = all
    pub dist: (usize, usize),
}

pub struct State {
    pub db: Db,
    pub digits: Vec<usize>,
}

fn table_mut<'a>(d: &'a mut Db, s: &str, t: &str) -> Option<&'a mut Table> {
    let r = d.schemas.entry(s.into()).or_default().rels.entry(t.into()).or_insert_with(|| Rel::Table(Table::default()));
    match r {
        Rel::Table(t) => Some(t),
        _ => None,
    }
}

fn put(d: &mut Db, p: &Put) -> bool {
    match p {
        Put::PSchema(s) => {
            d.schemas.entry(s.to_string()).or_default();
            true
        }
        Put::PTable(s, t) => table_mut(d, s, t).is_some(),
        Put::PCol(s, t, c) => match table_mut(d, s, t) {
            Some(t) if t.col(&c.name).is_none() => {
                t.cols.push(c.clone());
                true
            }
            _ => false,
        },
        Put::PCon(s, t, n, c) => {
            let Some(Rel::Table(t)) = d.schemas.get_mut(*s).and_then(|x| x.rels.get_mut(*t)) else { return false };
            t.cons.insert(n.to_string(), c.clone()).is_none()
        }
        Put::PRel(s, n, r) => d.schemas.entry(s.to_string()).or_default().rels.insert(n.to_string(), r.clone()).is_none(),
        Put::PFn(s, n, f) => d.schemas.entry(s.to_string()).or_default().fns.insert(n.to_string(), f.clone()).is_none(),
    }
}

impl Slice {
    pub fn states(&self, ok: &dyn Fn(&Db) -> bool) -> Vec<State> {
        let mut out = Vec::new();
        let mut seen = BTreeSet::new();
        let mut digits = vec![0usize; self.slots.len()];
        'outer: loop {
            let mut d = Db::default();
            let mut good = self.base.iter().all(|p| put(&mut d, p));
            // columns and relations before constraints
            for late in [false, true] {
                for (i, s) in self.slots.iter().enumerate() {
                    for p in &s[digits[i]] {
                        if matches!(p, Put::PCon(..)) == late {
                            good = good && put(&mut d, p);
                        }
                    }
                }
            }
            if good && ok(&d) && seen.insert(d.clone()) {
                out.push(State { db: d, digits: digits.clone() });
            }
            for i in 0..digits.len() {
                digits[i] += 1;
                if digits[i] < self.slots[i].len() {
                    continue 'outer;
                }
                digits[i] = 0;
            }
            break;
        }
        out
    }
    pub fn near(&self, a: &State, b: &State, thorough: bool) -> bool {
        let lim = if thorough { self.dist.1 } else { self.dist.0 };
        if lim == 0 {
            return true;
        }
        let n = a.digits.iter().zip(&b.digits).filter(|(x, y)| x != y).count();
        // everything to and from the smallest state as well
        n <= lim || a.digits.iter().all(|x| *x == 0) || b.digits.iter().all(|x| *x == 0)
    }
}

/// podo can hold it at all: indexes belong to tables of the same schema.
pub fn wf_loose(d: &Db) -> bool {
    d.schemas.values().all(|s| {
        s.rels.values().all(|r| match r {
            Rel::Index(i) => matches!(s.rels.get(&i.table), Some(Rel::Table(_))),
            _ => true,
        })
    })
}

/// What the queries of the universes select and read: `SELECT a, s.f() AS b, * FROM s.t`, however it is written.
fn parts(q: &str) -> Option<(Vec<String>, Option<(String, String)>)> {
    let q = q.trim().trim_end_matches(';').to_lowercase().replace('"', "");
    let q: Vec<&str> = q.split_whitespace().collect();
    let from = q.iter().position(|w| *w == "from");
    let sel = q[..from.unwrap_or(q.len())].join(" ");
    let items = sel.strip_prefix("select ")?.split(',').map(|s| s.trim().to_owned()).collect();
    let rel = from.and_then(|i| q.get(i + 1)).map(|r| r.split_once('.').unwrap_or(("public", r))).map(|(s, t)| (s.to_owned(), t.to_owned()));
    Some((items, rel))
}

/// Relation and columns a view query of the universes uses.
pub fn view_deps(q: &str) -> Option<(String, String, Vec<String>)> {
    let (items, rel) = parts(q)?;
    let (s, t) = rel?;
    Some((s, t, items.into_iter().filter(|s| s != "*" && !s.contains('(')).collect()))
}

/// The columns of a relation of the universes.
fn cols_of(d: &Db, s: &str, n: &str, depth: u32) -> Option<Vec<String>> {
    match d.schemas.get(s)?.rels.get(n)? {
        Rel::Table(t) => Some(t.cols.iter().map(|c| c.name.clone()).collect()),
        Rel::View(q) if depth < 9 => {
            let mut out = vec![];
            for i in parts(q)?.0 {
                match i.as_str() {
                    "*" => {
                        let (s, t, _) = view_deps(q)?;
                        out.extend(cols_of(d, &s, &t, depth + 1)?);
                    }
                    _ => out.push(i.rsplit(' ').next()?.to_owned()),
                }
            }
            // a cycle shows in the depth only
            if let Some((s, t, _)) = view_deps(q) {
                cols_of(d, &s, &t, depth + 1)?;
            }
            Some(out)
        }
        _ => None,
    }
}

/// Whether f(), which an expression may call, is there, and can be called where it is.
fn calls_ok(d: &Db, e: &str, immutable: bool) -> bool {
    if !e.contains("public.f()") {
        return true;
    }
    match d.schemas.get("public").and_then(|s| s.fns.get("f()")) {
        Some(f) => f.ret != "void" && (!immutable || f.vol == "IMMUTABLE"),
        None => false,
    }
}

pub fn nextval_of(def: &str) -> Option<(String, String)> {
    let i = def.strip_prefix("nextval('")?;
    let (n, _) = i.split_once('\'')?;
    let (s, t) = n.split_once('.')?;
    Some((s.to_owned(), t.to_owned()))
}

/// Words of an expression that are column names of the universes.
pub fn words(e: &str) -> Vec<String> {
    let e: String = e.split('\'').step_by(2).collect::<Vec<_>>().join(" ");
    e.split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .filter(|w| !w.is_empty() && !w.chars().next().unwrap().is_ascii_digit())
        .map(|w| w.to_owned())
        .collect()
}

fn c_text(c: &Con) -> String {
    match &c.kind {
        ConKind::Ck { expr } => expr.clone(),
        _ => String::new(),
    }
}

/// PostgreSQL can hold it.
pub fn wf_strict(d: &Db) -> bool {
    use Rel as R;
    // functions that read and call others
    if d.schemas.values().any(|s| s.fns.values().any(|f| f.body.contains("public."))) && crate::pg::build(d).is_err() {
        return false;
    }
    for s in d.schemas.values() {
        // one namespace for relations and the indexes behind keys
        let mut ns: BTreeSet<&str> = s.rels.keys().map(|x| x.as_str()).collect();
        for r in s.rels.values() {
            if let R::Table(t) = r {
                for (n, c) in &t.cons {
                    if c.key_cols().is_some() && !ns.insert(n) {
                        return false;
                    }
                }
            }
        }
        for r in s.rels.values() {
            match r {
                R::Table(t) => {
                    if t.cons.values().filter(|c| matches!(c.kind, ConKind::Pk { .. })).count() > 1 {
                        return false;
                    }
                    for c in &t.cols {
                        if let Some((qs, qn)) = c.def.as_deref().and_then(nextval_of) {
                            if !matches!(d.schemas.get(&qs).and_then(|s| s.rels.get(&qn)), Some(R::Seq(_))) {
                                return false;
                            }
                        }
                        if !calls_ok(d, c.def.as_deref().unwrap_or(""), false) {
                            return false;
                        }
                    }
                    for c in t.cons.values() {
                        if c.deferred && !c.deferrable {
                            return false;
                        }
                        match &c.kind {
                            ConKind::Pk { cols } => {
                                if !cols.iter().all(|n| t.col(n).map(|c| c.nn).unwrap_or(false)) {
                                    return false;
                                }
                            }
                            ConKind::Uq { cols } => {
                                if !cols.iter().all(|n| t.col(n).is_some()) {
                                    return false;
                                }
                            }
                            ConKind::Ck { expr } => {
                                let expr = expr.replace("public.f()", "");
                                if !calls_ok(d, &c_text(c), false) || c.deferrable || !words(&expr).iter().all(|w| t.col(w).is_some() || ["OR", "AND", "NOT", "length"].contains(&w.as_str())) {
                                    return false;
                                }
                            }
                            ConKind::Fk { cols, ts, tt, tc, .. } => {
                                if !cols.iter().all(|n| t.col(n).is_some()) || cols.len() != tc.len() {
                                    return false;
                                }
                                let Some(u) = d.get_table(ts, tt) else { return false };
                                let mut want = tc.clone();
                                want.sort();
                                let by_con = u.cons.values().any(|k| {
                                    k.key_cols().map(|kc| {
                                        let mut kc = kc.clone();
                                        kc.sort();
                                        kc == want && !k.deferrable
                                    }) == Some(true)
                                });
                                // or a unique index of nothing but columns
                                let by_index = d.schemas[ts].rels.values().any(|r| match r {
                                    R::Index(i) if i.unique && i.table == *tt => {
                                        let mut kc: Vec<String> = i.keys.iter().map(|k| k.split(' ').next().unwrap_or("").trim_matches('"').to_string()).collect();
                                        kc.sort();
                                        kc == want
                                    }
                                    _ => false,
                                });
                                if !by_con && !by_index {
                                    return false;
                                }
                            }
                        }
                    }
                }
                R::View(q) => {
                    if !calls_ok(d, q, false) {
                        return false;
                    }
                    if let Some((vs, vt, vc)) = view_deps(q) {
                        let Some(has) = cols_of(d, &vs, &vt, 0) else { return false };
                        if !vc.iter().all(|c| has.contains(c)) {
                            return false;
                        }
                    }
                }
                R::Index(i) => {
                    let Some(R::Table(t)) = s.rels.get(&i.table) else { return false };
                    if i.method == "hash" && (i.unique || i.keys.len() > 1 || i.keys.iter().any(|k| k.ends_with(" DESC"))) {
                        return false;
                    }
                    for k in &i.keys {
                        if !calls_ok(d, k, true) {
                            return false;
                        }
                        let k = k.replace("public.f()", "");
                        if !words(&k).iter().all(|w| t.col(w).is_some() || ["DESC", "ASC", "NULLS", "LAST", "FIRST"].contains(&w.as_str())) {
                            return false;
                        }
                    }
                }
                R::Seq(q) => {
                    let (lo, hi) = type_range(&q.ty);
                    if q.inc == 0 || q.min < lo || q.max > hi || q.min >= q.max || q.start < q.min || q.start > q.max || q.cache < 1 {
                        return false;
                    }
                    if let Some((t, c)) = &q.owned {
                        match s.rels.get(t) {
                            Some(R::Table(t)) if t.col(c).is_some() => {}
                            _ => return false,
                        }
                    }
                }
            }
        }
    }
    true
}

fn i4(n: &str) -> Col {
    Col_(n, "int4")
}
#[allow(non_snake_case)]
fn Col_(n: &str, t: &str) -> crate::model::Col {
    crate::model::Col::new(n, t)
}
type C = Con;
type T = Rel;

const P: &str = "public";

fn base_t() -> Alt {
    vec![Put::PSchema(P), Put::PCol(P, "t", i4("a").nn()), Put::PCol(P, "t", i4("b").nn())]
}

pub fn slices() -> Vec<Slice> {
    let mut v = Vec::new();

    // every attribute of a column, a second column, and the table itself
    let mut a: Vec<Alt> = vec![vec![]];
    for ty in ["int4", "int8"] {
        for nn in [false, true] {
            for def in [None, Some("0"), Some("1")] {
                let mut c = Col_("a", ty);
                c.nn = nn;
                c.def = def.map(|s| s.into());
                a.push(vec![Put::PCol(P, "t", c)]);
            }
        }
    }
    v.push(Slice {
        name: "columns",
        base: vec![Put::PSchema(P)],
        slots: vec![
            a,
            vec![vec![], vec![Put::PCol(P, "t", i4("b"))], vec![Put::PCol(P, "t", Col_("b", "int8").nn().def("7"))]],
            vec![vec![], vec![Put::PTable(P, "t")]],
            vec![vec![], vec![Put::PCol(P, "u", i4("a"))]],
        ],
        dist: (0, 0),
    });

    // every attribute of keys and checks under one name, next to a second constraint
    let mut k: Vec<Alt> = vec![vec![]];
    for cols in [&["a"][..], &["b"], &["a", "b"], &["b", "a"]] {
        for (x, y) in [(false, false), (true, false), (true, true)] {
            k.push(vec![Put::PCon(P, "t", "k", C::pk(cols).defer(x, y))]);
            k.push(vec![Put::PCon(P, "t", "k", C::uq(cols).defer(x, y))]);
        }
    }
    for e in ["a > 0", "b > 0", "a > 0 OR b > 0"] {
        for (x, y) in [(false, false), (true, false), (true, true)] {
            k.push(vec![Put::PCon(P, "t", "k", C::ck(e).defer(x, y))]);
        }
    }
    v.push(Slice {
        name: "keys",
        base: base_t(),
        slots: vec![
            k,
            vec![
                vec![],
                vec![Put::PCon(P, "t", "l", C::uq(&["a"]))],
                vec![Put::PCon(P, "t", "l", C::pk(&["b"]))],
                vec![Put::PCon(P, "t", "l", C::ck("a > 1"))],
                vec![Put::PCon(P, "t", "l", C::fk(&["b"], P, "u", &["id"]))],
            ],
            vec![vec![Put::PCol(P, "u", i4("id").nn()), Put::PCon(P, "u", "u_key", C::pk(&["id"]))]],
        ],
        dist: (0, 0),
    });

    // a table with constraints, present or absent; columns together with the constraints on them
    v.push(Slice {
        name: "tables",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![
                vec![],
                vec![Put::PCol(P, "t", i4("a"))],
                vec![Put::PCol(P, "t", i4("a").nn())],
                vec![Put::PCol(P, "t", i4("a").nn().def("1")), Put::PCon(P, "t", "t_pk", C::pk(&["a"]))],
                vec![Put::PCol(P, "t", i4("a").nn()), Put::PCon(P, "t", "t_pk", C::pk(&["a"]).defer(true, true))],
                vec![Put::PCol(P, "t", i4("a")), Put::PCon(P, "t", "t_uq", C::uq(&["a"]))],
                vec![Put::PCol(P, "t", i4("a")), Put::PCon(P, "t", "t_ck", C::ck("a > 0"))],
            ],
            vec![
                vec![],
                vec![Put::PCol(P, "t", i4("b"))],
                vec![Put::PCol(P, "t", i4("b")), Put::PCon(P, "t", "b_uq", C::uq(&["b"]).defer(true, false))],
                vec![Put::PCol(P, "t", Col_("b", "int8")), Put::PCon(P, "t", "b_ck", C::ck("b > 0"))],
                vec![Put::PCol(P, "t", i4("b")), Put::PCon(P, "t", "b_fk", C::fk(&["b"], P, "u", &["id"]).rules("FULL", "CASCADE", "SET NULL").defer(true, true))],
                vec![Put::PCol(P, "t", i4("b")), Put::PRel(P, "b_ix", T::Index(crate::model::Index::new("t", &["b"])))],
            ],
            vec![vec![], vec![Put::PCol(P, "u", i4("id").nn()), Put::PCon(P, "u", "u_pk", C::pk(&["id"]))]],
        ],
        dist: (0, 0),
    });

    // every attribute of a foreign key
    let mut f: Vec<Alt> = vec![vec![]];
    for m in ["SIMPLE", "FULL"] {
        for u in ["NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"] {
            for d in ["NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"] {
                for (x, y) in [(false, false), (true, false), (true, true)] {
                    f.push(vec![Put::PCon(P, "t", "fk", C::fk(&["a"], P, "u", &["id"]).rules(m, u, d).defer(x, y))]);
                }
            }
        }
    }
    v.push(Slice {
        name: "foreign key rules",
        base: [base_t(), vec![Put::PCol(P, "u", i4("id").nn()), Put::PCon(P, "u", "u_key", C::pk(&["id"]))]].concat(),
        slots: vec![f],
        dist: (0, 0),
    });

    // what a foreign key connects, and the key it relies on
    v.push(Slice {
        name: "foreign key targets",
        base: [
            base_t(),
            vec![
                Put::PSchema("app"),
                Put::PCol(P, "u", i4("id").nn()),
                Put::PCol(P, "u", i4("x").nn()),
                Put::PCol("app", "u", i4("id").nn()),
                Put::PCon("app", "u", "u_key", C::pk(&["id"])),
            ],
        ]
        .concat(),
        slots: vec![
            vec![
                vec![],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a"], P, "u", &["id"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["b"], P, "u", &["id"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a"], P, "u", &["x"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a", "b"], P, "u", &["id", "x"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a", "b"], P, "u", &["x", "id"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a"], "app", "u", &["id"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a"], P, "t", &["b"]))],
                vec![Put::PCon(P, "t", "fk", C::uq(&["a"]))],
            ],
            vec![
                vec![],
                vec![Put::PCon(P, "u", "u_key", C::pk(&["id"]))],
                vec![Put::PCon(P, "u", "u_key2", C::pk(&["id"]))],
                vec![Put::PCon(P, "u", "u_key", C::uq(&["id"]))],
                vec![Put::PCon(P, "u", "u_key", C::pk(&["id", "x"]))],
                vec![Put::PCon(P, "u", "u_key", C::pk(&["id"]).defer(true, false))],
            ],
            vec![vec![], vec![Put::PCon(P, "u", "u_x", C::uq(&["x"]))]],
            vec![vec![], vec![Put::PCon(P, "t", "t_b", C::uq(&["b"]))]],
        ],
        dist: (2, 0),
    });

    // foreign keys that rely on unique indexes
    let uix = |table: &str, unique: bool, keys: &[&str]| T::Index(crate::model::Index { table: table.into(), unique, method: "btree".into(), keys: names(keys) });
    v.push(Slice {
        name: "foreign keys on indexes",
        base: [base_t(), vec![Put::PCol(P, "u", i4("id").nn()), Put::PCol(P, "u", i4("x").nn())]].concat(),
        slots: vec![
            vec![
                vec![],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a"], P, "u", &["id"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a", "b"], P, "u", &["id", "x"]))],
                vec![Put::PCon(P, "t", "fk", C::fk(&["a"], P, "t", &["b"]))],
            ],
            vec![
                vec![],
                vec![Put::PRel(P, "i", uix("u", true, &["id"]))],
                vec![Put::PRel(P, "i", uix("u", false, &["id"]))],
                vec![Put::PRel(P, "i", uix("u", true, &["id", "x"]))],
                vec![Put::PRel(P, "i", uix("u", true, &["x", "id"]))],
                vec![Put::PRel(P, "i", uix("u", true, &["id DESC"]))],
                vec![Put::PRel(P, "j", uix("u", true, &["id"]))],
                vec![Put::PRel(P, "i", uix("t", true, &["b"]))],
            ],
            vec![
                vec![],
                vec![Put::PCon(P, "u", "u_key", C::pk(&["id"]))],
                vec![Put::PCon(P, "u", "u_key", C::uq(&["id", "x"]))],
                vec![Put::PRel(P, "k", uix("u", true, &["id"]))],
            ],
        ],
        dist: (2, 0),
    });

    // tables that refer to each other, present or absent
    let t3 = |n: &'static str, key: &'static str| vec![Put::PCol(P, n, i4("id").nn()), Put::PCol(P, n, i4("r")), Put::PCon(P, n, key, C::pk(&["id"]))];
    v.push(Slice {
        name: "foreign key graph",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![vec![], t3("x", "x_pk")],
            vec![vec![], t3("y", "y_pk")],
            vec![
                vec![],
                vec![Put::PCon(P, "x", "x_fk", C::fk(&["r"], P, "y", &["id"]))],
                vec![Put::PCon(P, "x", "x_fk", C::fk(&["r"], P, "x", &["id"]))],
            ],
            vec![
                vec![],
                vec![Put::PCon(P, "y", "y_fk", C::fk(&["r"], P, "x", &["id"]))],
                vec![Put::PCon(P, "y", "y_fk", C::fk(&["r"], P, "y", &["id"]))],
            ],
        ],
        dist: (0, 0),
    });

    // every attribute of an index; its table and columns
    let mut ix: Vec<Alt> = vec![vec![]];
    for tab in ["t", "u"] {
        for unique in [false, true] {
            for method in ["btree", "hash"] {
                for keys in [&["a"][..], &["b"], &["a", "b"], &["b", "a"], &["(a + b)"], &["a DESC"]] {
                    ix.push(vec![Put::PRel(
                        P,
                        "i",
                        T::Index(crate::model::Index { table: tab.into(), unique, method: method.into(), keys: names(keys) }),
                    )]);
                }
            }
        }
    }
    v.push(Slice {
        name: "indexes",
        base: vec![Put::PSchema(P)],
        slots: vec![
            ix,
            vec![vec![], vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("b"))], vec![Put::PCol(P, "t", i4("a"))]],
            vec![vec![], vec![Put::PCol(P, "u", i4("a")), Put::PCol(P, "u", i4("b"))]],
        ],
        dist: (0, 0),
    });

    // every attribute of a sequence
    let mut q: Vec<Alt> = vec![vec![]];
    let mut qs: Vec<Seq> = Vec::new();
    for ty in ["int2", "int4", "int8"] {
        for inc in [1, 2, -1] {
            qs.push(Seq::new(ty, inc, None, None, None));
            qs.push(Seq::new(ty, inc, Some(-50), Some(50), None));
            qs.push(Seq::new(ty, inc, Some(-50), Some(50), Some(3)));
        }
    }
    let p = Seq::plain();
    qs.push(Seq { min: 0, ..p.clone() });
    qs.push(Seq { min: i64::MIN, ..p.clone() });
    qs.push(Seq { max: 10, ..p.clone() });
    qs.push(Seq { start: 5, ..p.clone() });
    qs.push(Seq { cache: 20, ..p.clone() });
    qs.push(Seq { cycle: true, ..p.clone() });
    for o in ["a", "b"] {
        qs.push(Seq { owned: Some(("t".into(), o.into())), ..p.clone() });
        qs.push(Seq { owned: Some(("t".into(), o.into())), cycle: true, ..p.clone() });
    }
    qs.push(Seq { owned: Some(("u".into(), "a".into())), ..p.clone() });
    for x in qs {
        q.push(vec![Put::PRel(P, "s", T::Seq(x))]);
    }
    v.push(Slice {
        name: "sequences",
        base: vec![Put::PSchema(P)],
        slots: vec![
            q,
            vec![
                vec![],
                vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("b"))],
                vec![Put::PCol(P, "t", i4("a").def("nextval('public.s')")), Put::PCol(P, "t", i4("b"))],
                vec![Put::PCol(P, "t", i4("b"))],
            ],
            vec![vec![], vec![Put::PCol(P, "u", i4("a"))]],
        ],
        dist: (2, 0),
    });

    // views, and what they read
    let vw = |n: &'static str, q: &str| Put::PRel(P, n, T::View(q.into()));
    v.push(Slice {
        name: "views",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![
                vec![],
                vec![vw("v", "SELECT 1 AS one")],
                vec![vw("v", "SELECT a FROM public.t")],
                vec![vw("v", "SELECT a, b FROM public.t")],
                vec![vw("v", "SELECT a FROM public.w")],
            ],
            vec![vec![], vec![vw("w", "SELECT a FROM public.t")], vec![vw("w", "SELECT 2 AS a")], vec![vw("w", "SELECT a FROM public.v")]],
            vec![vec![], vec![Put::PCol(P, "t", i4("a"))], vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("b"))]],
        ],
        dist: (0, 0),
    });

    // three views that read each other or the table in any way
    let three = |n: &'static str, o: [&str; 2]| {
        let mut v = vec![vec![], vec![vw(n, "SELECT a FROM public.t")]];
        v.extend(o.iter().map(|o| vec![vw(n, &format!("SELECT a FROM public.{o}"))]));
        v
    };
    v.push(Slice {
        name: "view graph",
        base: vec![Put::PSchema(P)],
        slots: vec![
            three("v", ["w", "x"]),
            three("w", ["v", "x"]),
            three("x", ["v", "w"]),
            vec![vec![Put::PCol(P, "t", i4("a"))], vec![Put::PCol(P, "t", Col_("a", "int8"))]],
        ],
        dist: (0, 0),
    });

    // views of all columns
    v.push(Slice {
        name: "views of all columns",
        base: vec![Put::PSchema(P), Put::PCol(P, "t", i4("a"))],
        slots: vec![
            vec![vec![], vec![vw("v", "SELECT * FROM public.t")], vec![vw("v", "SELECT * FROM public.w")], vec![vw("v", "SELECT a FROM public.t")]],
            vec![vec![], vec![vw("w", "SELECT * FROM public.t")], vec![vw("w", "SELECT * FROM public.v")], vec![vw("w", "SELECT a FROM public.v")]],
            vec![vec![], vec![Put::PCol(P, "t", i4("b"))], vec![Put::PCol(P, "t", Col_("b", "int8"))]],
            vec![vec![], vec![Put::PCol(P, "t", i4("c").nn())]],
            vec![vec![], vec![Put::PCol(P, "u", i4("a"))]],
        ],
        dist: (3, 0),
    });

    // every attribute of a function, and two functions; use in a default
    let mut fs: Vec<Alt> = vec![vec![]];
    for (body, lang) in [("SELECT 1", "SQL"), ("SELECT 2", "SQL"), ("BEGIN RETURN; END", "plpgsql"), ("BEGIN END", "plpgsql")] {
        {
            for ret in ["void", "integer"] {
                for vol in ["VOLATILE", "STABLE", "IMMUTABLE"] {
                    fs.push(vec![Put::PFn(P, "f()", Func { body: body.into(), lang: lang.into(), ret: ret.into(), vol: vol.into() })]);
                }
            }
        }
    }
    v.push(Slice {
        name: "functions",
        base: vec![Put::PSchema(P)],
        slots: vec![
            fs,
            vec![
                vec![],
                vec![Put::PFn(P, "f(n integer)", Func::new("SELECT 3"))],
                vec![Put::PFn(P, "g(n integer, m text)", Func::new("SELECT 'it''s $1'"))],
            ],
            vec![vec![], vec![Put::PCol(P, "t", i4("a"))], vec![Put::PCol(P, "t", i4("a").def("public.f()"))]],
        ],
        dist: (0, 0),
    });

    // views and functions that have the names of columns
    let fn_ = |n: &'static str, body: &str| vec![Put::PFn(P, n, Func { body: body.into(), lang: "SQL".into(), ret: "integer".into(), vol: "IMMUTABLE".into() })];
    v.push(Slice {
        name: "names of columns",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![vec![], vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("v")), Put::PCol(P, "t", i4("w"))]],
            vec![vec![], vec![vw("v", "SELECT a, v, w FROM public.t")], vec![vw("v", "SELECT a, v, w FROM public.a")], vec![vw("v", "SELECT a, v, w FROM public.w")]],
            vec![vec![], vec![vw("w", "SELECT a, v, w FROM public.t")], vec![vw("w", "SELECT a, v, w FROM public.a")], vec![vw("w", "SELECT a, v, w FROM public.v")]],
            vec![vec![], vec![vw("a", "SELECT a, v, w FROM public.t")], vec![vw("a", "SELECT a, v, w FROM public.w")], vec![vw("a", "SELECT a, v, w FROM public.v")]],
            vec![vec![], fn_("w()", "SELECT v FROM public.v"), fn_("w()", "SELECT a FROM public.a")],
        ],
        dist: (2, 0),
    });

    // defaults that call functions that read the table
    v.push(Slice {
        name: "functions of defaults",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![
                vec![],
                vec![Put::PCol(P, "t", i4("a"))],
                vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("b"))],
                vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("b").def("public.f()"))],
                vec![Put::PCol(P, "t", i4("a").def("public.f()"))],
            ],
            vec![
                vec![],
                fn_("f()", "SELECT 1"),
                fn_("f()", "SELECT a FROM public.t"),
                vec![Put::PFn(P, "f()", Func { body: "BEGIN RETURN (SELECT max(a) FROM public.t); END".into(), lang: "plpgsql".into(), ret: "integer".into(), vol: "STABLE".into() })],
            ],
        ],
        dist: (0, 0),
    });

    // names spelled in other ways
    v.push(Slice {
        name: "spellings",
        base: vec![Put::PSchema(P), Put::PSchema("app"), Put::PCol(P, "t", i4("a")), Put::PCol("app", "t", i4("a"))],
        slots: vec![
            vec![vec![], vec![vw("v", "SELECT a FROM T")], vec![vw("v", "select A\nfrom\tPublic.W")], vec![vw("v", "SELECT \"a\" FROM \"public\".\"w\"")], vec![vw("v", "SELECT a FROM x")]],
            vec![vec![], vec![vw("w", "SELECT a FROM t")], vec![vw("w", "SELECT a FROM V")], vec![vw("w", "select a from\n  X;")]],
            vec![vec![], vec![vw("x", "SELECT a FROM \"t\"")], vec![vw("x", "SELECT a FROM PUBLIC.V")], vec![vw("x", "SELECT a FROM W")], vec![vw("x", "SELECT a FROM app.V")]],
            vec![vec![], vec![Put::PRel("app", "v", T::View("SELECT a FROM app.T".into()))], vec![Put::PRel("app", "v", T::View("SELECT a FROM V".into()))], vec![Put::PRel("app", "v", T::View("SELECT a FROM app.w".into()))]],
            vec![vec![], vec![Put::PRel("app", "w", T::View("SELECT a FROM v".into()))]],
        ],
        dist: (2, 0),
    });

    // what uses a function that changes
    let fi = |body: &str, vol: &str| vec![Put::PFn(P, "f()", Func { body: body.into(), lang: "SQL".into(), ret: "integer".into(), vol: vol.into() })];
    v.push(Slice {
        name: "function uses",
        base: vec![Put::PSchema(P), Put::PCol(P, "t", i4("a").nn())],
        slots: vec![
            vec![vec![], fi("SELECT 1", "IMMUTABLE"), fi("SELECT 2", "IMMUTABLE"), fi("SELECT 2", "STABLE")],
            vec![vec![], vec![Put::PCol(P, "t", i4("b"))], vec![Put::PCol(P, "t", i4("b").def("public.f()"))]],
            vec![
                vec![],
                vec![Put::PCon(P, "t", "ck", C::ck("a > public.f()"))],
                vec![Put::PCon(P, "t", "ck", C::ck("a > public.f() + 1"))],
            ],
            vec![
                vec![],
                vec![Put::PRel(P, "i", uix("t", false, &["(a + public.f())"]))],
                vec![Put::PRel(P, "i", uix("t", true, &["a", "(public.f() + a)"]))],
            ],
            vec![vec![], vec![vw("v", "SELECT a, public.f() AS x FROM public.t")], vec![vw("v", "SELECT public.f() AS x")]],
            vec![vec![], vec![vw("w", "SELECT x FROM public.v")]],
        ],
        dist: (2, 3),
    });

    // functions that read relations and call functions, and what calls them
    let fb = |n: &'static str, body: &str| vec![Put::PFn(P, n, Func { body: body.into(), lang: "SQL".into(), ret: "integer".into(), vol: "IMMUTABLE".into() })];
    v.push(Slice {
        name: "function bodies",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![vec![], vec![Put::PCol(P, "t", i4("a"))], vec![Put::PCol(P, "t", i4("a")), Put::PCol(P, "t", i4("b"))]],
            vec![vec![], fb("f()", "SELECT 1"), fb("f()", "SELECT a FROM public.t"), fb("f()", "SELECT b FROM public.t"), fb("f()", "SELECT a FROM public.v"), fb("f()", "SELECT public.g()")],
            vec![vec![], fb("g()", "SELECT 2"), fb("g()", "SELECT public.f()"), fb("g()", "SELECT a FROM public.t")],
            vec![vec![], vec![vw("v", "SELECT a FROM public.t")], vec![vw("v", "SELECT public.f() AS a")]],
            vec![
                vec![],
                vec![Put::PCol(P, "u", i4("a"))],
                vec![Put::PCol(P, "u", i4("a").def("public.f()"))],
                vec![Put::PCol(P, "u", i4("a")), Put::PCon(P, "u", "ck", C::ck("a > public.f()"))],
                vec![Put::PCol(P, "u", i4("a")), Put::PRel(P, "i", uix("u", false, &["(a + public.f())"]))],
            ],
        ],
        dist: (2, 0),
    });

    // schemas with everything in them, and references across
    let inside = |s: &'static str| {
        vec![
            Put::PSchema(s),
            Put::PCol(s, "t", i4("a").nn()),
            Put::PCon(s, "t", "t_pk", C::pk(&["a"])),
            Put::PRel(s, "s", T::Seq(Seq { owned: Some(("t".into(), "a".into())), ..Seq::plain() })),
            Put::PRel(s, "i", T::Index(crate::model::Index::new("t", &["a"]))),
            Put::PFn(s, "f()", Func::new("SELECT 1")),
        ]
    };
    let mut app_full = inside("app");
    app_full.push(Put::PRel("app", "v", T::View("SELECT a FROM app.t".into())));
    v.push(Slice {
        name: "schemas",
        base: vec![],
        slots: vec![
            vec![vec![], vec![Put::PSchema(P)], inside(P)],
            vec![vec![], vec![Put::PSchema("app")], vec![Put::PCol("app", "t", i4("a").nn())], inside("app"), app_full],
            vec![
                vec![],
                vec![Put::PSchema("zoo"), Put::PCol("zoo", "t", i4("a").nn()), Put::PCon("zoo", "t", "z_fk", C::fk(&["a"], P, "t", &["a"]))],
                vec![Put::PSchema("zoo"), Put::PCol("zoo", "t", i4("a").nn()), Put::PCon("zoo", "t", "z_fk", C::fk(&["a"], "app", "t", &["a"]))],
                vec![Put::PSchema("zoo"), Put::PRel("zoo", "v", T::View("SELECT a FROM app.t".into()))],
            ],
        ],
        dist: (0, 0),
    });

    // one name, different kinds of objects
    let kinds = |n: &'static str| -> Vec<Alt> {
        vec![
            vec![],
            vec![Put::PCol(P, n, i4("a"))],
            vec![Put::PCol(P, n, i4("c").nn()), Put::PCon(P, n, "kk", C::uq(&["c"]))],
            vec![Put::PRel(P, n, T::View("SELECT a FROM public.t".into()))],
            vec![Put::PRel(P, n, T::Index(crate::model::Index::new("t", &["a"])))],
            vec![Put::PRel(P, n, T::Seq(Seq::plain()))],
            vec![Put::PCon(P, "t", n, C::uq(&["a"]))],
            vec![Put::PCon(P, "t", n, C::ck("a > 0"))],
        ]
    };
    v.push(Slice {
        name: "kinds",
        base: vec![Put::PSchema(P), Put::PCol(P, "t", i4("a").nn())],
        slots: vec![kinds("x"), kinds("y"), vec![vec![], vec![Put::PFn(P, "x", Func::new("SELECT 1"))]]],
        dist: (0, 0),
    });

    // texts that differ only a little
    let txt = |d: &str| vec![Put::PCol(P, "t", Col_("a", "text").def(d))];
    let body = |b: &str| vec![Put::PFn(P, "f()", Func::new(b))];
    v.push(Slice {
        name: "near texts",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![vec![Put::PCol(P, "t", Col_("a", "text"))], txt("'x'"), txt("'X'"), txt("'x '"), txt("('x')"), txt("''")],
            vec![vec![], vec![Put::PCon(P, "t", "c", C::ck("a <> 'x'"))], vec![Put::PCon(P, "t", "c", C::ck("a <> 'X'"))], vec![Put::PCon(P, "t", "c", C::ck("a <> 'x '"))]],
            vec![vec![], body("SELECT 'x'"), body("SELECT 'X'"), body("SELECT 'x '"), body("SELECT 'x' "), body("SELECT  'x'"), body("")],
            vec![vec![], vec![vw("v", "SELECT 'x' AS a")], vec![vw("v", "SELECT 'X' AS a")], vec![vw("v", "SELECT 'x ' AS a")]],
        ],
        dist: (1, 2),
    });

    // a bit of everything
    v.push(Slice {
        name: "combinations",
        base: vec![Put::PSchema(P)],
        slots: vec![
            vec![vec![], vec![Put::PCol(P, "t", i4("a").nn())], vec![Put::PCol(P, "t", i4("a").nn().def("nextval('public.s')"))]],
            vec![vec![], vec![Put::PCol(P, "t", i4("b"))], vec![Put::PCol(P, "t", i4("b").nn().def("0"))]],
            vec![vec![], vec![Put::PCon(P, "t", "t_pk", C::pk(&["a"]))], vec![Put::PCon(P, "t", "t_pk", C::uq(&["a", "b"]))]],
            vec![vec![], vec![Put::PCol(P, "u", i4("r")), Put::PCon(P, "u", "u_fk", C::fk(&["r"], P, "t", &["a"]))], vec![Put::PCol(P, "u", i4("r"))]],
            vec![vec![], vec![Put::PRel(P, "i", T::Index(crate::model::Index::new("t", &["b"])))]],
            vec![vec![], vec![Put::PRel(P, "v", T::View("SELECT a FROM public.t".into()))], vec![Put::PRel(P, "v", T::View("SELECT a, b FROM public.t".into()))]],
            vec![
                vec![],
                vec![Put::PRel(P, "s", T::Seq(Seq::plain()))],
                vec![Put::PRel(P, "s", T::Seq(Seq { owned: Some(("t".into(), "a".into())), ..Seq::plain() }))],
            ],
            vec![vec![], vec![Put::PCon(P, "t", "t_ck", C::ck("b > 0"))]],
            vec![vec![], vec![Put::PFn(P, "f()", Func::new("SELECT 1"))]],
        ],
        dist: (1, 3),
    });
    v.push(large());
    v
}

/// Much of everything: what comes tenth or fortieth is treated like what comes first.
fn large() -> Slice {
    const P: &str = "public";
    let name = |p: &str, i: usize| -> &'static str { format!("{p}{i:02}").leak() };
    let wide = |other: bool| -> Alt {
        let mut a = vec![];
        for i in 0..40 {
            let n = name("c", i);
            if other && i % 5 == 4 {
                continue;
            }
            let changed = other && i % 3 == 1;
            let mut c = match i % 4 {
                0 | 1 => Col_(n, if changed { "int8" } else { "int4" }),
                2 => Col_(n, if changed { "varchar(20)" } else { "text" }),
                _ => Col_(n, if changed { "numeric(12,2)" } else { "numeric(10,2)" }),
            };
            if i % 4 == 1 {
                c = c.def(if other && i % 8 == 1 { "1" } else { "0" });
            }
            c.nn = i % 10 == 0 || (i % 2 == 0) != other;
            a.push(Put::PCol(P, "w", c));
        }
        for i in 40..if other { 46 } else { 40 } {
            a.push(Put::PCol(P, "w", Col_(name("c", i), "text")));
        }
        let ten: Vec<String> = (0..10).map(|i| name("c", if other { 30 - i * 3 } else { i * 4 }).to_string()).filter(|n| !other || n[1..].parse::<usize>().unwrap() % 5 != 4).collect();
        let ten: Vec<&str> = ten.iter().map(|x| x.as_str()).collect();
        a.push(Put::PCon(P, "w", "w_uq", Con::uq(&ten)));
        a.push(Put::PCon(P, "w", "w_pk", Con::pk(&["c00", "c10", "c20"])));
        a.push(Put::PRel(P, "w_ix", Rel::Index(Index::new("w", &ten))));
        for i in 0..12 {
            a.push(Put::PCon(P, "w", name("ck", i), Con::ck(&format!("c{:02} > {}", i % 2 * 20, if other { i + 1 } else { i }))));
        }
        a
    };
    let tables = |how: u8| -> Alt {
        let mut a = vec![];
        for i in 0..14 {
            let (t, f) = (name("t", i), name("f", i));
            a.push(Put::PCol(P, t, Col_("id", "int4").nn()));
            a.push(Put::PCol(P, t, Col_("r", "int4")));
            a.push(Put::PCon(P, t, name("p", i), Con::pk(&["id"])));
            let to = match how {
                0 => i.checked_sub(1),
                1 => Some((i + 1) % 14),
                _ => Some(if i == 7 { 8 } else { 7 }),
            };
            if let Some(to) = to {
                a.push(Put::PCon(P, t, f, Con::fk(&["r"], P, name("t", to), &["id"])));
            }
        }
        a
    };
    let views = |up: bool| -> Alt {
        (0usize..10)
            .map(|i| {
                let from = if up { i.checked_sub(1) } else { (i < 9).then_some(i + 1) };
                Put::PRel(P, name("v", i), Rel::View(match from {
                    None => "SELECT c00, c01 FROM public.w".into(),
                    Some(j) => format!("SELECT c00, c01 FROM public.v{j:02}"),
                }))
            })
            .collect()
    };
    let rest = |other: bool| -> Alt {
        let mut a = vec![];
        for i in 0..12 {
            a.push(Put::PRel(P, name("s", i), Rel::Seq(Seq { inc: if other { i as i64 + 2 } else { 1 }, ..Seq::plain() })));
            a.push(Put::PFn(P, format!("g{i:02}()").leak(), Func::new(&if other { format!("SELECT {i}") } else { "SELECT 1".into() })));
            a.push(Put::PRel(P, name("x", i), Rel::Index(Index::new(name("y", if other { i } else { 0 }), &["a"]))));
            a.push(Put::PCol(P, name("y", i), Col_("a", "int4")));
        }
        a
    };
    Slice {
        name: "large",
        base: vec![Put::PSchema(P)],
        slots: vec![vec![vec![], wide(false), wide(true)], vec![vec![], tables(0), tables(1), tables(2)], vec![vec![], views(true), views(false)], vec![vec![], rest(false), rest(true)]],
        dist: (1, 2),
    }
}
