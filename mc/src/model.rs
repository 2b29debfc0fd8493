//! The reference model of a schema, independent of podo's types.
use std::collections::{BTreeMap, BTreeSet};

pub type Name = String;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Db {
    pub schemas: BTreeMap<Name, Schema>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Schema {
    pub rels: BTreeMap<Name, Rel>,
    pub fns: BTreeMap<Name, Func>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Rel {
    Table(Table),
    View(String),
    Index(Index),
    Seq(Seq),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Table {
    pub cols: Vec<Col>,
    pub cons: BTreeMap<Name, Con>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Col {
    pub name: Name,
    pub ty: String,
    pub nn: bool,
    pub def: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ConKind {
    Pk { cols: Vec<Name> },
    Uq { cols: Vec<Name> },
    Fk { cols: Vec<Name>, ts: Name, tt: Name, tc: Vec<Name>, m: String, u: String, d: String },
    Ck { expr: String },
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Con {
    pub kind: ConKind,
    pub deferrable: bool,
    pub deferred: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Index {
    pub table: Name,
    pub unique: bool,
    pub method: String,
    pub keys: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Seq {
    pub ty: String,
    pub inc: i64,
    pub min: i64,
    pub max: i64,
    pub start: i64,
    pub cache: i64,
    pub cycle: bool,
    pub owned: Option<(Name, Name)>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Func {
    pub body: String,
    pub lang: String,
    pub ret: String,
    pub vol: String,
}

pub fn type_range(ty: &str) -> (i64, i64) {
    match ty {
        "int2" => (i16::MIN as i64, i16::MAX as i64),
        "int4" => (i32::MIN as i64, i32::MAX as i64),
        _ => (i64::MIN, i64::MAX),
    }
}

impl Seq {
    /// The sequence that `CREATE SEQUENCE` makes with these settings and defaults for the rest.
    pub fn new(ty: &str, inc: i64, min: Option<i64>, max: Option<i64>, start: Option<i64>) -> Seq {
        let (lo, hi) = type_range(ty);
        let min = min.unwrap_or(if inc >= 0 { 1 } else { lo });
        let max = max.unwrap_or(if inc >= 0 { hi } else { -1 });
        let start = start.unwrap_or(if inc >= 0 { min } else { max });
        Seq { ty: ty.into(), inc, min, max, start, cache: 1, cycle: false, owned: None }
    }
    pub fn plain() -> Seq {
        Seq::new("int8", 1, None, None, None)
    }
}

impl Col {
    pub fn new(name: &str, ty: &str) -> Col {
        Col { name: name.into(), ty: ty.into(), nn: false, def: None }
    }
    pub fn nn(mut self) -> Col {
        self.nn = true;
        self
    }
    pub fn def(mut self, d: &str) -> Col {
        self.def = Some(d.into());
        self
    }
}

pub fn names(v: &[&str]) -> Vec<Name> {
    v.iter().map(|s| s.to_string()).collect()
}

impl Con {
    fn of(kind: ConKind) -> Con {
        Con { kind, deferrable: false, deferred: false }
    }
    pub fn pk(c: &[&str]) -> Con {
        Con::of(ConKind::Pk { cols: names(c) })
    }
    pub fn uq(c: &[&str]) -> Con {
        Con::of(ConKind::Uq { cols: names(c) })
    }
    pub fn ck(e: &str) -> Con {
        Con::of(ConKind::Ck { expr: e.into() })
    }
    pub fn fk(c: &[&str], ts: &str, tt: &str, tc: &[&str]) -> Con {
        Con::of(ConKind::Fk {
            cols: names(c),
            ts: ts.into(),
            tt: tt.into(),
            tc: names(tc),
            m: "SIMPLE".into(),
            u: "NO ACTION".into(),
            d: "NO ACTION".into(),
        })
    }
    pub fn rules(mut self, mm: &str, uu: &str, dd: &str) -> Con {
        if let ConKind::Fk { m, u, d, .. } = &mut self.kind {
            *m = mm.into();
            *u = uu.into();
            *d = dd.into();
        }
        self
    }
    pub fn defer(mut self, a: bool, b: bool) -> Con {
        self.deferrable = a;
        self.deferred = b;
        self
    }
    pub fn key_cols(&self) -> Option<&Vec<Name>> {
        match &self.kind {
            ConKind::Pk { cols } | ConKind::Uq { cols } => Some(cols),
            _ => None,
        }
    }
}

impl Index {
    pub fn new(table: &str, keys: &[&str]) -> Index {
        Index { table: table.into(), unique: false, method: "btree".into(), keys: names(keys) }
    }
}

impl Func {
    pub fn new(body: &str) -> Func {
        Func { body: body.into(), lang: "SQL".into(), ret: "void".into(), vol: "VOLATILE".into() }
    }
}

impl Table {
    pub fn new(cols: Vec<Col>) -> Table {
        Table { cols, cons: BTreeMap::new() }
    }
    pub fn con(mut self, n: &str, c: Con) -> Table {
        self.cons.insert(n.into(), c);
        self
    }
    pub fn col(&self, n: &str) -> Option<&Col> {
        self.cols.iter().find(|c| c.name == n)
    }
}

impl Db {
    pub fn init() -> Db {
        let mut d = Db::default();
        d.schemas.insert("public".into(), Schema::default());
        d
    }
    pub fn schema(mut self, n: &str) -> Db {
        self.schemas.entry(n.into()).or_default();
        self
    }
    pub fn rel(mut self, s: &str, n: &str, r: Rel) -> Db {
        self.schemas.entry(s.into()).or_default().rels.insert(n.into(), r);
        self
    }
    pub fn table(self, s: &str, n: &str, t: Table) -> Db {
        self.rel(s, n, Rel::Table(t))
    }
    pub fn func(mut self, s: &str, n: &str, f: Func) -> Db {
        self.schemas.entry(s.into()).or_default().fns.insert(n.into(), f);
        self
    }
    pub fn get_table(&self, s: &str, n: &str) -> Option<&Table> {
        match self.schemas.get(s)?.rels.get(n)? {
            Rel::Table(t) => Some(t),
            _ => None,
        }
    }
    /// Column order does not count.
    pub fn canon(&self) -> Db {
        let mut d = self.clone();
        for s in d.schemas.values_mut() {
            for r in s.rels.values_mut() {
                if let Rel::Table(t) = r {
                    t.cols.sort();
                }
            }
        }
        d
    }
    /// All names that key a map somewhere.
    pub fn map_names(&self) -> BTreeSet<Name> {
        let mut o = BTreeSet::new();
        for (sn, s) in &self.schemas {
            o.insert(sn.clone());
            for (rn, r) in &s.rels {
                o.insert(rn.clone());
                if let Rel::Table(t) = r {
                    o.extend(t.cons.keys().cloned());
                }
            }
            o.extend(s.fns.keys().cloned());
        }
        o
    }
    /// Line per fact: small, readable and diffable.
    pub fn facts(&self) -> BTreeSet<String> {
        let mut o = BTreeSet::new();
        for (sn, s) in &self.schemas {
            o.insert(format!("schema {sn:?}"));
            for (rn, r) in &s.rels {
                match r {
                    Rel::Table(t) => {
                        o.insert(format!("table {sn:?}.{rn:?}"));
                        for c in &t.cols {
                            o.insert(format!("column {sn:?}.{rn:?}.{:?} {} nn={} default={:?}", c.name, c.ty, c.nn, c.def));
                        }
                        for (cn, c) in &t.cons {
                            o.insert(format!("constraint {sn:?}.{rn:?}.{cn:?} {:?} deferrable={} deferred={}", c.kind, c.deferrable, c.deferred));
                        }
                    }
                    Rel::View(q) => {
                        o.insert(format!("view {sn:?}.{rn:?} {q:?}"));
                    }
                    Rel::Index(i) => {
                        o.insert(format!("index {sn:?}.{rn:?} {i:?}"));
                    }
                    Rel::Seq(q) => {
                        o.insert(format!("sequence {sn:?}.{rn:?} {q:?}"));
                    }
                }
            }
            for (n, f) in &s.fns {
                o.insert(format!("function {sn:?}.{n:?} {f:?}"));
            }
        }
        o
    }
    pub fn diff_text(&self, want: &Db) -> String {
        let (a, b) = (self.facts(), want.facts());
        let mut o: Vec<String> = a.difference(&b).map(|x| format!("unexpected {x}")).collect();
        o.extend(b.difference(&a).map(|x| format!("missing {x}")));
        o.join("; ")
    }
    pub fn show(&self) -> String {
        self.facts().into_iter().collect::<Vec<_>>().join("\n")
    }
    pub fn size(&self) -> usize {
        self.facts().len()
    }
}

/// All permutations of 0..n in a fixed order.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for k in 0..n {
        let mut next = Vec::new();
        for p in &out {
            for i in 0..=k {
                let mut q: Vec<usize> = p.clone();
                q.insert(i, k);
                next.push(q);
            }
        }
        out = next;
    }
    out
}
