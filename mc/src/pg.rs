//! A model of PostgreSQL's catalogue: what DDL statements do and when they are refused.
use crate::model::*;
use crate::pglex::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Cat {
    pub next: u32,
    pub schemas: BTreeMap<Name, CSchema>,
    /// what the catalogue does not say: the order in which rows come, and dropped columns
    pub phys: (u8, u8),
    /// tables and functions that are something else of the kind: pg_class.relkind, pg_proc.prokind (by name and "()"),
    /// and marks of checks (by names of table and constraint)
    pub kinds: BTreeMap<(Name, Name), &'static str>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct CSchema {
    pub rels: BTreeMap<Name, CRel>,
    /// by name and argument types
    pub fns: BTreeMap<(Name, Vec<String>), CFn>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CRel {
    Table(CTable),
    View(CView),
    Index(CIndex),
    Seq(CSeq),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct CTable {
    pub cols: Vec<CCol>,
    pub cons: BTreeMap<Name, CCon>,
    pub rows: Vec<Vec<Val>>,
}
pub type Val = Option<String>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CCol {
    pub name: Name,
    pub ty: String,
    pub nn: bool,
    pub def: Option<CExpr>,
    pub serial: Option<Name>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CExpr {
    pub text: String,
    pub fns: Vec<(Name, Name)>,
    pub seqs: Vec<(Name, Name)>,
    pub cols: Vec<Name>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CKind {
    Pk(Vec<Name>),
    Uq(Vec<Name>),
    Fk { cols: Vec<Name>, ts: Name, tt: Name, tc: Vec<Name>, m: String, u: String, d: String, key: Name },
    Ck(CExpr),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CCon {
    pub oid: u32,
    pub kind: CKind,
    pub deferrable: bool,
    pub deferred: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CView {
    pub q: String,
    /// relation and, if known, the columns used
    pub deps: Vec<(Name, Name, Option<Vec<Name>>)>,
    pub out: Option<Vec<Name>>,
    /// what `*` stood for when the view was created
    pub star: Option<Vec<Name>>,
    pub fns: Vec<(Name, Name)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CIndex {
    pub oid: u32,
    pub table: Name,
    pub unique: bool,
    pub method: String,
    pub keys: Vec<CExpr>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CSeq {
    pub s: Seq,
    pub last: i64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CFn {
    pub args: Vec<(String, String)>,
    pub body: String,
    pub lang: String,
    pub ret: String,
    pub vol: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Obj {
    Schema(Name),
    Rel(Name, Name),
    Con(Name, Name, Name),
    Col(Name, Name, Name),
    Default(Name, Name, Name),
    Fn(Name, (Name, Vec<String>)),
}

const INTS: [&str; 3] = ["int2", "int4", "int8"];

fn undefined_schema<T>(s: &str) -> R<T> {
    err("3F000", format!("schema \"{s}\" does not exist"))
}

fn trim_key(t: &[Tok]) -> &[Tok] {
    match t.last() {
        Some(Tok::Id(w, false)) if w == "asc" && t.len() > 1 => &t[..t.len() - 1],
        _ => t,
    }
}

/// An expression of the universes with what it uses. `cols`: columns it may name.
fn expr(t: &[Tok]) -> CExpr {
    let (mut fns, mut seqs, mut cols) = (vec![], vec![], vec![]);
    for (i, x) in t.iter().enumerate() {
        let call = t.get(i + 1) == Some(&Tok::P("("));
        let dot_before = i > 0 && t[i - 1] == Tok::P(".");
        let dot_after = t.get(i + 1) == Some(&Tok::P("."));
        if let Tok::Id(n, q) = x {
            if dot_before && call {
                if let Some(Tok::Id(s, _)) = t.get(i.wrapping_sub(2)) {
                    fns.push((s.clone(), n.clone()));
                }
            } else if !dot_before && !dot_after {
                if call && n == "nextval" {
                    if let Some(Tok::Str(s)) = t.get(i + 2) {
                        if let Ok(l) = lex(s) {
                            match &l[..] {
                                [Tok::Id(a, _), Tok::P("."), Tok::Id(b, _)] => seqs.push((a.clone(), b.clone())),
                                [Tok::Id(b, _)] => seqs.push(("public".into(), b.clone())),
                                _ => {}
                            }
                        }
                    }
                } else if !call && (*q || !KEYLIKE.contains(&n.as_str())) {
                    let cast = i > 0 && t[i - 1] == Tok::P("::");
                    if !cast {
                        cols.push(n.clone());
                    }
                }
            }
        }
    }
    CExpr { text: norm_toks(t), fns, seqs, cols }
}

const KEYLIKE: [&str; 42] = [
    "and", "or", "not", "null", "true", "false", "is", "in", "between", "like", "ilike", "similar", "to", "case", "when", "then", "else", "end", "desc", "asc",
    "nulls", "first", "last", "array", "any", "all", "some", "distinct", "from", "current_timestamp", "current_date", "current_user", "cast", "as", "select", "where",
    "text_pattern_ops", "varchar_pattern_ops", "bpchar_pattern_ops", "jsonb_path_ops", "collate", "isnull",
];

impl Cat {
    pub fn new() -> Cat {
        let mut c = Cat { next: 1, ..Cat::default() };
        c.schemas.insert("public".into(), CSchema::default());
        c
    }
    fn oid(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    pub fn schema(&self, s: &str) -> R<&CSchema> {
        self.schemas.get(s).map(Ok).unwrap_or_else(|| undefined_schema(s))
    }
    fn schema_mut(&mut self, s: &str) -> R<&mut CSchema> {
        match self.schemas.get_mut(s) {
            Some(x) => Ok(x),
            None => undefined_schema(s),
        }
    }
    fn q(&self, n: &QName) -> (Name, Name) {
        (n.0.clone().unwrap_or_else(|| "public".into()), n.1.clone())
    }
    fn rel(&self, s: &str, n: &str) -> R<&CRel> {
        match self.schema(s)?.rels.get(n) {
            Some(r) => Ok(r),
            None => err("42P01", format!("relation \"{s}.{n}\" does not exist")),
        }
    }
    pub fn table(&self, s: &str, n: &str) -> R<&CTable> {
        match self.rel(s, n)? {
            CRel::Table(t) => Ok(t),
            _ => err("42809", format!("\"{n}\" is not a table")),
        }
    }
    pub fn table_mut(&mut self, s: &str, n: &str) -> R<&mut CTable> {
        self.table(s, n)?;
        match self.schemas.get_mut(s).and_then(|x| x.rels.get_mut(n)) {
            Some(CRel::Table(t)) => Ok(t),
            _ => unreachable!(),
        }
    }
    /// Is the name free for a relation or the index of a key?
    fn free(&self, s: &str, n: &str) -> R<()> {
        let sc = self.schema(s)?;
        let taken = sc.rels.contains_key(n)
            || sc.rels.values().any(|r| match r {
                CRel::Table(t) => t.cons.iter().any(|(cn, c)| cn == n && matches!(c.kind, CKind::Pk(_) | CKind::Uq(_))),
                _ => false,
            });
        if taken {
            return err("42P07", format!("relation \"{n}\" already exists"));
        }
        Ok(())
    }
    fn col<'a>(&self, t: &'a CTable, tn: &str, c: &str) -> R<&'a CCol> {
        match t.cols.iter().find(|x| x.name == c) {
            Some(x) => Ok(x),
            None => err("42703", format!("column \"{c}\" of relation \"{tn}\" does not exist")),
        }
    }
    fn check_expr_refs(&self, e: &CExpr, t: Option<(&CTable, &str)>) -> R<()> {
        match t {
            Some((t, tn)) => {
                for c in &e.cols {
                    self.col(t, tn, c)?;
                }
            }
            None => {
                if !e.cols.is_empty() {
                    return err("0A000", format!("cannot use column reference in DEFAULT expression: {}", e.cols[0]));
                }
            }
        }
        for (s, f) in &e.fns {
            if s != "pg_catalog" && !self.schema(s)?.fns.keys().any(|k| k.0 == *f) {
                return err("42883", format!("function {s}.{f} does not exist"));
            }
        }
        for (s, q) in &e.seqs {
            match self.rel(s, q)? {
                CRel::Seq(_) => {}
                _ => return err("42809", format!("\"{q}\" is not a sequence")),
            }
        }
        Ok(())
    }

    // dependencies: objects that go with it, objects that keep it from going
    fn dependents(&self, o: &Obj) -> (Vec<Obj>, Vec<Obj>) {
        let (mut auto, mut normal) = (vec![], vec![]);
        let fk_on = |f: &dyn Fn(&str, &str, &str, &CCon) -> bool, out: &mut Vec<Obj>| {
            for (sn, s) in &self.schemas {
                for (tn, r) in &s.rels {
                    if let CRel::Table(t) = r {
                        for (cn, c) in &t.cons {
                            if f(sn, tn, cn, c) {
                                out.push(Obj::Con(sn.clone(), tn.clone(), cn.clone()));
                            }
                        }
                    }
                }
            }
        };
        let views_on = |f: &dyn Fn(&CView) -> bool, out: &mut Vec<Obj>| {
            for (sn, s) in &self.schemas {
                for (vn, r) in &s.rels {
                    if let CRel::View(v) = r {
                        if f(v) {
                            out.push(Obj::Rel(sn.clone(), vn.clone()));
                        }
                    }
                }
            }
        };
        let exprs_on = |f: &dyn Fn(&CExpr) -> bool, out: &mut Vec<Obj>| {
            for (sn, s) in &self.schemas {
                for (tn, r) in &s.rels {
                    match r {
                        CRel::Table(t) => {
                            for c in &t.cols {
                                if c.def.as_ref().map(f) == Some(true) {
                                    out.push(Obj::Default(sn.clone(), tn.clone(), c.name.clone()));
                                }
                            }
                            for (cn, c) in &t.cons {
                                if let CKind::Ck(e) = &c.kind {
                                    if f(e) {
                                        out.push(Obj::Con(sn.clone(), tn.clone(), cn.clone()));
                                    }
                                }
                            }
                        }
                        CRel::Index(i) => {
                            if i.keys.iter().any(f) {
                                out.push(Obj::Rel(sn.clone(), tn.clone()));
                            }
                        }
                        _ => {}
                    }
                }
            }
        };
        match o {
            Obj::Schema(s) => {
                if let Some(sc) = self.schemas.get(s) {
                    normal.extend(sc.rels.keys().map(|n| Obj::Rel(s.clone(), n.clone())));
                    normal.extend(sc.fns.keys().map(|n| Obj::Fn(s.clone(), n.clone())));
                }
            }
            Obj::Rel(s, n) => match self.schemas.get(s).and_then(|x| x.rels.get(n)) {
                Some(CRel::Table(t)) => {
                    auto.extend(t.cons.keys().map(|c| Obj::Con(s.clone(), n.clone(), c.clone())));
                    auto.extend(t.cols.iter().map(|c| Obj::Col(s.clone(), n.clone(), c.name.clone())));
                    for (rn, r) in &self.schemas[s].rels {
                        match r {
                            CRel::Index(i) if i.table == *n => auto.push(Obj::Rel(s.clone(), rn.clone())),
                            _ => {}
                        }
                    }
                    views_on(&|v| v.deps.iter().any(|d| d.0 == *s && d.1 == *n), &mut normal);
                    fk_on(&|_, _, _, c| matches!(&c.kind, CKind::Fk { ts, tt, .. } if ts == s && tt == n), &mut normal);
                }
                Some(CRel::View(_)) => views_on(&|v| v.deps.iter().any(|d| d.0 == *s && d.1 == *n), &mut normal),
                Some(CRel::Seq(_)) => exprs_on(&|e| e.seqs.iter().any(|x| x.0 == *s && x.1 == *n), &mut normal),
                Some(CRel::Index(i)) => {
                    let t = i.table.clone();
                    fk_on(&|_, _, _, c| matches!(&c.kind, CKind::Fk { ts, tt, key, .. } if ts == s && *tt == t && key == n), &mut normal)
                }
                None => {}
            },
            Obj::Con(s, t, c) => {
                fk_on(&|_, _, _, k| matches!(&k.kind, CKind::Fk { ts, tt, key, .. } if ts == s && tt == t && key == c), &mut normal);
            }
            Obj::Col(s, t, c) => {
                auto.push(Obj::Default(s.clone(), t.clone(), c.clone()));
                if let Ok(tab) = self.table(s, t) {
                    for (kn, k) in &tab.cons {
                        let has = match &k.kind {
                            CKind::Pk(v) | CKind::Uq(v) => v.contains(c),
                            CKind::Fk { cols, .. } => cols.contains(c),
                            CKind::Ck(e) => e.cols.contains(c),
                        };
                        if has {
                            auto.push(Obj::Con(s.clone(), t.clone(), kn.clone()));
                        }
                    }
                }
                if let Some(sc) = self.schemas.get(s) {
                    for (rn, r) in &sc.rels {
                        match r {
                            CRel::Index(i) if i.table == *t && i.keys.iter().any(|k| k.cols.contains(c)) => auto.push(Obj::Rel(s.clone(), rn.clone())),
                            CRel::Seq(q) if q.s.owned == Some((t.clone(), c.clone())) => auto.push(Obj::Rel(s.clone(), rn.clone())),
                            _ => {}
                        }
                    }
                }
                views_on(&|v| v.deps.iter().any(|d| d.0 == *s && d.1 == *t && d.2.as_ref().map(|x| x.contains(c)) == Some(true)), &mut normal);
                fk_on(&|_, _, _, k| matches!(&k.kind, CKind::Fk { ts, tt, tc, .. } if ts == s && tt == t && tc.contains(c)), &mut normal);
            }
            Obj::Default(..) => {}
            Obj::Fn(s, k) => {
                let last = self.schemas.get(s).map(|x| x.fns.keys().filter(|y| y.0 == k.0).count()) == Some(1);
                // calls are resolved by arguments; the universes only call functions without any
                if k.1.is_empty() || last {
                    exprs_on(&|e| e.fns.iter().any(|x| x.0 == *s && x.1 == k.0), &mut normal);
                    views_on(&|v| v.fns.iter().any(|x| x.0 == *s && x.1 == k.0), &mut normal);
                }
            }
        }
        (auto, normal)
    }

    fn drop_objs(&mut self, objs: Vec<Obj>, cascade: bool) -> R<()> {
        let mut set: BTreeSet<Obj> = BTreeSet::new();
        let mut work = objs.clone();
        let mut normals: Vec<(Obj, Obj)> = vec![];
        while let Some(o) = work.pop() {
            if !set.insert(o.clone()) {
                continue;
            }
            let (a, n) = self.dependents(&o);
            work.extend(a);
            for x in n {
                if cascade {
                    work.push(x);
                } else {
                    normals.push((o.clone(), x));
                }
            }
        }
        for (o, x) in normals {
            if !set.contains(&x) {
                return err("2BP01", format!("cannot drop {} because other objects depend on it: {}", show(&objs[0]), format!("{} depends on {}", show(&x), show(&o))));
            }
        }
        for o in set {
            match o {
                Obj::Schema(s) => {
                    self.schemas.remove(&s);
                }
                Obj::Rel(s, n) => {
                    if let Some(x) = self.schemas.get_mut(&s) {
                        x.rels.remove(&n);
                    }
                }
                Obj::Con(s, t, c) => {
                    if let Ok(t) = self.table_mut(&s, &t) {
                        t.cons.remove(&c);
                    }
                }
                Obj::Col(s, t, c) => {
                    if let Ok(t) = self.table_mut(&s, &t) {
                        if let Some(i) = t.cols.iter().position(|x| x.name == c) {
                            t.cols.remove(i);
                            for r in &mut t.rows {
                                r.remove(i);
                            }
                        }
                    }
                }
                Obj::Default(s, t, c) => {
                    if let Ok(t) = self.table_mut(&s, &t) {
                        if let Some(x) = t.cols.iter_mut().find(|x| x.name == c) {
                            x.def = None;
                        }
                    }
                }
                Obj::Fn(s, k) => {
                    if let Some(x) = self.schemas.get_mut(&s) {
                        x.fns.remove(&k);
                    }
                }
            }
        }
        Ok(())
    }

    /// Executes one statement; nothing is changed when it fails.
    pub fn exec(&mut self, sql: &str) -> R<()> {
        let d = P::new(sql)?.ddl()?;
        let mut c = self.clone();
        c.apply(d)?;
        *self = c;
        Ok(())
    }

    pub fn apply(&mut self, d: Ddl) -> R<()> {
        match d {
            Ddl::CreateSchema(n, ine) => {
                if n.starts_with("pg_") {
                    return err("42939", format!("unacceptable schema name \"{n}\""));
                }
                if self.schemas.contains_key(&n) {
                    return if ine { Ok(()) } else { err("42P06", format!("schema \"{n}\" already exists")) };
                }
                self.schemas.insert(n, CSchema::default());
                Ok(())
            }
            Ddl::CreateTable(n, cols, cons, ine) => self.create_table(n, cols, cons, ine),
            Ddl::AlterTable(n, acts) => {
                let (s, t) = self.q(&n);
                self.table(&s, &t)?;
                for a in acts {
                    self.alter(&s, &t, a)?;
                }
                Ok(())
            }
            Ddl::CreateIndex { name, table, unique, method, keys, ine } => {
                let (s, t) = self.q(&table);
                let tab = self.table(&s, &t)?.clone();
                let name = match name {
                    Some(n) => n,
                    None => self.auto_name(&s, &t, &keys.iter().map(|k| join(k)).collect::<Vec<_>>().join("_"), "idx"),
                };
                if let Err(e) = self.free(&s, &name) {
                    return if ine && e.code == "42P07" { Ok(()) } else { Err(e) };
                }
                if !["btree", "hash", "gin", "gist", "brin", "spgist"].contains(&method.as_str()) {
                    return err("42704", format!("access method \"{method}\" does not exist"));
                }
                if unique && method != "btree" {
                    return err("0A000", format!("access method \"{method}\" does not support unique indexes"));
                }
                if keys.len() > 1 && (method == "hash" || method == "spgist") {
                    return err("0A000", format!("access method \"{method}\" does not support multicolumn indexes"));
                }
                let mut ks = Vec::new();
                for k in &keys {
                    let e = expr(trim_key(k));
                    if method != "btree" && e.text.ends_with(" desc") {
                        return err("0A000", format!("access method \"{method}\" does not support ASC/DESC options"));
                    }
                    self.check_expr_refs(&e, Some((&tab, &t)))?;
                    for (fs, f) in &e.fns {
                        let vols: Vec<String> = self.schemas.get(fs).map(|x| x.fns.iter().filter(|y| y.0 .0 == *f).map(|y| y.1.vol.to_uppercase()).collect()).unwrap_or_default();
                        if !vols.is_empty() && !vols.iter().any(|v| v == "IMMUTABLE") {
                            return err("42P17", "functions in index expression must be marked IMMUTABLE");
                        }
                    }
                    ks.push(e);
                }
                let oid = self.oid();
                self.schema_mut(&s)?.rels.insert(name, CRel::Index(CIndex { oid, table: t, unique, method, keys: ks }));
                Ok(())
            }
            Ddl::CreateSeq(n, o, ine) => {
                let (s, q) = self.q(&n);
                if let Err(e) = self.free(&s, &q) {
                    return if ine && e.code == "42P07" { Ok(()) } else { Err(e) };
                }
                let ty = o.ty.clone().unwrap_or_else(|| "int8".into());
                let mut base = Seq::new(&ty, o.inc.unwrap_or(1), o.min.flatten(), o.max.flatten(), o.start);
                base.cache = o.cache.unwrap_or(1);
                base.cycle = o.cycle.unwrap_or(false);
                let c = CSeq { last: base.start, s: base };
                self.check_seq(&c)?;
                self.schema_mut(&s)?.rels.insert(q.clone(), CRel::Seq(c));
                self.own(&s, &q, &o)
            }
            Ddl::AlterSeq(n, o) => {
                let (s, q) = self.q(&n);
                let mut c = match self.rel(&s, &q)? {
                    CRel::Seq(c) => c.clone(),
                    _ => return err("42809", format!("\"{q}\" is not a sequence")),
                };
                let old_inc = c.s.inc;
                if let Some(i) = o.inc {
                    c.s.inc = i;
                }
                let (olo, ohi) = type_range(&c.s.ty);
                let (mut rmin, mut rmax) = (o.min == Some(None), o.max == Some(None));
                if let Some(t) = &o.ty {
                    if t != &c.s.ty {
                        rmin |= (old_inc > 0 && c.s.min == 1 && false) || c.s.min == olo;
                        rmax |= c.s.max == ohi;
                        c.s.ty = t.clone();
                    }
                }
                let (lo, hi) = type_range(&c.s.ty);
                match o.min {
                    Some(Some(v)) => c.s.min = v,
                    _ if rmin => c.s.min = if c.s.inc > 0 { 1 } else { lo },
                    _ => {}
                }
                match o.max {
                    Some(Some(v)) => c.s.max = v,
                    _ if rmax => c.s.max = if c.s.inc > 0 { hi } else { -1 },
                    _ => {}
                }
                if let Some(v) = o.start {
                    c.s.start = v;
                }
                if let Some(v) = o.cache {
                    c.s.cache = v;
                }
                if let Some(v) = o.cycle {
                    c.s.cycle = v;
                }
                if let Some(r) = o.restart {
                    c.last = r.unwrap_or(c.s.start);
                }
                self.check_seq(&c)?;
                self.schema_mut(&s)?.rels.insert(q.clone(), CRel::Seq(c));
                self.own(&s, &q, &o)
            }
            Ddl::CreateView(n, q, replace) => {
                let (s, v) = self.q(&n);
                let view = self.view(&q, false)?;
                if replace {
                    if let Some(CRel::View(old)) = self.schema(&s)?.rels.get(&v) {
                        if let (Some(a), Some(b)) = (&old.out, &view.out) {
                            if b.len() < a.len() || a[..] != b[..a.len()] {
                                return err("42P16", "cannot change name or number of view columns");
                            }
                        }
                        self.schema_mut(&s)?.rels.insert(v, CRel::View(view));
                        return Ok(());
                    }
                }
                self.free(&s, &v)?;
                self.schema_mut(&s)?.rels.insert(v, CRel::View(view));
                Ok(())
            }
            Ddl::CreateFn { name, args, ret, lang, vol, body, replace } => {
                let (s, n) = self.q(&name);
                if !["sql", "plpgsql", "internal", "c"].contains(&lang.as_str()) {
                    return err("42704", format!("language \"{lang}\" does not exist"));
                }
                if lang == "plpgsql" {
                    let w = body.trim_start().to_lowercase();
                    if !w.starts_with("begin") && !w.starts_with("declare") {
                        return syntax("syntax error in function body");
                    }
                }
                if lang == "sql" && args.is_empty() {
                    // PostgreSQL analyses the body (check_function_bodies)
                    for part in body.split(';').filter(|p| !p.trim().is_empty()) {
                        let t = P::new(part)?.t;
                        if matches!(t.first(), Some(Tok::Id(w, false)) if w == "select") {
                            self.view(&t, true)?;
                        }
                    }
                }
                let k = (n.clone(), args.iter().map(|a| a.1.clone()).collect::<Vec<_>>());
                let sc = self.schema_mut(&s)?;
                if let Some(old) = sc.fns.get(&k) {
                    if !replace {
                        return err("42723", format!("function {n} already exists with same argument types"));
                    }
                    if old.ret != ret {
                        return err("42P13", "cannot change return type of existing function");
                    }
                    if old.args != args {
                        return err("42P13", "cannot change name of input parameter");
                    }
                }
                sc.fns.insert(k, CFn { args, body: body.trim().into(), lang, ret, vol });
                Ok(())
            }
            Ddl::DropSchema(ns, ie, cascade) => {
                let mut v = vec![];
                for n in ns {
                    if !self.schemas.contains_key(&n) {
                        if ie {
                            continue;
                        }
                        return undefined_schema(&n);
                    }
                    v.push(Obj::Schema(n));
                }
                self.drop_objs(v, cascade)
            }
            Ddl::Drop(k, ns, ie, cascade) => {
                let mut v = vec![];
                for n in ns {
                    let (s, r) = self.q(&n);
                    let found = match self.schemas.get(&s) {
                        None if ie => continue,
                        None => return undefined_schema(&s),
                        Some(x) => x.rels.get(&r),
                    };
                    match (k, found) {
                        (Kind::Table, Some(CRel::Table(_))) | (Kind::View, Some(CRel::View(_))) | (Kind::Index, Some(CRel::Index(_))) | (Kind::Seq, Some(CRel::Seq(_))) => {
                            v.push(Obj::Rel(s, r))
                        }
                        (_, Some(_)) => return err("42809", format!("\"{r}\" is not of the kind to drop")),
                        (Kind::Index, None) if self.free(&s, &r).is_err() => return err("2BP01", format!("cannot drop index {r} because a constraint requires it")),
                        (_, None) if ie => {}
                        _ => return err("42P01", format!("\"{s}.{r}\" does not exist")),
                    }
                }
                self.drop_objs(v, cascade)
            }
            Ddl::DropFn(n, args, ie, cascade) => {
                let (s, f) = self.q(&n);
                let sc = match self.schemas.get(&s) {
                    None if ie => return Ok(()),
                    None => return undefined_schema(&s),
                    Some(x) => x,
                };
                let ks: Vec<_> = sc.fns.keys().filter(|k| k.0 == f && args.as_ref().map(|a| *a == k.1).unwrap_or(true)).cloned().collect();
                match ks.len() {
                    0 if ie => Ok(()),
                    0 => err("42883", format!("function {f} does not exist")),
                    1 => self.drop_objs(vec![Obj::Fn(s, ks[0].clone())], cascade),
                    _ => err("42725", format!("function name \"{f}\" is not unique")),
                }
            }
        }
    }

    fn own(&mut self, s: &str, q: &str, o: &SeqOpts) -> R<()> {
        let owner = match &o.owned {
            None => return Ok(()),
            Some(None) => None,
            Some(Some(v)) => {
                let (os, ot, oc) = match &v[..] {
                    [t, c] => ("public", t, c),
                    [a, t, c] => (a.as_str(), t, c),
                    _ => return syntax("invalid OWNED BY option"),
                };
                let t = self.table(os, ot)?;
                if os != s {
                    return err("55000", "sequence must be in same schema as table it is linked to");
                }
                self.col(t, ot, oc)?;
                Some((ot.clone(), oc.clone()))
            }
        };
        if let Some(CRel::Seq(c)) = self.schema_mut(s)?.rels.get_mut(q) {
            c.s.owned = owner;
        }
        Ok(())
    }

    fn check_seq(&self, c: &CSeq) -> R<()> {
        let s = &c.s;
        if !INTS.contains(&s.ty.as_str()) {
            return err("22023", "sequence type must be smallint, integer, or bigint");
        }
        let (lo, hi) = type_range(&s.ty);
        let bad = |m: String| err("22023", m);
        if s.inc == 0 {
            return bad("INCREMENT must not be zero".into());
        }
        if s.max > hi || s.max < lo {
            return bad(format!("MAXVALUE ({}) is out of range for sequence data type {}", s.max, s.ty));
        }
        if s.min > hi || s.min < lo {
            return bad(format!("MINVALUE ({}) is out of range for sequence data type {}", s.min, s.ty));
        }
        if s.min >= s.max {
            return bad(format!("MINVALUE ({}) must be less than MAXVALUE ({})", s.min, s.max));
        }
        if s.start < s.min || s.start > s.max {
            return bad(format!("START value ({}) is out of bounds", s.start));
        }
        if c.last < s.min || c.last > s.max {
            return bad(format!("RESTART value ({}) is out of bounds", c.last));
        }
        if s.cache < 1 {
            return bad(format!("CACHE ({}) must be greater than zero", s.cache));
        }
        Ok(())
    }

    fn view(&self, q: &[Tok], function: bool) -> R<CView> {
        let text = join(q);
        // SELECT a, s.f() AS b, * FROM s.t
        let word = |k: usize, w: &str| matches!(q.get(k), Some(Tok::Id(x, false)) if x == w);
        let mut out = CView { q: text, deps: vec![], out: None, star: None, fns: vec![] };
        let from = (0..q.len()).find(|i| word(*i, "from")).unwrap_or(q.len());
        let plain = word(0, "select") && (from == q.len() || (q.len() == from + 4 && q[from + 2] == Tok::P(".")) || (q.len() == from + 2 && matches!(q[from + 1], Tok::Id(..))));
        if plain && from > 1 {
            // what it reads from
            let mut has: Option<Vec<Name>> = Some(vec![]);
            let mut rel = None;
            let public = "public".to_string();
            let read = match (q.get(from + 1), q.get(from + 3)) {
                (Some(Tok::Id(s, _)), Some(Tok::Id(t, _))) => Some((s, t)),
                (Some(Tok::Id(t, _)), None) => Some((&public, t)),
                _ => None,
            };
            if let Some((s, t)) = read {
                has = match self.rel(s, t)? {
                    CRel::Table(tab) => Some(tab.cols.iter().map(|c| c.name.clone()).collect()),
                    CRel::View(v) => v.out.clone(),
                    _ => return err("42809", format!("\"{t}\" cannot be read")),
                };
                rel = Some((s.clone(), t.clone()));
            }
            let mut items: Vec<&[Tok]> = vec![];
            let (mut depth, mut start) = (0, 1);
            for i in 1..=from {
                match q.get(i) {
                    _ if i == from => items.push(&q[start..i]),
                    Some(Tok::P("(")) => depth += 1,
                    Some(Tok::P(")")) => depth -= 1,
                    Some(Tok::P(",")) if depth == 0 => {
                        items.push(&q[start..i]);
                        start = i + 1;
                    }
                    _ => {}
                }
            }
            let (mut cols, mut names, mut known) = (vec![], vec![], true);
            for it in items {
                if let [Tok::P("*")] = it {
                    match (&has, &rel) {
                        (Some(h), Some(_)) => {
                            cols.extend(h.clone());
                            names.extend(h.clone());
                            out.star = Some(h.clone());
                        }
                        (None, _) => known = false,
                        _ => return syntax("SELECT * with no tables specified is not valid"),
                    }
                    continue;
                }
                let (e, name) = match it {
                    [e @ .., Tok::Id(w, false), Tok::Id(n, _)] if w == "as" => (e, Some(n.clone())),
                    [Tok::Id(n, _)] => (it, Some(n.clone())),
                    _ => (it, None),
                };
                let x = expr(e);
                if let Some(h) = &has {
                    for c in &x.cols {
                        if !h.contains(c) {
                            return err("42703", format!("column \"{c}\" does not exist"));
                        }
                    }
                }
                self.check_expr_refs(&CExpr { cols: vec![], ..x.clone() }, None)?;
                cols.extend(x.cols);
                out.fns.extend(x.fns);
                match name {
                    Some(n) => names.push(n),
                    None => known = false,
                }
            }
            if !function && known && names.iter().collect::<BTreeSet<_>>().len() != names.len() {
                return err("42701", "column specified more than once");
            }
            if let Some((s, t)) = rel {
                out.deps.push((s, t, Some(cols)));
            }
            if known {
                out.out = Some(names);
            }
            return Ok(out);
        }
        // opaque: what it reads from must exist
        for i in 0..q.len() {
            if word(i, "from") || word(i, "join") {
                if let (Some(Tok::Id(s, _)), Some(Tok::P(".")), Some(Tok::Id(t, _))) = (q.get(i + 1), q.get(i + 2), q.get(i + 3)) {
                    self.rel(s, t)?;
                    out.deps.push((s.clone(), t.clone(), None));
                }
            }
        }
        Ok(out)
    }

    fn auto_name(&self, s: &str, t: &str, mid: &str, end: &str) -> Name {
        let base = if mid.is_empty() { format!("{t}_{end}") } else { format!("{t}_{mid}_{end}") };
        let mut n = base.clone();
        let mut k = 0;
        while self.free(s, &n).is_err() || self.table(s, t).map(|t| t.cons.contains_key(&n)).unwrap_or(false) {
            k += 1;
            n = format!("{base}{k}");
        }
        n
    }

    fn create_table(&mut self, n: QName, cols: Vec<ColDef>, cons: Vec<(Option<String>, TCon)>, ine: bool) -> R<()> {
        let (s, t) = self.q(&n);
        if let Err(e) = self.free(&s, &t) {
            return if ine && e.code == "42P07" { Ok(()) } else { Err(e) };
        }
        self.schema_mut(&s)?.rels.insert(t.clone(), CRel::Table(CTable::default()));
        let mut all = vec![];
        for mut c in cols {
            all.append(&mut c.cons);
            self.add_col(&s, &t, c)?;
        }
        all.extend(cons);
        // keys first: foreign keys may refer to the table's own
        all.sort_by_key(|c| matches!(c.1.kind, TConKind::Fk { .. }));
        for (n, c) in all {
            self.add_con(&s, &t, n, c)?;
        }
        Ok(())
    }

    fn add_col(&mut self, s: &str, t: &str, mut c: ColDef) -> R<()> {
        if self.table(s, t)?.cols.iter().any(|x| x.name == c.name) {
            return err("42701", format!("column \"{}\" of relation \"{t}\" already exists", c.name));
        }
        if ["xmin", "xmax", "ctid", "cmin", "cmax", "tableoid"].contains(&c.name.as_str()) {
            return err("42701", format!("column name \"{}\" conflicts with a system column name", c.name));
        }
        let serial = match c.ty.as_str() {
            "serial" => Some("int4"),
            "bigserial" => Some("int8"),
            "smallserial" => Some("int2"),
            _ => None,
        };
        let mut seq = None;
        if let Some(ty) = serial {
            let q = self.auto_name(s, t, &c.name, "seq");
            c.ty = ty.into();
            let mut m = Seq::new(ty, 1, None, None, None);
            m.owned = Some((t.into(), c.name.clone()));
            let last = m.start;
            self.schema_mut(s)?.rels.insert(q.clone(), CRel::Seq(CSeq { s: m, last }));
            seq = Some(q);
        }
        if ["void", "trigger", "record", "unknown"].contains(&c.ty.as_str()) {
            return err("42P16", format!("column \"{}\" has pseudo-type {}", c.name, c.ty));
        }
        let def = match c.def {
            Some(e) => {
                let e = expr(&e);
                self.check_expr_refs(&e, None)?;
                Some(e)
            }
            None => None,
        };
        let tab = self.table_mut(s, t)?;
        if c.nn && def.is_none() && seq.is_none() && !tab.rows.is_empty() {
            return err("23502", format!("column \"{}\" contains null values", c.name));
        }
        for r in &mut tab.rows {
            r.push(def.as_ref().map(|_| "default".into()));
        }
        tab.cols.push(CCol { name: c.name, ty: c.ty, nn: c.nn, def, serial: seq });
        Ok(())
    }

    fn add_con(&mut self, s: &str, t: &str, name: Option<String>, c: TCon) -> R<()> {
        let tab = self.table(s, t)?.clone();
        let dup = |v: &Vec<String>| -> R<()> {
            let set: BTreeSet<&String> = v.iter().collect();
            if set.len() != v.len() {
                return err("42701", "column appears twice in constraint");
            }
            Ok(())
        };
        let name = match name {
            Some(n) => n,
            None => match &c.kind {
                TConKind::Pk(_) => self.auto_name(s, t, "", "pkey"),
                TConKind::Uq(v) => self.auto_name(s, t, &v.join("_"), "key"),
                TConKind::Ck(e) => self.auto_name(s, t, &expr(e).cols.first().cloned().unwrap_or_default(), "check"),
                TConKind::Fk { cols, .. } => self.auto_name(s, t, &cols.join("_"), "fkey"),
            },
        };
        if tab.cons.contains_key(&name) {
            return err("42710", format!("constraint \"{name}\" for relation \"{t}\" already exists"));
        }
        let kind = match c.kind {
            TConKind::Pk(cols) => {
                self.free(s, &name)?;
                dup(&cols)?;
                for n in &cols {
                    self.col(&tab, t, n)?;
                }
                if tab.cons.values().any(|k| matches!(k.kind, CKind::Pk(_))) {
                    return err("42P16", format!("multiple primary keys for table \"{t}\" are not allowed"));
                }
                for x in &mut self.table_mut(s, t)?.cols {
                    if cols.contains(&x.name) {
                        x.nn = true;
                    }
                }
                CKind::Pk(cols)
            }
            TConKind::Uq(cols) => {
                self.free(s, &name)?;
                dup(&cols)?;
                for n in &cols {
                    self.col(&tab, t, n)?;
                }
                CKind::Uq(cols)
            }
            TConKind::Ck(e) => {
                let e = expr(&e);
                self.check_expr_refs(&e, Some((&tab, t)))?;
                CKind::Ck(e)
            }
            TConKind::Fk { cols, target, tc, m, u, d } => {
                let (ts, tt) = self.q(&target);
                let other = self.table(&ts, &tt)?;
                for n in &cols {
                    self.col(&tab, t, n)?;
                }
                let tc = if tc.is_empty() {
                    match other.cons.values().find_map(|k| if let CKind::Pk(v) = &k.kind { Some(v.clone()) } else { None }) {
                        Some(v) => v,
                        None => return err("42704", format!("there is no primary key for referenced table \"{tt}\"")),
                    }
                } else {
                    tc
                };
                for n in &tc {
                    self.col(other, &tt, n)?;
                }
                if cols.len() != tc.len() {
                    return err("42830", "number of referencing and referenced columns for foreign key disagree");
                }
                let set: BTreeSet<&String> = tc.iter().collect();
                if set.len() != tc.len() {
                    return err("42830", "foreign key referenced-columns list must not contain duplicates");
                }
                // the oldest fitting key is the one relied on
                let mut fit: Vec<(u32, Name)> = vec![];
                let mut deferrable = false;
                for (kn, k) in &other.cons {
                    if let CKind::Pk(v) | CKind::Uq(v) = &k.kind {
                        if v.iter().collect::<BTreeSet<_>>() == set {
                            if k.deferrable {
                                deferrable = true;
                            } else {
                                fit.push((k.oid, kn.clone()));
                            }
                        }
                    }
                }
                for (rn, r) in &self.schema(&ts)?.rels {
                    if let CRel::Index(i) = r {
                        let plain = i.keys.iter().all(|k| k.cols.len() == 1 && lex(&k.text).map(|l| matches!(&l[0], Tok::Id(..)) && l.get(1) != Some(&Tok::P("("))).unwrap_or(false));
                        if i.table == tt && i.unique && plain && i.keys.len() == set.len() && i.keys.iter().map(|k| &k.cols[0]).collect::<BTreeSet<_>>() == set {
                            fit.push((i.oid, rn.clone()));
                        }
                    }
                }
                fit.sort();
                let Some((_, key)) = fit.first().cloned() else {
                    if deferrable {
                        return err("55000", format!("cannot use a deferrable unique constraint for referenced table \"{tt}\""));
                    }
                    return err("42830", format!("there is no unique constraint matching given keys for referenced table \"{tt}\""));
                };
                for (a, b) in cols.iter().zip(&tc) {
                    let (x, y) = (&self.col(&tab, t, a)?.ty, &self.col(other, &tt, b)?.ty);
                    if x != y && !(INTS.contains(&x.as_str()) && INTS.contains(&y.as_str())) {
                        return err("42804", format!("foreign key constraint \"{name}\" cannot be implemented: incompatible types {x} and {y}"));
                    }
                }
                CKind::Fk { cols, ts, tt, tc, m, u, d, key }
            }
        };
        let oid = self.oid();
        self.table_mut(s, t)?.cons.insert(name, CCon { oid, kind, deferrable: c.deferrable, deferred: c.deferred });
        Ok(())
    }

    fn alter(&mut self, s: &str, t: &str, a: Act) -> R<()> {
        let tab = self.table(s, t)?.clone();
        match a {
            Act::AddCol(mut c, ine) => {
                if ine && tab.cols.iter().any(|x| x.name == c.name) {
                    return Ok(());
                }
                let cons = std::mem::take(&mut c.cons);
                self.add_col(s, t, c)?;
                for (n, k) in cons {
                    self.add_con(s, t, n, k)?;
                }
                Ok(())
            }
            Act::AddCon(n, c) => self.add_con(s, t, n, c),
            Act::DropCol(c, ie, cascade) => {
                if !tab.cols.iter().any(|x| x.name == c) && ie {
                    return Ok(());
                }
                self.col(&tab, t, &c)?;
                self.drop_objs(vec![Obj::Col(s.into(), t.into(), c)], cascade)
            }
            Act::DropCon(c, ie, cascade) => {
                if !tab.cons.contains_key(&c) {
                    return if ie { Ok(()) } else { err("42704", format!("constraint \"{c}\" of relation \"{t}\" does not exist")) };
                }
                self.drop_objs(vec![Obj::Con(s.into(), t.into(), c)], cascade)
            }
            Act::SetType(c, ty, using) => {
                let col = self.col(&tab, t, &c)?;
                let used = self.schemas.values().flat_map(|x| x.rels.values()).any(|r| match r {
                    CRel::View(v) => v.deps.iter().any(|d| d.0 == s && d.1 == t && d.2.as_ref().map(|x| x.contains(&c)) == Some(true)),
                    _ => false,
                });
                if used {
                    return err("0A000", "cannot alter type of a column used by a view or rule");
                }
                let fam = |x: &str| -> u8 {
                    let b = x.split('(').next().unwrap();
                    match b {
                        "int2" | "int4" | "int8" | "numeric" | "float4" | "float8" => 1,
                        "text" | "varchar" | "char" | "character" | "bpchar" => 2,
                        "timestamp" | "timestamptz" | "date" => 3,
                        _ => 0,
                    }
                };
                let castable = col.ty == ty || fam(&ty) == 2 || (fam(&col.ty) == fam(&ty) && fam(&ty) != 0) || col.ty.split('(').next() == ty.split('(').next();
                if !castable && using.is_none() {
                    return err("42804", format!("column \"{c}\" cannot be cast automatically to type {ty}"));
                }
                if let Some(u) = &using {
                    let e = expr(u);
                    self.check_expr_refs(&e, Some((&tab, t)))?;
                    // values of something else
                    if !e.cols.contains(&c) {
                        if let Some(i) = tab.cols.iter().position(|x| x.name == c) {
                            for r in &mut self.table_mut(s, t)?.rows {
                                if let Some(v) = r.get_mut(i) {
                                    *v = None;
                                }
                            }
                        }
                    }
                }
                self.col_mut(s, t, &c)?.ty = ty;
                Ok(())
            }
            Act::SetDefault(c, e) => {
                self.col(&tab, t, &c)?;
                let e = expr(&e);
                self.check_expr_refs(&e, None)?;
                self.col_mut(s, t, &c)?.def = Some(e);
                Ok(())
            }
            Act::DropDefault(c) => {
                self.col_mut(s, t, &c)?.def = None;
                Ok(())
            }
            Act::SetNN(c, nn) => {
                self.col(&tab, t, &c)?;
                if !nn && tab.cons.values().any(|k| matches!(&k.kind, CKind::Pk(v) if v.contains(&c))) {
                    return err("42P16", format!("column \"{c}\" is in a primary key"));
                }
                let i = tab.cols.iter().position(|x| x.name == c);
                if nn && tab.rows.iter().any(|r| i.and_then(|i| r.get(i)).is_some_and(|v| v.is_none())) {
                    return err("23502", format!("column \"{c}\" of relation \"{t}\" contains null values"));
                }
                self.col_mut(s, t, &c)?.nn = nn;
                Ok(())
            }
            Act::AlterCon(c, a, b) => {
                let Some(k) = self.table_mut(s, t)?.cons.get_mut(&c) else {
                    return err("42704", format!("constraint \"{c}\" of relation \"{t}\" does not exist"));
                };
                if !matches!(k.kind, CKind::Fk { .. }) {
                    return err("42809", format!("constraint \"{c}\" of relation \"{t}\" is not a foreign key constraint"));
                }
                k.deferrable = a;
                k.deferred = b;
                Ok(())
            }
            Act::RenameCol(..) | Act::RenameTo(_) => err("0A000", "renaming is outside this model"),
        }
    }
    fn col_mut(&mut self, s: &str, t: &str, c: &str) -> R<&mut CCol> {
        let tab = self.table_mut(s, t)?;
        match tab.cols.iter_mut().find(|x| x.name == c) {
            Some(x) => Ok(x),
            None => err("42703", format!("column \"{c}\" of relation \"{t}\" does not exist")),
        }
    }

    /// The catalogue in the model's terms, in normal form.
    pub fn to_db(&self) -> Db {
        let mut d = Db::default();
        for (sn, s) in &self.schemas {
            let o = d.schemas.entry(sn.clone()).or_default();
            for (rn, r) in &s.rels {
                let x = match r {
                    CRel::Table(t) => {
                        let mut m = Table::default();
                        for c in &t.cols {
                            let def = match (&c.def, &c.serial) {
                                (Some(d), _) => Some(d.text.clone()),
                                (None, Some(q)) => Some(format!("nextval ( '{sn}.{q}' )")),
                                _ => None,
                            };
                            m.cols.push(Col { name: c.name.clone(), ty: c.ty.clone(), nn: c.nn, def });
                        }
                        for (cn, c) in &t.cons {
                            let kind = match &c.kind {
                                CKind::Pk(v) => ConKind::Pk { cols: v.clone() },
                                CKind::Uq(v) => ConKind::Uq { cols: v.clone() },
                                CKind::Ck(e) => ConKind::Ck { expr: e.text.clone() },
                                CKind::Fk { cols, ts, tt, tc, m, u, d, .. } => {
                                    ConKind::Fk { cols: cols.clone(), ts: ts.clone(), tt: tt.clone(), tc: tc.clone(), m: m.clone(), u: u.clone(), d: d.clone() }
                                }
                            };
                            m.cons.insert(cn.clone(), Con { kind, deferrable: c.deferrable, deferred: c.deferred });
                        }
                        Rel::Table(m)
                    }
                    CRel::View(v) => Rel::View(starred(v.q.clone(), &v.star)),
                    CRel::Index(i) => Rel::Index(Index {
                        table: i.table.clone(),
                        unique: i.unique,
                        method: i.method.clone(),
                        keys: i.keys.iter().map(|k| k.text.clone()).collect(),
                    }),
                    CRel::Seq(q) => Rel::Seq(q.s.clone()),
                };
                o.rels.insert(rn.clone(), x);
            }
            for ((n, _), f) in &s.fns {
                o.fns.insert(fn_key(n, &f.args), Func { body: f.body.clone(), lang: f.lang.clone(), ret: f.ret.clone(), vol: f.vol.clone() });
            }
        }
        d.canon()
    }
}

/// The text of a view with what its `*` stands for, which is what PostgreSQL keeps.
fn starred(q: String, star: &Option<Vec<Name>>) -> String {
    match star {
        Some(c) => {
            let mut c = c.clone();
            c.sort();
            format!("{q} /* {} */", c.join(", "))
        }
        None => q,
    }
}

/// The columns of a relation of a model.
fn cols_of(d: &Db, s: &str, n: &str, depth: u32) -> Option<Vec<Name>> {
    match d.schemas.get(s)?.rels.get(n)? {
        Rel::Table(t) => Some(t.cols.iter().map(|c| c.name.clone()).collect()),
        Rel::View(q) if depth < 9 => {
            let t = P::new(q).ok()?.t;
            let mut out = vec![];
            let end = t.iter().position(|x| *x == Tok::Id("from".into(), false)).unwrap_or(t.len());
            for (i, x) in t[..end].iter().enumerate() {
                let last = i + 1 == end || t[i + 1] == Tok::P(",");
                match x {
                    Tok::Id(n, _) if last => out.push(n.clone()),
                    Tok::P("*") if last => out.extend(star_of(d, &t, depth + 1)?),
                    _ if last => return None,
                    _ => {}
                }
            }
            Some(out)
        }
        _ => None,
    }
}

/// What the `*` of a view `SELECT * FROM s.t` stands for in a model.
fn star_of(d: &Db, t: &[Tok], depth: u32) -> Option<Vec<Name>> {
    let from = t.iter().position(|x| *x == Tok::Id("from".into(), false))?;
    let star = (1..from).any(|i| t[i] == Tok::P("*") && (i == 1 || t[i - 1] == Tok::P(",")) && (i + 1 == from || t[i + 1] == Tok::P(",")));
    match (star, &t[from + 1..]) {
        (true, [Tok::Id(s, _), Tok::P("."), Tok::Id(n, _)]) => cols_of(d, s, n, depth),
        _ => None,
    }
}

fn fn_key(n: &str, args: &[(String, String)]) -> String {
    format!("{}({})", n, args.iter().map(|a| format!("{} {}", a.0, a.1).trim().to_owned()).collect::<Vec<_>>().join(", "))
}

fn show(o: &Obj) -> String {
    match o {
        Obj::Schema(s) => format!("schema {s}"),
        Obj::Rel(s, n) => format!("{s}.{n}"),
        Obj::Con(s, t, c) => format!("constraint {c} on {s}.{t}"),
        Obj::Col(s, t, c) => format!("column {c} of {s}.{t}"),
        Obj::Default(s, t, c) => format!("default of column {c} of {s}.{t}"),
        Obj::Fn(s, k) => format!("function {s}.{}", k.0),
    }
}

/// podo's function name `f(n integer)` in normal form.
pub fn norm_fn_name(n: &str) -> R<String> {
    let Some(i) = n.find('(') else { return Ok(format!("{n}()")) };
    let mut p = P::new(&n[i..])?;
    let a = p.args()?;
    p.done()?;
    Ok(fn_key(n[..i].trim_end(), &a))
}

/// A schema of the model in the normal form of `to_db`.
pub fn norm(d: &Db) -> R<Db> {
    let e = |s: &str| norm_expr(s);
    let mut o = Db::default();
    for (sn, s) in &d.schemas {
        let os = o.schemas.entry(sn.clone()).or_default();
        for (rn, r) in &s.rels {
            let x = match r {
                Rel::Table(t) => {
                    let mut t = t.clone();
                    for c in &mut t.cols {
                        c.ty = norm_type_str(&c.ty)?;
                        if let Some(d) = &c.def {
                            c.def = Some(e(d)?);
                        }
                    }
                    for c in t.cons.values_mut() {
                        if let ConKind::Ck { expr } = &mut c.kind {
                            *expr = e(expr)?;
                        }
                        if let ConKind::Fk { m, u, d, .. } = &mut c.kind {
                            *m = m.to_uppercase();
                            *u = u.to_uppercase();
                            *d = d.to_uppercase();
                        }
                    }
                    Rel::Table(t)
                }
                Rel::View(q) => {
                    let t = P::new(q)?.t;
                    Rel::View(starred(join(&t), &star_of(d, &t, 0)))
                }
                Rel::Index(i) => {
                    let mut i = i.clone();
                    i.method = i.method.to_lowercase();
                    for k in &mut i.keys {
                        *k = norm_toks(trim_key(&lex(k)?));
                    }
                    Rel::Index(i)
                }
                Rel::Seq(q) => Rel::Seq(q.clone()),
            };
            os.rels.insert(rn.clone(), x);
        }
        for (n, f) in &s.fns {
            let mut f = f.clone();
            f.body = f.body.trim().into();
            f.lang = f.lang.to_lowercase();
            f.ret = norm_type_str(&f.ret)?;
            f.vol = f.vol.to_uppercase();
            os.fns.insert(norm_fn_name(n)?, f);
        }
    }
    Ok(o.canon())
}

/// Builds the catalogue of a schema the way PostgreSQL would, in an order that works.
pub fn build(d: &Db) -> R<Cat> {
    let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let qq = |s: &str, n: &str| format!("{}.{}", q(s), q(n));
    let ql = |v: &[Name]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
    let mut c = Cat { next: 1, ..Cat::default() };
    for s in d.schemas.keys() {
        c.exec(&format!("CREATE SCHEMA {}", q(s)))?;
    }
    // functions, sequences, tables and views in an order that works, which takes some rounds if they use each other
    let (mut fns, mut seqs, mut tables, mut views) = (vec![], vec![], vec![], vec![]);
    for (sn, s) in &d.schemas {
        for (n, f) in &s.fns {
            let (name, args) = match n.find('(') {
                Some(i) => (n[..i].trim_end(), &n[i..]),
                None => (n.as_str(), "()"),
            };
            fns.push(format!(
                "CREATE FUNCTION {}{} RETURNS {} LANGUAGE {} {} AS '{}'",
                qq(sn, name),
                args,
                f.ret,
                f.lang,
                f.vol,
                f.body.replace('\'', "''")
            ));
        }
        for (n, r) in &s.rels {
            match r {
                Rel::Seq(x) => seqs.push(format!(
                    "CREATE SEQUENCE {} AS {} INCREMENT {} MINVALUE {} MAXVALUE {} START {} CACHE {} {}",
                    qq(sn, n),
                    x.ty,
                    x.inc,
                    x.min,
                    x.max,
                    x.start,
                    x.cache,
                    if x.cycle { "CYCLE" } else { "NO CYCLE" }
                )),
                Rel::Table(t) => {
                    let cols: Vec<String> = t
                        .cols
                        .iter()
                        .map(|x| format!("{} {}{}{}", q(&x.name), x.ty, if x.nn { " NOT NULL" } else { "" }, x.def.as_ref().map(|d| format!(" DEFAULT {d}")).unwrap_or_default()))
                        .collect();
                    tables.push(format!("CREATE TABLE {} ({})", qq(sn, n), cols.join(", ")));
                }
                Rel::View(v) => views.push(format!("CREATE VIEW {} AS {}", qq(sn, n), v)),
                Rel::Index(_) => {}
            }
        }
    }
    let mut pending: Vec<String> = [seqs, fns, tables, views].concat();
    while !pending.is_empty() {
        let before = pending.len();
        let mut last = None;
        pending.retain(|v| match c.exec(v) {
            Ok(()) => false,
            Err(e) => {
                last = Some(e);
                true
            }
        });
        if pending.len() == before {
            return Err(last.unwrap());
        }
    }
    let mut late = vec![];
    for (sn, s) in &d.schemas {
        for (n, r) in &s.rels {
            match r {
                Rel::Table(t) => {
                    for (cn, k) in &t.cons {
                        let df = format!("{} {}", if k.deferrable { "DEFERRABLE" } else { "NOT DEFERRABLE" }, if k.deferred { "INITIALLY DEFERRED" } else { "INITIALLY IMMEDIATE" });
                        let head = format!("ALTER TABLE {} ADD CONSTRAINT {}", qq(sn, n), q(cn));
                        match &k.kind {
                            ConKind::Pk { cols } => c.exec(&format!("{head} PRIMARY KEY ({}) {df}", ql(cols)))?,
                            ConKind::Uq { cols } => c.exec(&format!("{head} UNIQUE ({}) {df}", ql(cols)))?,
                            ConKind::Ck { expr } => c.exec(&format!("{head} CHECK ({expr})"))?,
                            ConKind::Fk { cols, ts, tt, tc, m, u, d } => late.push(format!(
                                "{head} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {m} ON UPDATE {u} ON DELETE {d} {df}",
                                ql(cols),
                                qq(ts, tt),
                                ql(tc)
                            )),
                        }
                    }
                }
                Rel::Index(i) => late.insert(
                    0,
                    format!("CREATE {}INDEX {} ON {} USING {} ({})", if i.unique { "UNIQUE " } else { "" }, q(n), qq(sn, &i.table), i.method, i.keys.join(", ")),
                ),
                Rel::Seq(x) => {
                    if let Some((t, col)) = &x.owned {
                        late.push(format!("ALTER SEQUENCE {} OWNED BY {}.{}", qq(sn, n), qq(sn, t), q(col)));
                    }
                }
                _ => {}
            }
        }
    }
    for l in late {
        c.exec(&l)?;
    }
    Ok(c)
}
