//! Projects with histories made by the real program, and what a database holds, for the checks of commands.
use crate::cli::*;
use crate::engine::Pg;
use crate::json::{self, J};
use crate::model::*;
use crate::pg::{self, CRel, Cat};
use crate::report::Ctx;
use crate::sql::{self, V};
use crate::sut::Sut;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub const META: &str = "podo_meta";

/// A schema as a definitions document.
pub fn doc(d: &Db) -> J {
    let s = |x: &str| J::s(x);
    let l = |v: &[Name]| J::strs(v);
    let mut out = vec![];
    for (sn, sc) in &d.schemas {
        let mut o: Vec<(String, J)> = vec![];
        for (rn, r) in &sc.rels {
            match r {
                Rel::Table(t) => {
                    let mut b = vec![];
                    for c in &t.cols {
                        let mut x = c.ty.clone();
                        if c.nn {
                            x.push('!');
                        }
                        if let Some(d) = &c.def {
                            x += &format!(" = {d}");
                        }
                        b.push((format!("column {}", c.name), J::S(x)));
                    }
                    for (cn, c) in &t.cons {
                        let mut k: Vec<(String, J)> = vec![];
                        match &c.kind {
                            ConKind::Pk { cols } => k.push(("primary key".into(), l(cols))),
                            ConKind::Uq { cols } => k.push(("unique".into(), l(cols))),
                            ConKind::Ck { expr } => k.push(("check".into(), s(expr))),
                            ConKind::Fk { cols, ts, tt, tc, m, u, d } => {
                                k.push(("foreign key".into(), l(cols)));
                                k.push((format!("references {ts}.{tt}"), l(tc)));
                                k.push(("match".into(), s(m)));
                                k.push(("on update".into(), s(u)));
                                k.push(("on delete".into(), s(d)));
                            }
                        }
                        k.push(("deferrable".into(), J::B(c.deferrable)));
                        k.push(("initially deferred".into(), J::B(c.deferred)));
                        b.push((format!("constraint {cn}"), J::O(k)));
                    }
                    o.push((format!("table {rn}"), J::O(b)));
                }
                Rel::View(q) => o.push((format!("view {rn}"), J::obj(vec![("as", s(q))]))),
                Rel::Index(i) => o.push((
                    format!("index {rn}"),
                    J::O(vec![
                        (format!("on {}", i.table), l(&i.keys)),
                        ("unique".into(), J::B(i.unique)),
                        ("using".into(), s(&i.method)),
                    ]),
                )),
                Rel::Seq(q) => {
                    let mut b = vec![
                        ("as".to_string(), s(&q.ty)),
                        ("increment".into(), J::I(q.inc)),
                        ("minvalue".into(), J::I(q.min)),
                        ("maxvalue".into(), J::I(q.max)),
                        ("start".into(), J::I(q.start)),
                        ("cache".into(), J::I(q.cache)),
                        ("cycle".into(), J::B(q.cycle)),
                    ];
                    if let Some((t, c)) = &q.owned {
                        b.push((format!("owned by {t}"), s(c)));
                    }
                    o.push((format!("sequence {rn}"), J::O(b)));
                }
            }
        }
        for (n, f) in &sc.fns {
            o.push((
                format!("function {n}"),
                J::obj(vec![("as", s(&f.body)), ("language", s(&f.lang)), ("returns", s(&f.ret)), ("volatility", s(&f.vol))]),
            ));
        }
        out.push((format!("schema {sn}"), J::O(o)));
    }
    J::O(out)
}

pub fn doc_text(d: &Db) -> String {
    let j = doc(d);
    match crate::defs::want(std::slice::from_ref(&j)) {
        crate::defs::Want::Accept(x) if x.canon() == d.canon() => {}
        _ => panic!("the document for {} does not mean it", d.show()),
    }
    j.pretty()
}

/// A version as recorded in a file or a row.
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub name: String,
    pub previous: Option<String>,
    pub changes: J,
    pub up: Vec<String>,
    pub down: Vec<String>,
}

pub fn sorted(j: &J) -> J {
    match j {
        J::A(a) => J::A(a.iter().map(sorted).collect()),
        J::O(o) => {
            let mut v: Vec<(String, J)> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::O(v)
        }
        x => x.clone(),
    }
}

pub fn rec_of(j: &J) -> Result<Rec, String> {
    let f = |k: &str| j.get(k).ok_or(format!("no {k} in the version"));
    Ok(Rec {
        name: f("name")?.str().ok_or("name is no text")?.to_owned(),
        previous: match f("previous")? {
            J::Null => None,
            x => Some(x.str().ok_or("previous is no text")?.to_owned()),
        },
        changes: match f("changes")? {
            x @ J::A(_) => sorted(x),
            _ => return Err("changes is no list".into()),
        },
        up: f("up")?.str_list().ok_or("up is no list of texts")?,
        down: f("down")?.str_list().ok_or("down is no list of texts")?,
    })
}
pub fn rec_file(sut: &dyn Sut, text: &[u8]) -> Result<Rec, String> {
    rec_of(&sut.yaml(std::str::from_utf8(text).map_err(|_| "not UTF-8")?)?)
}
/// All versions of a history directory of a tree, by file name.
pub fn history(sut: &dyn Sut, t: &Tree, dir: &str) -> BTreeMap<String, Result<Rec, String>> {
    let pre = format!("{dir}/");
    t.iter()
        .filter_map(|(k, v)| k.strip_prefix(&pre).and_then(|k| k.strip_suffix(".yaml")).filter(|k| !k.contains('/')).map(|k| (k.to_owned(), rec_file(sut, v))))
        .collect()
}

/// What a database holds.
#[derive(Clone, Debug, PartialEq)]
pub struct DbState {
    /// without the metadata schema
    pub schema: Db,
    /// rows of the version table in the order applied; None if there is no metadata schema
    pub rows: Option<Vec<Rec>>,
    /// rows of other tables
    pub data: BTreeMap<String, Vec<Vec<Option<String>>>>,
}
impl DbState {
    pub fn names(&self) -> Vec<String> {
        self.rows.iter().flatten().map(|r| r.name.clone()).collect()
    }
    pub fn show(&self) -> String {
        format!("versions {}, schema {}", self.rows.as_ref().map_or("not initialised".into(), |_| format!("{:?}", self.names())), self.schema.facts().into_iter().collect::<Vec<_>>().join(", "))
    }
}

pub fn db_state(c: &Cat, meta: &str) -> Result<DbState, String> {
    let mut schema = c.to_db();
    schema.schemas.remove(meta);
    let mut data = BTreeMap::new();
    for (sn, s) in &c.schemas {
        for (rn, r) in &s.rels {
            if let CRel::Table(t) = r {
                if sn != meta && !t.rows.is_empty() {
                    let mut v = t.rows.clone();
                    v.sort();
                    data.insert(format!("{sn}.{rn}"), v);
                }
            }
        }
    }
    let rows = match c.schemas.get(meta) {
        None => None,
        Some(_) => {
            let t = c.table(meta, "version").map_err(|e| format!("the metadata schema has no version table: {}", e.msg))?;
            let mut v = vec![];
            for r in &t.rows {
                let cell = |n: &str| t.cols.iter().position(|c| c.name == n).map(|i| sql::load(&t.cols[i].ty, &r[i])).ok_or(format!("no column {n} in the version table"));
                let text = |n: &str| -> Result<Option<String>, String> {
                    match cell(n)? {
                        V::S(s) => Ok(Some(s)),
                        V::Null => Ok(None),
                        _ => Err(format!("column {n} is no text")),
                    }
                };
                let list = |n: &str| -> Result<Vec<String>, String> {
                    match cell(n)? {
                        V::A(a) => a.into_iter().map(|x| x.ok_or(format!("NULL in {n}"))).collect(),
                        _ => Err(format!("column {n} is no list")),
                    }
                };
                let V::I(ord) = cell("applied_order")? else { return Err("applied_order is no number".into()) };
                v.push((
                    ord,
                    Rec {
                        name: text("name")?.ok_or("name is NULL")?,
                        previous: text("previous")?,
                        changes: sorted(&json::parse(&text("changes")?.ok_or("changes is NULL")?)?),
                        up: list("up")?,
                        down: list("down")?,
                    },
                ));
            }
            v.sort_by_key(|x| x.0);
            Some(v.into_iter().map(|x| x.1).collect())
        }
    };
    Ok(DbState { schema, rows, data })
}

/// A history: definitions of each version, with label and clock.
pub struct Hist {
    pub name: &'static str,
    pub meta: String,
    pub steps: Vec<(String, i64, Db)>,
    /// definitions that are staged on top of the last version, and those that are not staged yet
    pub last: Db,
    pub unstaged: Db,
}

pub struct Built {
    pub name: String,
    pub meta: String,
    /// after k versions are made: the project's files; the next version is staged, and the one after it defined
    pub trees: Vec<Tree>,
    /// chain of each
    pub chains: Vec<Vec<String>>,
    /// what each version's file records
    pub recs: Vec<BTreeMap<String, Rec>>,
    /// schema at each position of the chain (that of `stage` last)
    pub dbs: Vec<Db>,
}
impl Built {
    pub fn tree(&self, h: usize, url: &str) -> Tree {
        let mut t = self.trees[h].clone();
        t.insert(".podo.yaml".into(), config(&[("database", url, "database/history", "database/definitions", &self.meta)]).into_bytes());
        t
    }
}

pub fn d2024(s: i64) -> i64 {
    1704067200 + s
}

pub fn hists() -> Vec<Hist> {
    let t = |c: Vec<Col>| Table::new(c);
    let p = "public";
    let v1 = Db::init()
        .table(p, "t", t(vec![Col::new("id", "int4").nn(), Col::new("n", "text").def("'x'")]).con("t_pk", Con::pk(&["id"])))
        .rel(p, "q", Rel::Seq(Seq::plain()));
    let v2 = Db::init()
        .table(p, "t", t(vec![Col::new("id", "int4").nn(), Col::new("n", "text"), Col::new("m", "int8").nn().def("7")]).con("t_pk", Con::pk(&["id"])))
        .rel(p, "q", Rel::Seq(Seq::plain()))
        .rel(p, "i", Rel::Index(Index::new("t", &["m"])))
        .rel(p, "v", Rel::View("SELECT id FROM public.t".into()));
    let v3 = Db::init()
        .table(p, "t", t(vec![Col::new("id", "int4").nn(), Col::new("n", "text"), Col::new("m", "int8").def("7")]).con("t_pk", Con::pk(&["id"])).con("ck", Con::ck("m > 0")))
        .table(p, "u", t(vec![Col::new("a", "int4"), Col::new("b", "int4")]).con("u_fk", Con::fk(&["a"], p, "t", &["id"]).rules("SIMPLE", "CASCADE", "SET NULL")))
        .rel(p, "q", Rel::Seq(Seq::new("int8", 2, None, None, None)))
        .rel(p, "v", Rel::View("SELECT id FROM public.t".into()))
        .func(p, "f(a int4)", Func { body: "SELECT 1".into(), lang: "SQL".into(), ret: "int4".into(), vol: "STABLE".into() });
    let v4 = Db::init()
        .schema("app")
        .table("app", "t", t(vec![Col::new("k", "text")]))
        .table(p, "u", t(vec![Col::new("a", "int8"), Col::new("b", "int4")]).con("uq", Con::uq(&["a", "b"])))
        .func(p, "f(a int4)", Func { body: "SELECT 2".into(), lang: "SQL".into(), ret: "int4".into(), vol: "STABLE".into() });
    let v5 = Db::init().table(p, "z", t(vec![Col::new("k", "text")]));
    let simple = |n: &str| Db::init().table(p, n, t(vec![Col::new("k", "text")]));
    let both = |a: &str, b: &str| simple(a).table(p, b, t(vec![Col::new("k", "text")]));
    vec![
        Hist {
            name: "growing",
            meta: META.into(),
            steps: vec![("a".into(), d2024(0), v1), ("b".into(), d2024(1), v2), ("c".into(), d2024(100), v3)],
            last: v4,
            unstaged: v5,
        },
        // names neither sort like the chain nor are plain
        Hist {
            name: "odd names",
            meta: "My \"meta\"; --".into(),
            steps: vec![
                ("it's".into(), d2024(300), simple("o'x")),
                ("a b é \"q\"".into(), d2024(200), both("o'x", "B \"b\"")),
                ("$1".into(), d2024(100), simple("B \"b\"")),
                ("stage".into(), d2024(400), both("B \"b\"", "select")),
            ],
            last: simple("select"),
            unstaged: simple("select"),
        },
    ]
}

/// Makes the history with the real program; the error says which command did what.
pub fn make(w: &World, sut: &dyn Sut, h: &Hist) -> Result<Built, String> {
    let dir = w.project();
    restore(&dir, &Tree::new());
    let go = |r: Run| -> Result<Done, String> {
        let d = w.run(&r);
        if d.ok() {
            Ok(d)
        } else {
            Err(format!("podo {}: {}", r.args.join(" "), d.show()))
        }
    };
    go(run(&["init"]))?;
    let mut b = Built { name: h.name.into(), meta: h.meta.clone(), trees: vec![], chains: vec![], recs: vec![], dbs: vec![Db::init()] };
    let mut names = vec!["init".to_string()];
    let n = h.steps.len();
    for k in 0..=n {
        let d = if k < n { &h.steps[k].2 } else { &h.last };
        b.dbs.push(d.clone());
        put(&dir, "database/definitions/public.yaml", &doc_text(d));
        go(run(&["stage"]))?;
        let staged = tree(&dir);
        let next = if k + 1 < n {
            &h.steps[k + 1].2
        } else if k < n {
            &h.last
        } else {
            &h.unstaged
        };
        let mut t = staged.clone();
        t.insert("database/definitions/public.yaml".into(), doc_text(next).into_bytes());
        let mut chain = names.clone();
        chain.push("stage".into());
        let mut recs = BTreeMap::new();
        for (f, r) in history(sut, &t, "database/history") {
            recs.insert(f.clone(), r.map_err(|e| format!("history file {f}: {e}"))?);
        }
        let want: BTreeSet<String> = chain.iter().cloned().collect();
        if recs.keys().cloned().collect::<BTreeSet<_>>() != want {
            return Err(format!("the history has {:?} instead of {:?}", recs.keys().collect::<Vec<_>>(), want));
        }
        b.chains.push(chain);
        b.recs.push(recs);
        b.trees.push(t);
        if k < n {
            let (label, clock, _) = &h.steps[k];
            let mut r = run(&["make", "--version", label]);
            r.clock = Some(*clock);
            go(r)?;
            let now = tree(&dir);
            let new: Vec<String> = now.keys().filter(|x| !staged.contains_key(*x)).cloned().collect();
            match &new[..] {
                [f] => names.push(f.trim_start_matches("database/history/").trim_end_matches(".yaml").to_owned()),
                x => return Err(format!("make creates {x:?}")),
            }
        }
    }
    Ok(b)
}

/// Worlds for the workers.
pub struct Pool<'a> {
    ctx: &'a Ctx,
    free: Mutex<Vec<World>>,
    n: Mutex<usize>,
    server: bool,
}
impl<'a> Pool<'a> {
    pub fn new(ctx: &'a Ctx, server: bool) -> Pool<'a> {
        Pool { ctx, free: Mutex::new(vec![]), n: Mutex::new(0), server }
    }
    pub fn with<T>(&self, f: impl FnOnce(&World) -> T) -> T {
        let w = self.free.lock().unwrap().pop();
        let w = w.unwrap_or_else(|| {
            let mut n = self.n.lock().unwrap();
            *n += 1;
            World::new(self.ctx, &format!("w{n}"), self.server)
        });
        let r = f(&w);
        self.free.lock().unwrap().push(w);
        r
    }
}

/// The normal form of a schema that should be in the database.
pub fn normal(d: &Db) -> Db {
    pg::norm(d).unwrap_or_else(|e| panic!("{}: {}", e.msg, d.show()))
}

pub fn empty_pg() -> Pg {
    Pg::new(Cat::new())
}

/// History files without what does not matter: temporary files of interrupted commands.
pub fn visible(t: &Tree) -> Tree {
    t.iter().filter(|(k, _)| !k.ends_with(".tmp")).map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// Builds all histories; a failure is reported.
pub fn build_all(ctx: &Ctx, sut: &dyn Sut, pool: &Pool) -> Option<Vec<Built>> {
    let mut out = vec![];
    for h in hists() {
        match pool.with(|w| make(w, sut, &h)) {
            Ok(b) => out.push(b),
            Err(e) => {
                ctx.fail(None, format!("cannot make the history {:?}: {e}", h.name), J::obj(vec![("history", J::s(h.name)), ("error", J::s(e))]), 1);
                return None;
            }
        }
    }
    Some(out)
}
