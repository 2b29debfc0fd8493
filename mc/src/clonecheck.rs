//! C18: `podo clone` against the system catalogue of a model server, for every schema of the universes.
use crate::cli::*;
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::{self, Cat};
use crate::pglex::{lex, norm_toks, Tok};
use crate::report::{par, Ctx};
use crate::srv::*;
use crate::sut::{Out, Sut};
use crate::universe::*;

const FILE: &str = "database/definitions/public.yaml";

/// An expression without the types that PostgreSQL adds to literals when it shows one.
fn plain(e: &str) -> String {
    let Ok(t) = lex(e) else { return e.to_owned() };
    let mut o: Vec<Tok> = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == Tok::P("::") && matches!(o.last(), Some(Tok::Str(_))) {
            i += 1;
            // a type: words, a size, an array
            while i < t.len() {
                match &t[i] {
                    Tok::Id(w, q) if matches!(t[i - 1], Tok::P("::" | ".")) || (!q && ["varying", "precision", "without", "with", "time", "zone"].contains(&w.as_str())) => i += 1,
                    Tok::P(".") => i += 1,
                    Tok::P("(") => {
                        while i < t.len() && t[i] != Tok::P(")") {
                            i += 1;
                        }
                        i += 1;
                    }
                    Tok::P("[") => i += 2,
                    _ => break,
                }
            }
            continue;
        }
        if let Tok::Str(s) = &t[i] {
            let call = i >= 2 && t[i - 1] == Tok::P("(") && matches!(&t[i - 2], Tok::Id(n, false) if n == "nextval");
            if call {
                let s = s.strip_prefix("public.").unwrap_or(s);
                o.push(Tok::Str(s.to_owned()));
                i += 1;
                continue;
            }
        }
        o.push(t[i].clone());
        i += 1;
    }
    norm_toks(&o)
}

/// A key of an index with its options as they are shown, expressions without outer parentheses.
fn index_key(k: &str, method: &str) -> String {
    let Ok(mut t) = lex(k) else { return k.to_owned() };
    let word = |t: &[Tok], w: &str| matches!(t.last(), Some(Tok::Id(x, false)) if x == w);
    let mut first = None;
    if t.len() >= 3 && (word(&t, "first") || word(&t, "last")) && word(&t[..t.len() - 1], "nulls") {
        first = Some(word(&t, "first"));
        t.truncate(t.len() - 2);
    }
    let mut desc = false;
    if t.len() > 1 && (word(&t, "desc") || word(&t, "asc")) {
        desc = word(&t, "desc");
        t.pop();
    }
    let o = match (desc, first.unwrap_or(desc)) {
        _ if method != "btree" => "",
        (true, true) => " desc",
        (true, false) => " desc nulls last",
        (false, true) => " nulls first",
        _ => "",
    };
    plain(&norm_toks(&t)) + o
}

/// One notation for everything, and only what belongs to the schema that is cloned.
pub fn form(d: &Db) -> Result<Db, String> {
    let mut d = pg::norm(d).map_err(|e| e.msg)?;
    d.schemas.retain(|n, _| n == "public");
    for s in d.schemas.values_mut() {
        for r in s.rels.values_mut() {
            match r {
                Rel::Table(t) => {
                    for c in &mut t.cols {
                        if let Some(x) = &c.def {
                            c.def = Some(plain(x));
                        }
                    }
                    for c in t.cons.values_mut() {
                        if let ConKind::Ck { expr } = &mut c.kind {
                            *expr = plain(expr);
                        }
                    }
                }
                Rel::View(q) => *q = plain(q.trim_end_matches(|c: char| c == ';' || c.is_whitespace())),
                Rel::Index(i) => {
                    for k in &mut i.keys {
                        *k = index_key(k, &i.method);
                    }
                }
                Rel::Seq(_) => {}
            }
        }
    }
    Ok(d)
}

fn order(d: &Db) -> Vec<(String, Vec<String>)> {
    d.schemas
        .get("public")
        .iter()
        .flat_map(|s| s.rels.iter())
        .filter_map(|(n, r)| match r {
            Rel::Table(t) => Some((n.clone(), t.cols.iter().map(|c| c.name.clone()).collect())),
            _ => None,
        })
        .collect()
}

/// Schemas with what the universes of the other checks do not have.
pub fn more() -> Vec<(&'static str, Vec<Db>)> {
    let p = "public";
    let c = |n: &str, t: &str| Col::new(n, t);
    let t = |c: Vec<Col>| Table::new(c);
    let mut types = vec![];
    for ty in [
        "int2", "int4", "int8", "bool", "text", "varchar", "varchar(10)", "char(3)", "char(1)", "bpchar", "numeric", "numeric(6)", "numeric(6,2)", "float4", "float8", "date", "time", "time(0)", "time(3)",
        "timetz", "timetz(3)", "timestamp", "timestamp(0)", "timestamp(3)", "timestamptz", "timestamptz(0)", "timestamptz(3)", "interval", "interval(3)", "bit(1)", "bit(4)", "varbit", "varbit(5)", "uuid",
        "json", "jsonb", "bytea", "inet", "money", "xml", "name", "point", "line", "lseg", "box", "path", "circle", "oid", "regclass", "tsvector", "\"char\"",
    ] {
        for arr in ["", "[]"] {
            types.push(Db::init().table(p, "t", t(vec![c("a", &format!("{ty}{arr}"))])));
        }
    }
    // types of users: enumerations, what extensions bring, domains; there is no object for them in definitions
    let mut user = vec![];
    for ty in ["mood", "\"Mood Type\"", "app.mood", "app.vector", "app.vector(3)", "geometry", "geometry(Point,4326)", "positive", "u"] {
        for arr in ["", "[]"] {
            let y = format!("{ty}{arr}");
            let d = Db::init().schema("app").table(p, "u", t(vec![c("x", "int4")]));
            user.push(d.clone().table(p, "t", t(vec![c("a", &y)])));
            user.push(d.clone().table(p, "t", t(vec![c("b", "int4"), c("a", &y).nn()])));
            if !ty.contains('(') {
                user.push(d.clone().table(p, "t", t(vec![c("a", &y).nn().def("'x'")])));
                user.push(d.clone().func(p, &format!("f(a {y})"), Func { ret: y.clone(), ..Func::new("SELECT $1") }));
            }
        }
    }
    let mut columns = vec![];
    for (d, ty) in [("'x'", "text"), ("'it''s'", "varchar(5)"), ("1", "int4"), ("-1", "int8"), ("(1 + 2)", "int4"), ("now()", "timestamptz"), ("true", "bool"), ("'{}'", "jsonb"), ("'a :: b'", "text"), ("''", "text")] {
        for nn in [false, true] {
            let mut x = c("a", ty).def(d);
            x.nn = nn;
            columns.push(Db::init().table(p, "t", t(vec![x.clone(), c("b", "int4")])));
            columns.push(Db::init().table(p, "t", t(vec![c("b", "int4"), x])));
        }
    }
    for names in perms(4) {
        let n = ["a", "b", "c", "d"];
        columns.push(Db::init().table(p, "t", t(names.iter().map(|i| c(n[*i], "int4")).collect())));
    }
    // keys over columns in every order, and what refers to them
    let mut keys = vec![];
    let cols = || vec![c("a", "int4").nn(), c("b", "int4").nn(), c("d", "int4").nn()];
    for o in perms(3) {
        let k: Vec<&str> = o.iter().map(|i| ["a", "b", "d"][*i]).collect();
        keys.push(Db::init().table(p, "t", t(cols()).con("k", Con::pk(&k))));
        keys.push(Db::init().table(p, "t", t(cols()).con("k", Con::uq(&k))));
        keys.push(Db::init().table(p, "t", t(cols()).con("k", Con::uq(&k[..2])).con("l", Con::uq(&k[1..]))));
        keys.push(Db::init().rel(p, "i", Rel::Index(Index::new("t", &k))).table(p, "t", t(cols())));
        for o2 in perms(3) {
            let r: Vec<&str> = o2.iter().map(|i| ["a", "b", "d"][*i]).collect();
            for key in [Con::pk(&["a", "b", "d"]), Con::uq(&["d", "b", "a"])] {
                keys.push(Db::init().table(p, "t", t(cols()).con("k", key)).table(p, "u", t(cols()).con("fk", Con::fk(&k, p, "t", &r))));
            }
        }
    }
    for (x, y) in [(false, false), (true, false), (true, true)] {
        for key in [Con::pk(&["a"]), Con::uq(&["a"])] {
            keys.push(Db::init().table(p, "t", t(cols()).con("k", key.clone())).table(p, "u", t(cols()).con("f1", Con::fk(&["a"], p, "t", &["a"]).defer(x, y)).con("f2", Con::fk(&["b"], p, "t", &["a"]).rules("FULL", "CASCADE", "SET NULL"))));
        }
    }
    // a target with two keys over the same columns, one a constraint, one an index
    for (k1, k2) in [(Con::pk(&["a"]), Con::uq(&["a"])), (Con::uq(&["a", "b"]), Con::uq(&["b", "a"]))] {
        let tc = k1.key_cols().unwrap().clone();
        let tc: Vec<&str> = tc.iter().map(|s| s.as_str()).collect();
        keys.push(Db::init().table(p, "t", t(cols()).con("k1", k1).con("k2", k2)).table(p, "u", t(cols()).con("fk", Con::fk(&tc, p, "t", &tc))));
    }
    // references within and across schemas, with the same names in both
    let app = |d: Db| {
        d.schema("app")
            .table("app", "t", t(vec![c("b", "text"), c("a", "int8").nn()]).con("k", Con::pk(&["a"])).con("ck", Con::ck("b <> ''")))
            .rel("app", "i", Rel::Index(Index::new("t", &["b"])))
            .rel("app", "q", Rel::Seq(Seq { owned: Some(("t".into(), "a".into())), ..Seq::new("int4", 2, None, None, None) }))
            .rel("app", "v", Rel::View("SELECT b FROM app.t".into()))
            .func("app", "f()", Func::new("SELECT 2"))
    };
    let mut across = vec![app(Db::init())];
    let same = Db::init()
        .table(p, "t", t(vec![c("a", "int4").nn(), c("b", "int4")]).con("k", Con::pk(&["a"])).con("ck", Con::ck("a > 0")))
        .rel(p, "i", Rel::Index(Index::new("t", &["a"])))
        .rel(p, "q", Rel::Seq(Seq { owned: Some(("t".into(), "b".into())), ..Seq::plain() }))
        .rel(p, "v", Rel::View("SELECT a FROM public.t".into()))
        .func(p, "f()", Func::new("SELECT 1"));
    across.push(same.clone());
    across.push(app(same.clone()));
    for (s, n) in [("app", "t"), (p, "t"), (p, "u")] {
        let ty = if s == "app" { "int8" } else { "int4" };
        let id = if n == "u" { "id" } else { "a" };
        let mut u = t(vec![c("id", "int4").nn(), c("r", ty)]);
        u = u.con("k2", Con::pk(&["id"])).con("fk", Con::fk(&["r"], s, n, &[id]));
        across.push(app(same.clone().table(p, "u", u.clone())));
        let mut d = app(same.clone().table(p, "u", t(vec![c("id", "int4").nn()]).con("k2", Con::pk(&["id"]))));
        d = d.table("app", "w", t(vec![c("r", ty)]).con("fk", Con::fk(&["r"], s, n, &[id])));
        across.push(d);
    }
    // indexes
    let mut indexes = vec![];
    let ks = ["a", "b", "a DESC", "b NULLS FIRST", "a DESC NULLS LAST", "(a + b)", "abs(a)", "(a + b) DESC", "\"B\"", "\"B\" DESC"];
    let it = || t(vec![c("a", "int4"), c("b", "int4"), c("B", "int4")]);
    for x in ks {
        for unique in [false, true] {
            let mut i = Index::new("t", &[x]);
            i.unique = unique;
            indexes.push(Db::init().table(p, "t", it()).rel(p, "i", Rel::Index(i.clone())));
            indexes.push(Db::init().table(p, "t", it().con("k", Con::uq(&["a"]))).rel(p, "i", Rel::Index(i)));
        }
        for y in ks {
            indexes.push(Db::init().table(p, "t", it()).rel(p, "i", Rel::Index(Index::new("t", &[x, y]))));
        }
    }
    for m in ["hash", "btree"] {
        let i = Index { method: m.into(), ..Index::new("t", &["b"]) };
        indexes.push(Db::init().table(p, "t", it()).rel(p, "i", Rel::Index(i.clone())).rel(p, "j", Rel::Index(Index::new("t", &["a", "b"]))));
    }
    // operator classes, per key
    let ct = || t(vec![c("a", "int4"), c("x", "text"), c("y", "varchar"), c("j", "jsonb")]);
    let os = ["a", "x", "x text_pattern_ops", "y varchar_pattern_ops", "y text_pattern_ops DESC", "x text_pattern_ops NULLS FIRST", "lower(x) text_pattern_ops", "a DESC"];
    for x in os {
        indexes.push(Db::init().table(p, "t", ct()).rel(p, "i", Rel::Index(Index::new("t", &[x]))));
        for y in os {
            indexes.push(Db::init().table(p, "t", ct()).rel(p, "i", Rel::Index(Index::new("t", &[x, y]))));
            indexes.push(Db::init().table(p, "t", ct()).rel(p, "i", Rel::Index(Index::new("t", &[x, y, "a"]))));
        }
    }
    for x in ["j", "j jsonb_path_ops"] {
        indexes.push(Db::init().table(p, "t", ct()).rel(p, "i", Rel::Index(Index { method: "gin".into(), ..Index::new("t", &[x]) })));
    }
    // names
    let mut named = vec![];
    for n in ["T", "a b", "it's", "q\"q", "select", "é", "a.b", "$1"] {
        let q = format!("\"{}\"", n.replace('"', "\"\""));
        named.push(
            Db::init()
                .table(p, n, t(vec![c(n, "int4").nn(), c("b", "int4")]).con("k", Con::pk(&[n])).con("ck", Con::ck(&format!("{q} > 0"))).con("fk", Con::fk(&["b"], p, n, &[n])))
                .rel(p, "i", Rel::Index(Index::new(n, &[&q])))
                .rel(p, "s", Rel::Seq(Seq { owned: Some((n.into(), n.into())), ..Seq::plain() })),
        );
        named.push(Db::init().table(p, "t", t(vec![c("a", "int4").nn(), c("b", "int4")]).con(n, Con::uq(&["b", "a"]))));
        named.push(Db::init().table(p, "t", t(vec![c("a", "int4").nn()])).rel(p, n, Rel::Index(Index::new("t", &["a"]))));
        named.push(Db::init().rel(p, n, Rel::Seq(Seq::plain())));
    }
    // functions
    let mut functions = vec![];
    for n in ["f()", "f(a integer)", "f(a integer, b text)", "f(integer)", "f(a integer DEFAULT 1)", "f(a character varying)", "f(a integer[])"] {
        functions.push(Db::init().func(p, n, Func::new("SELECT 1")));
        if n != "f()" {
            functions.push(Db::init().func(p, n, Func::new("SELECT 1")).func(p, "f()", Func::new("SELECT 2")));
        }
    }
    for r in ["void", "integer", "text", "setof integer", "integer[]", "timestamp with time zone", "trigger"] {
        for v in ["VOLATILE", "STABLE", "IMMUTABLE"] {
            for (b, l) in [("SELECT 1", "sql"), ("BEGIN\n  RETURN NULL;\nEND", "plpgsql"), ("SELECT 'it''s $$'", "sql")] {
                functions.push(Db::init().func(p, "f()", Func { body: b.into(), lang: l.into(), ret: r.into(), vol: v.into() }));
            }
        }
    }
    vec![("types", types), ("types of users", user), ("column details", columns), ("key orders", keys), ("several schemas", across), ("index keys", indexes), ("unusual names", named), ("function details", functions)]
}

/// How cloned definitions differ from the public schema of a catalogue.
pub fn differs(got: &Db, cat: &Cat) -> Option<String> {
    let (g, x) = match (form(got), form(&cat.to_db())) {
        (Ok(g), Ok(x)) => (g, x),
        (Err(e), _) => return Some(format!("the cloned definitions are no valid SQL: {e}")),
        (_, Err(e)) => panic!("{e}"),
    };
    if got.schemas.keys().any(|s| s != "public") {
        return Some(format!("the cloned definitions have schemas {:?}", got.schemas.keys().collect::<Vec<_>>()));
    }
    (g != x).then(|| format!("the cloned definitions are not the schema: {}", g.diff_text(&x)))
}

const KINDS: [&str; 3] = ["plain tables", "partitioned tables, columns with defaults generated", "with a foreign table, a materialized view, a composite type, an aggregate, a procedure, a C function and partial indexes, checks NO INHERIT and NOT VALID"];

/// Makes tables partitioned (1), or adds what definitions cannot express (2). `pure` is the catalogue to describe.
fn surround(pure: &mut Cat, c: &mut Cat, how: u8) {
    let p = "public".to_string();
    if how == 1 {
        // the expression of a generated column is no default
        for (rn, r) in &mut pure.schemas.get_mut(&p).unwrap().rels {
            if let pg::CRel::Table(t) = r {
                for x in &mut t.cols {
                    if x.serial.is_none() && x.def.as_ref().is_some_and(|d| d.seqs.is_empty()) {
                        x.def = None;
                        c.kinds.insert((p.clone(), format!("{rn}.{}", x.name)), "generated");
                    }
                }
            }
        }
    }
    if how == 1 {
        for (sn, s) in &c.schemas {
            for (rn, r) in &s.rels {
                if matches!(r, pg::CRel::Table(_)) {
                    c.kinds.insert((sn.clone(), rn.clone()), "p");
                }
            }
        }
    }
    if how == 2 {
        let mut n = 0;
        for (rn, r) in &c.schemas[&p].rels {
            if let pg::CRel::Table(t) = r {
                for (cn, k) in &t.cons {
                    if matches!(k.kind, pg::CKind::Ck(_)) {
                        n += 1;
                        c.kinds.insert((p.clone(), format!("{rn} {cn}")), if n % 2 == 1 { "NO INHERIT" } else { "NOT VALID" });
                    }
                }
            }
        }
        let tables: Vec<(String, String)> = c.schemas[&p].rels.iter().filter_map(|(n, r)| if let pg::CRel::Table(t) = r { t.cols.first().map(|x| (n.clone(), x.name.clone())) } else { None }).collect();
        for (i, (n, x)) in tables.iter().enumerate() {
            let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
            let name = format!("{} partial {i}", ["a", "zz"][i % 2]);
            if c.exec(&format!("CREATE UNIQUE INDEX {} ON public.{} USING btree ({})", q(&name), q(n), q(x))).is_ok() {
                c.kinds.insert((p.clone(), format!("{name} where")), "partial");
            }
        }
        for x in [
            "CREATE TABLE public.\"a foreign\" (a int4 NOT NULL DEFAULT 1, b text)",
            "ALTER TABLE public.\"a foreign\" ADD CONSTRAINT \"a foreign c\" CHECK (a > 0)",
            "CREATE TABLE public.\"zz materialized\" (a int4, b text)",
            "CREATE INDEX \"a materialized i\" ON public.\"zz materialized\" USING btree (a)",
            "CREATE UNIQUE INDEX \"zz materialized i\" ON public.\"zz materialized\" USING btree (b)",
            "CREATE TABLE public.\"zz composite\" (a int4, b text)",
            "CREATE FUNCTION public.\"a aggregate\"(a int4) RETURNS int4 LANGUAGE internal AS 'aggregate_dummy'",
            "CREATE FUNCTION public.\"a c\"(a int4) RETURNS int4 LANGUAGE c AS 'symbol'",
            "CREATE FUNCTION public.\"zz procedure\"(a int4) RETURNS void LANGUAGE sql AS 'SELECT 1'",
        ] {
            c.exec(x).unwrap_or_else(|e| panic!("{x}: {e:?}"));
        }
        for (n, k) in [("a foreign", "f"), ("zz materialized", "m"), ("zz composite", "c"), ("a aggregate()", "a"), ("zz procedure()", "p")] {
            c.kinds.insert((p.clone(), n.into()), k);
        }
    }
}

struct Seen {
    bad: String,
    file: String,
}

/// Clones one catalogue; None if all is well, Some(Err) if the model server cannot judge.
fn clone_one(sut: &dyn Sut, w: &World, d: &Db, pure: &Cat, cat: &Cat, base: &Tree, n: &mut u64) -> Option<Result<Seen, String>> {
    let dir = w.project();
    restore(&dir, base);
    let url = w.srv().url();
    put(&dir, ".podo.yaml", &config(&[("database", &url, "database/history", "database/definitions", META)]));
    let before = tree(&dir);
    w.srv().reset(Pg::new(cat.clone()));
    let done = w.run(&run(&["clone"]));
    let log = w.srv().log();
    *n += log.len() as u64;
    let after = tree(&dir);
    let file = after.get(FILE).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
    let seen = |bad: String| Some(Ok(Seen { bad, file: file.clone() }));
    // the model server does not know everything PostgreSQL does: such answers are no verdict
    for e in &log {
        let r = &e.reply;
        for code in ["C42601", "C42883", "C42703", "C0A000"] {
            if r.windows(code.len()).any(|x| x == code.as_bytes()) {
                return Some(Err(format!("the model server answers {} to {}", &code[1..], crate::wire::show(&e.unit))));
            }
        }
    }
    if done.crashed() || !done.ok() {
        return seen(format!("podo clone fails: {}", done.show()));
    }
    match w.srv().settled() {
        Some(pg) if pg.base == *cat => {}
        Some(_) => return seen("podo clone changes the database".into()),
        None => return seen("the connection stays open after podo ended".into()),
    }
    let mut other = tree_diff(&before, &after);
    other.retain(|x| !x.contains(FILE));
    if !other.is_empty() {
        return seen(format!("podo clone changes other files: {}", other.join(", ")));
    }
    let got = match sut.load_defs(&w.path("database/definitions")) {
        Out::Ok(d) => d,
        o => return seen(format!("the cloned definitions cannot be loaded: {}", o.show())),
    };
    if let Some(e) = differs(&got, pure) {
        return seen(e);
    }
    if order(&got) != order(d) {
        return seen(format!("the cloned columns are in the order {:?} instead of {:?}", order(&got), order(d)));
    }
    None
}

pub fn run_c18(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    let mut jobs: Vec<(&'static str, Db)> = vec![];
    for sl in slices() {
        jobs.extend(sl.states(&wf_strict).into_iter().map(|s| (sl.name, s.db)));
    }
    for (n, v) in more() {
        jobs.extend(v.into_iter().map(|d| (n, d)));
    }
    jobs.retain(|j| j.1.schemas.contains_key("public"));
    let layouts: &[(u8, u8, u8)] =
        if ctx.thorough { &[(0, 0, 0), (0, 1, 1), (1, 0, 2), (1, 1, 0), (1, 2, 1), (2, 0, 0), (2, 2, 2), (3, 1, 1), (5, 2, 2)] } else { &[(0, 0, 0), (1, 1, 1), (2, 2, 2)] };
    let mut per = std::collections::BTreeMap::new();
    for j in &jobs {
        *per.entry(j.0).or_insert(0u64) += 1;
    }
    for (k, n) in per {
        ctx.bound(k, J::s(format!("{n} schemas, {} physical layouts of the catalogue each", layouts.len())));
    }
    let mut bases = vec![Tree::new()];
    let mut old = Tree::new();
    old.insert(FILE.into(), b"schema public:\n  table gone:\n    column x: int4\n".to_vec());
    old.insert("database/history/init.yaml".into(), b"name: init\nprevious: null\nchanges: []\nup: []\ndown: []\n".to_vec());
    bases.push(old);
    for b in &mut bases {
        // the directories exist
        for d in ["database/", "database/definitions/", "database/history/"] {
            b.entry(d.into()).or_default();
        }
    }
    let unjudged = std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    par(ctx, &jobs, |i, (name, d)| {
        if ctx.too_many() {
            return;
        }
        let cat = match pg::build(d) {
            Ok(c) => c,
            Err(e) => panic!("the model cannot hold {}: {e:?}", d.show()),
        };
        for (k, l) in layouts.iter().enumerate() {
            let mut served = cat.clone();
            served.phys = (l.0, l.1);
            let mut pure = cat.clone();
            surround(&mut pure, &mut served, l.2);
            let mut n = 0;
            let r = pool.with(|w| {
                clone_one(sut, w, d, &pure, &served, &bases[(i + k) % bases.len()], &mut n)
            });
            ctx.count("transitions", n);
            ctx.count("traces_validated_against_impl", 1);
            let case = |s: Option<&Seen>| {
                let mut v = vec![
                    ("universe", J::s(*name)),
                    ("database", J::A(d.facts().into_iter().map(J::S).collect())),
                    ("columns in order", J::s(format!("{:?}", order(d)))),
                    ("layout of the catalogue", J::s(format!("row order {}, dropped columns {}, {}", l.0, l.1, KINDS[l.2 as usize]))),
                    ("command", J::s("podo clone")),
                ];
                if let Some(s) = s {
                    v.push(("result", J::s(s.bad.as_str())));
                    v.push(("definitions", J::s(s.file.as_str())));
                }
                J::obj(v)
            };
            match r {
                None => {
                    if d.size() > 4 && i % 97 == 0 && k == 0 {
                        ctx.sample(case(None));
                    }
                }
                Some(Err(e)) => *unjudged.lock().unwrap().entry(e).or_default() += 1,
                Some(Ok(s)) => ctx.fail(None, s.bad.clone(), case(Some(&s)), d.size() + k),
            }
        }
        ctx.count("states", 1);
    });
    for (e, n) in unjudged.into_inner().unwrap() {
        ctx.count("not_judged", n);
        ctx.note(format!("{n} executions not judged: {e}"));
    }
}
