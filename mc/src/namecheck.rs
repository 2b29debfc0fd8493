//! C16: every difficult name in every position, through every kind of change, executed on the catalogue model
//! next to objects with similar names; and as the name of the metadata schema through the program.
use crate::cli::*;
use crate::defs::{strings, words_list};
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::{build, norm, Cat};
use crate::report::{par, Ctx};
use crate::sqlcheck::judge_sql;
use crate::sut::{Out, Sut};
use std::collections::BTreeSet;

const POS: [&str; 14] =
    ["schema", "table", "column", "second column", "primary key", "unique", "check", "foreign key", "referencing table", "index", "view", "sequence", "function", "referencing column"];

fn plain() -> Vec<String> {
    ["zs", "zt", "zc", "zd", "zpk", "zuq", "zck", "zfk", "zu", "zi", "zv", "zq", "zf", "zr"].iter().map(|s| s.to_string()).collect()
}

fn q(x: &str) -> String {
    format!("\"{}\"", x.replace('"', "\"\""))
}

/// Names that something else than `x` might be taken for.
fn similar(x: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![
        x.to_lowercase(),
        x.replace('"', ""),
        x.replace('"', "\"\""),
        x.trim().to_string(),
        x.split(|c: char| !(c.is_alphanumeric() || c == '_')).find(|p| !p.is_empty()).unwrap_or("").to_string(),
        x.split('.').next().unwrap_or("").to_string(),
        x.rsplit('.').next().unwrap_or("").to_string(),
        x.replace('\'', "''"),
        x.replace('\\', "\\\\"),
        x.replace(' ', ""),
        format!("{}{}", x, x),
    ];
    v.retain(|s| !s.is_empty() && s != x && s.len() <= 60);
    let mut seen = BTreeSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}

/// 0: nothing of it; 1: everything; 2: everything altered; 3: only the bare tables.
fn state(n: &[String], k: usize, p: usize) -> Db {
    let mut d = Db::init();
    // what must not be touched
    for (i, y) in similar(&n[p]).into_iter().take(3).enumerate() {
        let t = || Table::new(vec![Col::new("k", "int4").nn().def("1")]).con(&format!("dk{i}"), Con::uq(&["k"]));
        match p {
            0 => {
                if d.schemas.contains_key(&y) {
                    continue;
                }
                d = d.schema(&y).table(&y, &n[1], Table::new(vec![Col::new(&n[2], "text"), Col::new(&n[3], "text")]).con(&n[4], Con::uq(&[&n[2]])))
            }
            _ => {
                if !d.schemas.contains_key(&n[0]) {
                    d = d.schema(&n[0]);
                }
                if n[1..].contains(&y) || ["p2", "u2"].contains(&y.as_str()) {
                    continue;
                }
                d = match p {
                    12 => d.func(&n[0], &format!("{y}(a int4)"), Func { ret: "int4".into(), ..Func::new("SELECT 9") }),
                    11 => d.rel(&n[0], &y, Rel::Seq(Seq::plain())),
                    9 => d.table(&n[0], &format!("{y}w"), t()).rel(&n[0], &y, Rel::Index(Index::new(&format!("{y}w"), &["k"]))),
                    _ => d.table(&n[0], &y, t()),
                };
            }
        }
    }
    if k == 0 {
        return d;
    }
    // similar columns and constraints in the tables themselves
    let extra = |mut t: Table, col: &str| -> Table {
        for y in similar(&n[p]).into_iter().take(2) {
            if matches!(p, 2 | 3 | 13) && t.col(&y).is_none() && !n.contains(&y) {
                t.cols.push(Col::new(&y, "int4").nn().def("5"));
            }
            if matches!(p, 4..=7) && !n.contains(&y) {
                t.cons.insert(y.clone(), Con::ck(&format!("{} IS NOT NULL", q(col))));
            }
        }
        t
    };
    let s = &n[0];
    if !d.schemas.contains_key(s) {
        d = d.schema(s);
    }
    let two = k == 2;
    let ty = if two { "int8" } else { "int4" };
    let mut c = Col::new(&n[2], ty).nn();
    let mut e = Col::new(&n[3], "text").def(if two { "'y'" } else { "'x'" });
    e.nn = two;
    if two {
        c.def = Some("3".into());
    }
    let mut t = extra(Table::new(vec![c, e]), &n[2]);
    let mut u = extra(Table::new(vec![Col::new(&n[13], ty)]), &n[13]);
    if k == 3 {
        t.cols.truncate(1);
        u.cols.retain(|c| c.name == n[13]);
        return d.table(s, &n[1], t).table(s, &n[8], u);
    }
    t = t
        .con(&n[4], Con::pk(&[&n[2]]))
        .con(&n[5], Con::uq(&if two { vec![n[3].as_str(), &n[2]] } else { vec![n[2].as_str(), &n[3]] }))
        .con(&n[6], Con::ck(&if two { format!("{} < 7 OR {} = 'b'", q(&n[2]), q(&n[3])) } else { format!("{} > 0", q(&n[2])) }));
    u = u.con(&n[7], if two { Con::fk(&[&n[13]], s, &n[1], &[&n[2]]).rules("FULL", "CASCADE", "SET NULL").defer(true, true) } else { Con::fk(&[&n[13]], s, &n[1], &[&n[2]]) });
    d.table(s, &n[1], t)
        .table(s, &n[8], u)
        .rel(s, &n[9], Rel::Index(Index { unique: two, ..Index::new(&n[1], &if two { vec![q(&n[3])] } else { vec![q(&n[2]), q(&n[3])] }.iter().map(|x| x.as_str()).collect::<Vec<_>>()) }))
        .rel(s, &n[10], Rel::View(if two { format!("SELECT {} FROM {}.{}", q(&n[13]), q(s), q(&n[8])) } else { format!("SELECT {} FROM {}.{}", q(&n[2]), q(s), q(&n[1])) }))
        .rel(s, &n[11], Rel::Seq(Seq { owned: Some(if two { (n[8].clone(), n[13].clone()) } else { (n[1].clone(), n[2].clone()) }), ..Seq::new("int4", if two { 3 } else { 1 }, None, None, None) }))
        .func(s, &format!("{}(a int4)", n[12]), Func { body: if two { "SELECT 2".into() } else { "SELECT 1".into() }, lang: "SQL".into(), ret: "int4".into(), vol: "STABLE".into() })
}

fn case(ctx: &Ctx, sut: &dyn Sut, n: &[String], p: usize, what: &str, x: &str) {
    let mut dbs = vec![];
    for k in 0..4 {
        let d = state(n, k, p);
        match build(&d).and_then(|c| Ok((c, norm(&d)?))) {
            Ok((c, nd)) => dbs.push((d, c, nd)),
            Err(e) => {
                // names that collide with those of the other objects
                ctx.count("names_that_collide", 1);
                if n.iter().filter(|y| *y == x).count() < 2 && x.len() < 3 {
                    ctx.note(format!("left out: {what} {x:?}: {}", e.msg));
                }
                return;
            }
        }
    }
    let mut steps = 0;
    for (i, (s, cs, ns)) in dbs.iter().enumerate() {
        for (j, (t, _, nt)) in dbs.iter().enumerate() {
            if i == j {
                continue;
            }
            ctx.count("migrations", 1);
            match sut.run(s, &[], t, &[]) {
                Out::Ok(r) => {
                    if let Some(e) = judge_sql(cs, ns, nt, &r, &mut steps) {
                        let kf = crate::sqlcheck::known(s, t, &e);
                        ctx.fail(
                            kf,
                            format!("{what} {x:?}: {e}"),
                            J::obj(vec![
                                ("position", J::s(what)),
                                ("name", J::s(x)),
                                ("from", J::A(s.facts().into_iter().map(J::S).collect())),
                                ("to", J::A(t.facts().into_iter().map(J::S).collect())),
                                ("up", J::strs(&r.steps.iter().map(|s| s.up.clone()).collect::<Vec<_>>())),
                            ]),
                            x.len(),
                        );
                    }
                }
                // a schema with tables cannot be dropped in one go by whatever route: C01's business
                o => ctx.note(format!("not migrated: {}", o.show()).chars().take(80).collect()),
            }
        }
    }
    ctx.count("transitions", steps);
}

pub fn run_c16(ctx: &Ctx, sut: &dyn Sut) {
    let alpha: Vec<char> = "\"';-.A $\\(é%/*".chars().collect();
    let mut names: BTreeSet<String> = words_list().into_iter().collect();
    names.extend(strings(&alpha, if ctx.thorough { 3 } else { 2 }));
    names.extend(strings(&"\".a A".chars().collect::<Vec<_>>(), if ctx.thorough { 5 } else { 4 }));
    names.extend(["\"; DROP SCHEMA public; --", "a\"b\"", "\"\"", "user", "select", "Table", "order", "a;b", "x\"; --", "/*", "*/", "a/*b*/", "a--b", "zt", "ZT", "zs.zt", "zs\".\"zt", "pg_x", "$$", "U&\"a\"", "E'a'"].iter().map(|s| s.to_string()));
    // what a name can be in PostgreSQL
    names.retain(|x| !x.is_empty() && x.len() <= 60 && !x.contains('\0'));
    let list: Vec<String> = names.into_iter().collect();
    let mut jobs: Vec<(usize, usize)> = vec![];
    for p in 0..POS.len() {
        for i in 0..list.len() {
            let x = &list[i];
            if (p == 12 && x.contains('(')) || (p == 0 && (x == "public" || x.starts_with("pg_"))) {
                continue;
            }
            jobs.push((p, i));
        }
    }
    ctx.count("states", jobs.len() as u64 * 4);
    par(ctx, &jobs, |_, (p, i)| {
        let mut n = plain();
        n[*p] = list[*i].clone();
        case(ctx, sut, &n, *p, POS[*p], &list[*i]);
    });
    // two difficult names at once
    let few: Vec<String> = ["A\"b", "a b", "x.y", "é'", "a;--", "select", "\"", "(", "a\"\"b", "\\"].iter().map(|s| s.to_string()).collect();
    let mut pairs = vec![];
    for p in 0..POS.len() {
        for r in 0..POS.len() {
            if p == r {
                continue;
            }
            for i in 0..few.len() {
                for j in 0..few.len() {
                    if (p == 12 && few[i].contains('(')) || (r == 12 && few[j].contains('(')) {
                        continue;
                    }
                    if i == j && !ctx.thorough && (p + r) % 3 != 0 {
                        continue;
                    }
                    pairs.push((p, i, r, j));
                }
            }
        }
    }
    ctx.count("states", pairs.len() as u64 * 4);
    par(ctx, &pairs, |_, (p, i, r, j)| {
        let mut n = plain();
        n[*p] = few[*i].clone();
        n[*r] = few[*j].clone();
        case(ctx, sut, &n, *p, &format!("{} and {}", POS[*p], POS[*r]), &format!("{} and {}", few[*i], few[*j]));
    });
    meta(ctx, sut, &list);
    for x in ["A\"b.c", "it's", "\"; DROP SCHEMA public; --"] {
        let mut n = plain();
        n[1] = x.into();
        if let Out::Ok(r) = sut.run(&state(&n, 1, 1), &[], &state(&n, 2, 1), &[]) {
            ctx.sample(J::obj(vec![("table", J::s(x)), ("up", J::strs(&r.steps.iter().map(|s| s.up.clone()).collect::<Vec<_>>()))]));
        }
    }
    let v = ctx.get("migrations") + ctx.get("executions");
    assert!(ctx.violations() > 0 || ctx.get("migrations") > 50_000, "the model refuses the states themselves");
    ctx.count("traces_validated_against_impl", v);
    ctx.bound("names", J::I(list.len() as i64));
    ctx.bound("positions", J::strs(&POS));
    ctx.bound("migrations", J::s("all between: nothing, every kind of object, all of them altered, bare tables; next to up to three objects with similar names; forwards and back"));
    ctx.bound("metadata schema", J::s("every name, through up, status, down and up of the program, next to schemas with similar names"));
    ctx.assume("names are 1 to 60 bytes without NUL; function names contain no parenthesis, and schemas do not begin with pg_ (PostgreSQL reserves those)");
    ctx.assume("PostgreSQL is a model of its lexer, grammar and catalogue (no server is available)");
}

fn meta(ctx: &Ctx, sut: &dyn Sut, list: &[String]) {
    let pool = Pool::new(ctx, true);
    let dir = base_dir().join("mk");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let t = Db::init().table("public", "t", Table::new(vec![Col::new("k", "int4")]));
    let mut files = vec![];
    for (n, p, a, b) in [("init", None, Db::default(), Db::init()), ("a", Some("init"), Db::init(), t.clone()), ("stage", Some("a"), t.clone(), t.clone())] {
        sut.version_file(&dir, n, p, &a, &b);
        files.push((format!("h/{n}.yaml"), std::fs::read(dir.join(format!("{n}.yaml"))).unwrap_or_default()));
    }
    let list: Vec<&String> = list.iter().filter(|x| *x != "public" && !x.starts_with("pg_")).collect();
    par(ctx, &list, |_, x| {
        pool.with(|w| {
            let mut tr = Tree::new();
            tr.insert("h/".into(), vec![]);
            tr.insert("d/".into(), vec![]);
            for (f, b) in &files {
                tr.insert(f.clone(), b.clone());
            }
            tr.insert("d/public.yaml".into(), doc_text(&t).into_bytes());
            // as JSON text, which is YAML: any name can be written
            let mut name = String::new();
            crate::json::quote(x, &mut name);
            let url = w.srv().url();
            tr.insert(".podo.yaml".into(), format!("profiles:\n  database:\n    database_url: {url:?}\n    history: h\n    definitions: d\n    metadata_schema: {name}\n").into_bytes());
            restore(&w.project(), &tr);
            let mut cat = Cat::new();
            let mut others = vec![];
            for y in similar(x).into_iter().take(3) {
                if cat.exec(&format!("CREATE SCHEMA {}", q(&y))).is_ok() {
                    cat.exec(&format!("CREATE TABLE {}.version (name varchar(128), previous varchar(128), changes json, up text[], down text[], applied_at timestamp, applied_order int4)", q(&y))).expect("model");
                    others.push(y);
                }
            }
            if !cat.exec(&format!("CREATE SCHEMA {}", q(x))).is_ok() {
                ctx.count("names_that_collide", 1);
                return;
            }
            cat.exec(&format!("DROP SCHEMA {}", q(x))).expect("model");
            let first = cat.clone();
            w.srv().reset(Pg::new(cat));
            let mut go = |args: &[&str]| {
                let d = w.run(&run(args));
                ctx.count("executions", 1);
                (d, w.srv().settled())
            };
            let bad = |e: String| ctx.fail(None, format!("metadata schema {x:?}: {e}"), J::obj(vec![("metadata schema", J::s(x.as_str())), ("other schemas", J::strs(&others))]), 20 + x.len());
            let rows = |pg: &Option<Pg>| -> Result<Vec<String>, String> {
                let pg = pg.as_ref().ok_or("the connection stays open")?;
                let st = db_state(&pg.base, x)?;
                // nothing but the metadata schema and the table may differ from before
                let c = &pg.base;
                for y in &others {
                    let (Some(a), Some(b)) = (first.schemas.get(y), c.schemas.get(y)) else { return Err(format!("schema {y:?} is gone")) };
                    if a != b {
                        return Err(format!("schema {y:?} is changed"));
                    }
                }
                let names: BTreeSet<&String> = c.schemas.keys().filter(|k| !first.schemas.contains_key(*k)).collect();
                if names.len() > 1 || names.iter().any(|k| *k != *x) {
                    return Err(format!("schemas {names:?} were created"));
                }
                Ok(st.names())
            };
            let (d, pg) = go(&["up"]);
            match rows(&pg) {
                Ok(r) if d.ok() && r == ["init", "a"] => {}
                Ok(r) => return bad(format!("podo up: {}, recorded are {r:?}", d.show())),
                Err(e) => return bad(format!("podo up: {e}; {}", d.show())),
            }
            let (d, pg) = go(&["status"]);
            if !d.ok() || !d.out.lines().next().unwrap_or("").trim_end().ends_with(" a") {
                bad(format!("podo status does not tell the version: {}", d.show()));
            }
            if let Err(e) = rows(&pg) {
                bad(format!("podo status: {e}"));
            }
            let (d, pg) = go(&["down"]);
            match rows(&pg) {
                Ok(r) if d.ok() && r == ["init"] => {}
                Ok(r) => return bad(format!("podo down: {}, recorded are {r:?}", d.show())),
                Err(e) => return bad(format!("podo down: {e}; {}", d.show())),
            }
            let (d, pg) = go(&["up"]);
            match rows(&pg) {
                Ok(r) if d.ok() && r == ["init", "a"] => {}
                Ok(r) => bad(format!("podo up again: {}, recorded are {r:?}", d.show())),
                Err(e) => bad(format!("podo up again: {e}; {}", d.show())),
            }
        });
    });
}
