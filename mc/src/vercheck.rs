//! C06: versions through their file and through the database, with every kind of change and difficult texts.
use crate::cli::*;
use crate::defs::{slot_db, strings, words_list};
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::Cat;
use crate::pglex;
use crate::report::{par, Ctx};
use crate::srv::Entry;
use crate::sut::{Out, Sut, Ver};
use crate::universe::*;
use crate::wire::Msg;
use std::collections::{BTreeMap, BTreeSet};

fn same_text(a: &[String], b: &[String]) -> bool {
    let chars = |s: &String| {
        let mut v: Vec<char> = s.chars().collect();
        v.sort();
        v
    };
    // maps may be printed in another order
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || chars(x) == chars(y))
}

fn ver_diff(a: &Ver, b: &Ver) -> Option<String> {
    if a.name != b.name {
        return Some(format!("name {:?} is read back as {:?}", a.name, b.name));
    }
    if a.previous != b.previous {
        return Some(format!("previous {:?} is read back as {:?}", a.previous, b.previous));
    }
    if a.up != b.up {
        return Some(format!("up {:?} is read back as {:?}", a.up, b.up));
    }
    if a.down != b.down {
        return Some(format!("down {:?} is read back as {:?}", a.down, b.down));
    }
    if a.changes != b.changes || !same_text(&a.debug, &b.debug) {
        return Some(format!("changes {:?} are read back as {:?}", a.debug, b.debug));
    }
    None
}

/// One migration's version through file and JSON; None if there is no such version.
fn through(sut: &dyn Sut, dir: &std::path::Path, name: &str, prev: Option<&str>, s: &Db, t: &Db) -> Result<Option<Ver>, String> {
    let v = match sut.version_file(dir, name, prev, s, t) {
        // what cannot be staged is C01's business
        Out::Err(e) if e.contains("SnapshotError") || e.contains("NotFound") || e.contains("Exist") => return Ok(None),
        Out::Ok((a, b)) => {
            if let Some(e) = ver_diff(&a, &b) {
                return Err(format!("through the file: {e}"));
            }
            a
        }
        Out::Err(e) => {
            // was it the migration or the file?
            return if matches!(sut.changes_json(s, t), Out::Ok(_)) { Err(format!("through the file: error: {e}")) } else { Ok(None) };
        }
        o => return Err(format!("through the file: {}", o.show())),
    };
    match sut.changes_json(s, t) {
        Out::Ok((a, b)) if same_text(&[a.clone()], &[b.clone()]) => Ok(Some(v)),
        Out::Ok((a, b)) => Err(format!("through the database's JSON: {a} is read back as {b}")),
        o => Err(format!("through the database's JSON: {}", o.show())),
    }
}

/// SQL executed on a connection, in order.
pub fn executed(log: &[Entry]) -> Vec<String> {
    let mut out = vec![];
    let mut stmts: BTreeMap<(u32, String), String> = BTreeMap::new();
    let mut portals: BTreeMap<(u32, String), String> = BTreeMap::new();
    for e in log {
        for m in &e.unit {
            match m {
                Msg::Parse(n, s) => {
                    stmts.insert((e.conn, n.clone()), s.clone());
                }
                Msg::Bind(p, s, ..) => {
                    if let Some(q) = stmts.get(&(e.conn, s.clone())) {
                        portals.insert((e.conn, p.clone()), q.clone());
                    }
                }
                Msg::Execute(p) => out.extend(portals.get(&(e.conn, p.clone())).cloned()),
                Msg::Query(s) => out.push(s.clone()),
                _ => {}
            }
        }
    }
    out
}

/// The tokens of statements, without separators.
fn tokens(sql: &[String]) -> Vec<String> {
    let mut out = vec![];
    for s in sql {
        match pglex::lex(s) {
            Ok(t) => out.extend(t.iter().map(pglex::tok_text).filter(|t| t != ";")),
            Err(_) => out.push(format!("?{s}")),
        }
    }
    out
}

/// Statements that are podo's own: about transactions and the metadata schema.
fn own(sql: &str, meta: &str) -> bool {
    let Ok(t) = pglex::lex(sql) else { return false };
    let w: Vec<String> = t.iter().map(pglex::tok_text).collect();
    const OWN: &[&str] = &["select", "begin", "start", "commit", "rollback", "set", "lock", "show", "savepoint", "release", "discard", "with"];
    w.is_empty() || OWN.contains(&w[0].to_lowercase().as_str()) || w.iter().any(|x| x.trim_matches('"') == meta)
}

/// Every place for a text that can be executed, with this text.
pub fn live_db(x: &str) -> Db {
    let lit = format!("'{}'", x.replace('\'', "''"));
    let name: String = if x.is_empty() || x.len() > 60 || x == "public" || x.contains('\0') { "n".into() } else { x.into() };
    let q = format!("\"{}\"", name.replace('"', "\"\""));
    let other = |p: &str| -> String { format!("{p}{}", &name) };
    Db::init()
        .table(
            "public",
            &name,
            Table::new(vec![Col::new(&name, "int4").nn(), Col::new(&other("d"), "text").def(&lit)])
                .con(&other("p"), Con::pk(&[&name]))
                .con(&other("u"), Con::uq(&[&other("d")]).defer(true, false))
                .con(&other("c"), Con::ck(&format!("{q} > 0 AND {lit} <> 'z'"))),
        )
        .table("public", &other("t"), Table::new(vec![Col::new(&other("f"), "int4")]).con(&other("k"), Con::fk(&[&other("f")], "public", &name, &[&name]).rules("FULL", "CASCADE", "SET NULL")))
        .rel("public", &other("v"), Rel::View(format!("SELECT {q} FROM public.{q}")))
        .rel("public", &other("i"), Rel::Index(Index::new(&name, &[&q])))
        .rel("public", &other("s"), Rel::Seq(Seq { owned: Some((name.clone(), name.clone())), ..Seq::new("int4", 3, None, None, None) }))
        .func("public", &other("g").replace(['(', ')'], ""), Func { body: format!("BEGIN RETURN {lit}; END"), lang: "plpgsql".into(), ret: "text".into(), vol: "STABLE".into() })
}

pub fn run_c06(ctx: &Ctx, sut: &dyn Sut) {
    let dir = || {
        let d = base_dir().join(format!("v{:?}", std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    };
    // every change between the schemas of C01's universes
    for sl in slices() {
        let states = sl.states(&wf_loose);
        ctx.count("states", states.len() as u64);
        par(ctx, &states, |i, s| {
            let d = dir();
            let mut n = 0u64;
            for (j, t) in states.iter().enumerate() {
                if i == j || !sl.near(s, t, ctx.thorough) || ctx.too_many() {
                    continue;
                }
                if !ctx.thorough && i != 0 && j != 0 && (i + j) % 2 == 1 && states.len() > 200 {
                    // changes both ways: each pair in one direction
                    if i > j {
                        continue;
                    }
                }
                n += 1;
                if let Err(e) = through(sut, &d, "v", Some("init"), &s.db, &t.db) {
                    ctx.fail(None, format!("{}: {e}", sl.name), J::obj(vec![("from", J::S(s.db.show())), ("to", J::S(t.db.show()))]), s.db.size() + t.db.size());
                }
            }
            ctx.count("versions", n);
            ctx.count("transitions", 2 * n);
        });
    }
    // every text in every place
    let alpha: Vec<char> = " \n\t'\":#-\\a1=!,.[{&*|>%@`~?é\r\u{85}\u{2028}\u{feff}$_T\u{7f}\u{1}😀".chars().collect();
    let small: Vec<char> = " \n:#-'\"a\\\t".chars().collect();
    let mut texts: BTreeSet<String> = words_list().into_iter().collect();
    texts.extend(strings(&alpha, if ctx.thorough { 3 } else { 2 }));
    texts.extend(strings(&small, if ctx.thorough { 5 } else { 3 }));
    texts.insert(String::new());
    let list: Vec<String> = texts.iter().cloned().collect();
    let mut items: Vec<(usize, usize)> = vec![];
    for k in 0..28 {
        items.extend((0..list.len()).map(|i| (k, i)));
    }
    par(ctx, &items, |n, (k, i)| {
        let d = dir();
        let x = &list[*i];
        let (what, db) = slot_db(*k, x).unwrap();
        let (_, other) = slot_db(*k, &list[(i + 7) % list.len()]).unwrap();
        for (a, b) in [(&Db::init(), &db), (&db, &Db::init()), (&db, &other)] {
            match through(sut, &d, "v", Some("init"), a, b) {
                Err(e) => ctx.fail(None, format!("{what} {x:?}: {e}"), J::obj(vec![("slot", J::s(what)), ("text", J::s(x.as_str()))]), x.len()),
                Ok(Some(v)) => {
                    ctx.count("versions", 1);
                    ctx.count("transitions", 2);
                    if n % 9973 == 0 && !v.up.is_empty() {
                        ctx.sample(J::obj(vec![("slot", J::s(what)), ("text", J::s(x.as_str())), ("up", J::strs(&v.up)), ("down", J::strs(&v.down))]));
                    }
                }
                Ok(None) => ctx.count("not stageable", 1),
            }
        }
    });
    ctx.count("states", items.len() as u64);
    // names of versions and predecessors
    par(ctx, &list, |_, x| {
        let d = dir();
        let t = Db::init().table("public", "t", Table::new(vec![Col::new("k", "int4")]));
        let file_ok = !x.contains(['/', '\0']) && x.len() < 240;
        for (name, prev) in [("v", x.as_str()), (x.as_str(), "init"), (x.as_str(), x.as_str())] {
            if (name != "v" && !file_ok) || name.is_empty() {
                continue;
            }
            ctx.count("versions", 1);
            if let Err(e) = through(sut, &d, name, Some(prev), &Db::init(), &t) {
                ctx.fail(None, format!("version {name:?} after {prev:?}: {e}"), J::obj(vec![("name", J::s(name)), ("previous", J::s(prev))]), x.len());
            }
        }
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let _ = std::fs::remove_file(e.path());
            }
        }
    });
    live(ctx, sut);
    labels(ctx, sut);
    let v = ctx.get("versions") + ctx.get("executions");
    ctx.count("traces_validated_against_impl", v);
    ctx.bound("texts in every slot of every kind of object, created, dropped and replaced", J::I(list.len() as i64));
    ctx.bound("schemas", J::s("all pairs within the distance of C01's universes"));
    ctx.bound("through the database", J::s("versions whose every name, literal and body is the text, recorded, applied and reverted by the program on the model server, for all words and all texts of up to 2 difficult characters; and SQL texts of other shapes"));
    ctx.assume("the model server stands for PostgreSQL 15 (no server is available)");
}

/// Through the real program and the server.
fn live(ctx: &Ctx, sut: &dyn Sut) {
    let alpha: Vec<char> = " \n\t'\":#-\\a1=!,{$%é\r\u{85}\u{2028}\u{feff}\u{7f}\u{1}😀".chars().collect();
    let mut texts: BTreeSet<String> = words_list().into_iter().collect();
    texts.extend(strings(&alpha, if ctx.thorough { 2 } else { 1 }));
    texts.extend(strings(&"'\"\\$\n-".chars().collect::<Vec<_>>(), 2));
    let pool = Pool::new(ctx, true);
    let list: Vec<String> = texts.into_iter().collect();
    // (text, up, down) that are not podo's own style
    let mk = |a: &str, b: &str| (vec![a.to_string()], vec![b.to_string()]);
    let t = "CREATE TABLE public.t (k int4)";
    let mut raw: Vec<(Vec<String>, Vec<String>)> = vec![
        mk(t, "DROP TABLE public.t"),
        mk(&format!("{t};"), "DROP TABLE public.t;"),
        mk(&format!("  \n\t{t} ;\n"), "\nDROP TABLE public.t\n;\n\n"),
        mk(&format!("-- first: a comment; with 'quotes'\n{t} -- and at the end"), "/* a; b */ DROP /* c */ TABLE public.t /* end */"),
        mk("CREATE TABLE public.t (k text DEFAULT 'a;b -- c $1 \\ \"x\"')", "DROP TABLE public.t"),
        mk("CREATE TABLE public.\"t;--\" (k text DEFAULT E'a\\nb;')", "DROP TABLE public.\"t;--\""),
        mk("create table public.t (k text default $$a;b'c$$, l text default $q$;$$;$q$)", "drop table public.t"),
        (
            vec![t.into(), "CREATE TABLE public.u (k int4)".into(), "ALTER TABLE public.t ADD COLUMN l int4;".into(), "ALTER TABLE public.t DROP COLUMN k".into()],
            vec!["ALTER TABLE public.t ADD COLUMN k int4".into(), "ALTER TABLE public.t DROP COLUMN l".into(), "DROP TABLE public.u".into(), "DROP TABLE public.t".into()],
        ),
        // the same statement more than once
        (vec![t.into(), "DROP TABLE public.t".into(), t.into()], vec!["DROP TABLE public.t".into(), t.into(), "DROP TABLE public.t".into()]),
        (vec![t.into()], vec![]),
        (vec![], vec!["CREATE TABLE public.back (k int4)".into()]),
    ];
    // all short sequences of statements that can be repeated
    let again = ["ALTER TABLE public.t ALTER COLUMN k SET NOT NULL", "ALTER TABLE public.t ALTER COLUMN k DROP NOT NULL", "ALTER TABLE public.t ALTER COLUMN k SET DEFAULT 1"];
    for n in 1..=if ctx.thorough { 4 } else { 3u32 } {
        for code in 0..again.len().pow(n) {
            let seq: Vec<String> = (0..n).map(|i| again[code / again.len().pow(i) % again.len()].to_string()).collect();
            let mut up = vec![t.to_string()];
            up.extend(seq.iter().cloned());
            let mut down: Vec<String> = seq.iter().rev().cloned().collect();
            down.push("DROP TABLE public.t".into());
            raw.push((up, down));
        }
    }
    // many, and long ones
    for n in [50, 300] {
        raw.push(((0..n).map(|i| format!("CREATE TABLE public.t{i} (k int4)")).collect(), (0..n).map(|i| format!("DROP TABLE public.t{i}")).collect()));
        raw.push(mk(&format!("CREATE TABLE public.t (k text DEFAULT '{}')", "long; ".repeat(n * 100)), "DROP TABLE public.t"));
    }
    for x in &list {
        let lit = format!("'{}'", x.replace('\'', "''"));
        raw.push(mk(&format!("CREATE TABLE public.t (k text DEFAULT {lit})"), "DROP TABLE public.t"));
    }
    let mut jobs: Vec<(String, Option<Db>, Vec<String>, Vec<String>)> = list.iter().map(|x| (format!("text {x:?}"), Some(live_db(x)), vec![], vec![])).collect();
    jobs.extend(raw.into_iter().map(|(u, d)| (format!("SQL {u:?}, {d:?}"), None, u, d)));
    par(ctx, &jobs, |n, (what, db, up, down)| {
        pool.with(|w| {
            let dir = w.project();
            restore(&dir, &Tree::new());
            let h = dir.join("h");
            std::fs::create_dir_all(&h).expect("scratch directory");
            std::fs::create_dir_all(dir.join("d")).expect("scratch directory");
            put(&dir, ".podo.yaml", &config(&[("database", &w.srv().url(), "h", "d", META)]));
            let init = Db::init();
            let bad = |e: String, more: Vec<(&str, J)>| {
                let mut v = vec![("case", J::s(what.as_str()))];
                v.extend(more);
                ctx.fail(None, format!("{what}: {e}"), J::obj(v), 100 + what.len())
            };
            let mut ok = sut.version_file(&h, "init", None, &Db::default(), &init).is_ok();
            let target = db.clone().unwrap_or_else(|| init.clone());
            let v = sut.version_file(&h, "a", Some("init"), &init, &target);
            ok &= sut.version_file(&h, "stage", Some("a"), &init, &init).is_ok();
            let Out::Ok((v, _)) = v else { return };
            if !ok {
                return;
            }
            if db.is_none() {
                let v = Ver { up: up.clone(), down: down.clone(), ..v };
                if !sut.write_version(&h, &v).is_ok() {
                    return bad("cannot be written".into(), vec![]);
                }
            } else if !crate::pg::build(&target).is_ok() {
                panic!("the model cannot hold {}", target.show());
            }
            let file = match rec_file(sut, &std::fs::read(h.join("a.yaml")).unwrap_or_default()) {
                Ok(r) => r,
                Err(e) => return bad(format!("the file is unreadable: {e}"), vec![]),
            };
            w.srv().reset(Pg::new(Cat::new()));
            let d1 = w.run(&run(&["up"]));
            let log1 = w.srv().log();
            ctx.count("executions", 2);
            let Some(pg) = w.srv().settled() else { return bad("the connection stays open".into(), vec![]) };
            if !d1.ok() {
                return bad(format!("podo up: {}", d1.show()), vec![("up", J::strs(&file.up))]);
            }
            match db_state(&pg.base, META) {
                Err(e) => return bad(format!("the record is broken: {e}"), vec![]),
                Ok(st) => {
                    let row = st.rows.as_ref().and_then(|r| r.iter().find(|r| r.name == "a"));
                    if row != Some(&file) {
                        return bad(format!("the row differs from the file: {row:?} instead of {file:?}"), vec![]);
                    }
                }
            }
            let ran = |log: &[Entry]| -> Vec<String> { executed(log).into_iter().filter(|s| !own(s, META)).collect() };
            let (got, want) = (ran(&log1), &file.up);
            if tokens(&got) != tokens(want) {
                bad("podo up does not execute exactly the recorded SQL".into(), vec![("executed", J::strs(&got)), ("recorded", J::strs(want))]);
            }
            // the database's record counts for the way back
            let _ = std::fs::remove_dir_all(&h);
            let d2 = w.run(&run(&["down"]));
            // the log goes on
            let mut log2 = w.srv().log();
            log2.drain(..log1.len().min(log2.len()));
            if !d2.ok() {
                return bad(format!("podo down: {}", d2.show()), vec![("down", J::strs(&file.down))]);
            }
            let (got, want) = (ran(&log2), &file.down);
            if tokens(&got) != tokens(want) {
                bad("podo down does not execute exactly the recorded SQL".into(), vec![("executed", J::strs(&got)), ("recorded", J::strs(want))]);
            }
            if n % 61 == 0 {
                ctx.sample(J::obj(vec![("case", J::s(what.as_str())), ("executed by up", J::strs(&ran(&log1))), ("executed by down", J::strs(&got))]));
            }
            ctx.count("statements", (file.up.len() + file.down.len()) as u64);
        });
    });
}

/// Labels given to make become names of versions.
fn labels(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    let mut list: Vec<String> = words_list().into_iter().filter(|x| !x.contains(['/', '\0']) && x.len() <= 100).collect();
    list.extend(["a.yaml", ".yaml", "stage", "init", "x\u{301}", "--", "-v", "a=b", "%Y%m%d", "%", "{}", "é".repeat(50).as_str()].map(|s| s.to_string()));
    list.push(String::new());
    par(ctx, &list, |_, x| {
        pool.with(|w| {
            let dir = w.project();
            restore(&dir, &Tree::new());
            let bad = |e: String| ctx.fail(None, format!("label {x:?}: {e}"), J::obj(vec![("label", J::s(x.as_str()))]), 50 + x.len());
            let clock = |args: &[&str]| Run { clock: Some(1704067200), ..run(args) };
            let d = w.run(&run(&["init"]));
            if !d.ok() {
                return bad(format!("podo init: {}", d.show()));
            }
            put(&dir, ".podo.yaml", &config(&[("database", &w.srv().url(), "database/history", "database/definitions", META)]));
            put(&dir, "database/definitions/public.yaml", &doc_text(&Db::init().table("public", "t", Table::new(vec![Col::new("k", "int4")]))));
            let d = w.run(&run(&["stage"]));
            if !d.ok() {
                return bad(format!("podo stage: {}", d.show()));
            }
            let before = tree(&dir);
            let arg = format!("--version={x}");
            let d = w.run(&clock(&["make", &arg]));
            ctx.count("executions", 3);
            let after = tree(&dir);
            let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
            if !d.ok() {
                if !new.is_empty() || after != before {
                    bad(format!("make fails, but changes files: {}", tree_diff(&before, &after).join(", ")));
                }
                if d.crashed() {
                    bad(d.show());
                }
                ctx.count("labels refused", 1);
                return;
            }
            let stem = match new[..] {
                [f] => f.strip_prefix("database/history/").and_then(|f| f.strip_suffix(".yaml")).unwrap_or("").to_string(),
                _ => return bad(format!("make creates {new:?}")),
            };
            let (v, s) = (sut.read_version(&dir.join("database/history"), &stem), sut.read_version(&dir.join("database/history"), "stage"));
            match (&v, &s) {
                (Out::Ok(v), Out::Ok(s)) => {
                    if v.name != stem {
                        return bad(format!("the file {stem:?} holds version {:?}", v.name));
                    }
                    if s.previous.as_deref() != Some(stem.as_str()) {
                        return bad(format!("the stage follows {:?} instead of {stem:?}", s.previous));
                    }
                }
                _ => return bad(format!("reading it: {}, the stage: {}", v.show(), s.show())),
            }
            w.srv().reset(Pg::new(Cat::new()));
            let d = w.run(&run(&["up"]));
            ctx.count("executions", 1);
            if !d.ok() {
                return bad(format!("podo up: {}", d.show()));
            }
            let Some(pg) = w.srv().settled() else { return };
            match db_state(&pg.base, META) {
                Ok(st) if st.names() == ["init".to_string(), stem.clone()] => {}
                Ok(st) => bad(format!("the database records {:?}", st.names())),
                Err(e) => bad(e),
            }
        });
    });
}
