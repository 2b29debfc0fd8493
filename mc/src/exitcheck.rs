//! C15: exit status and messages of every command in good, damaged and failing circumstances.
use crate::cli::*;
use crate::crash;
use crate::dbcheck::*;
use crate::engine::Pg;
use crate::fix::*;
use crate::flow::{DEFS, HIST};
use crate::json::J;
use crate::model::Db;
use crate::pg::{CRel, CTable, Cat};
use crate::report::{par, Ctx};
use crate::sql::{self, V};
use crate::srv::*;
use crate::sut::{Out, Sut};
use crate::wire;

/// What holds for every run.
fn basic(d: &Done) -> Option<String> {
    if d.hung {
        return Some("does not end".into());
    }
    if d.crashed() {
        return Some(format!("crashes: {}", d.show()));
    }
    if !d.ok() && d.err.trim().is_empty() {
        return Some(format!("fails without a message on standard error: {}", d.show()));
    }
    None
}

fn report(ctx: &Ctx, what: &str, cmd: &[String], d: &Done, e: String, size: usize) {
    ctx.fail(
        None,
        format!("podo {} ({what}): {e}", cmd.join(" ")),
        J::obj(vec![("command", J::strs(cmd)), ("circumstances", J::s(what)), ("result", J::s(d.show())), ("wrong", J::s(e.as_str()))]),
        size,
    );
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

pub fn run_c15(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    let Some(bs) = build_all(ctx, sut, &pool) else { return };
    for (i, b) in bs.iter().enumerate() {
        let all = reachable(ctx, sut, &pool, b);
        if i == 0 || ctx.thorough {
            failing(ctx, &pool, b, &all);
            damaged(ctx, sut, &pool, b, &all);
            foreign(ctx, &pool, b, &all);
            unreachable_db(ctx, &pool, b);
        }
    }
    usage(ctx, &pool, &bs[0]);
    unwritable(ctx, &pool, &bs[0]);
    io(ctx, sut, &pool, &bs[0]);
    let c = ctx.get("transitions");
    ctx.count("traces_validated_against_impl", c);
    ctx.bound("reachable states", J::s("every command with every target from every (history, database) state reachable by up and down, two histories"));
    ctx.bound("database failures", J::s("every request of up, down, status and clone rejected, FATAL, connection ended before, after, within the answer; connections refused and database addresses that are none"));
    ctx.bound("database contents", J::s("every cell of the version table replaced by NULL and by unfitting values, every row missing or twice, every column missing or of another type, no table"));
    ctx.bound("project damage", J::s("each of the 6 project files missing, empty, cut off at 12 places, replaced by 12 kinds of rubbish, doubled, each top-level key removed or replaced by 5 values; 12 kinds of additional files; unwritable directories; each file operation failing"));
    ctx.assume("the model server stands for PostgreSQL 15 (no server is available)");
    ctx.assume("standard output accepts what podo writes");
}

/// Healthy projects and databases: success exactly where the request can be fulfilled.
fn reachable(ctx: &Ctx, sut: &dyn Sut, pool: &Pool, b: &Built) -> Vec<(usize, Node)> {
    let all = explore(ctx, sut, pool, b, &|b, h, n, c, w, d, st, _| {
        let mut e = basic(d);
        if e.is_none() {
            let fails = matches!(w, Want::Stay(true));
            if fails && d.ok() {
                e = Some("reports success, although what is asked is impossible".into());
            } else if !fails && !d.ok() {
                e = Some(format!("reports a failure, although what is asked is possible: {}", d.show()));
            } else if d.ok() {
                let goal = match w {
                    Want::Move(rows, _) => rows.iter().map(|r| r.name.clone()).collect(),
                    _ => n.st.names(),
                };
                match st {
                    // nothing to migrate: the initialisation may or may not be kept
                    Ok(s) if s.names() == goal || (n.st.rows.is_none() && goal.len() <= 1 && s.names().len() <= 1) => {}
                    Ok(s) => e = Some(format!("reports success, but the database records {:?} instead of {goal:?}", s.names())),
                    Err(x) => e = Some(format!("reports success, but {x}")),
                }
            }
        }
        if let Some(e) = e {
            ctx.fail(None, format!("podo {} on a database at {:?}: {e}", c.join(" "), n.st.names().last()), case(b, h, n, c, Some(d), vec![]), n.path.len());
        }
    });
    // the other commands
    par(ctx, &all, |_, (h, n)| {
        pool.with(|w| {
            for c in [&["status"][..], &["stage"], &["make"], &["reset"], &["init"], &["sync"], &["print"]] {
                let t = b.tree(*h, &w.srv().url());
                restore(&w.project(), &t);
                w.srv().reset(n.pg.clone());
                let d = w.run(&crash::cmd_run(&strs(c), None));
                ctx.count("transitions", 1);
                let can = c[0] != "sync" && c[0] != "print";
                let e = basic(&d).or_else(|| (d.ok() != can).then(|| format!("{}: {}", if can { "reports a failure, although it can be done" } else { "reports success, although it does nothing" }, d.show())));
                if let Some(e) = e {
                    report(ctx, &format!("{}, {} versions made, database at {:?}", b.name, h, n.st.names().last()), &strs(c), &d, e, 1);
                }
            }
        })
    });
    all
}

/// Database failures at every request.
fn failing(ctx: &Ctx, pool: &Pool, b: &Built, all: &[(usize, Node)]) {
    let top = b.trees.len() - 1;
    let mut jobs = vec![];
    for (h, n) in all {
        if *h != top {
            continue;
        }
        for c in ["up", "down", "status", "clone"] {
            jobs.push((n, strs(&[c])));
        }
    }
    par(ctx, &jobs, |_, (n, c)| {
        pool.with(|w| {
            let srv = w.srv();
            restore(&w.project(), &b.tree(top, &srv.url()));
            srv.reset(n.pg.clone());
            let d0 = w.run(&run(&args(c)));
            let units = srv.log();
            let goal = srv.settled().and_then(|pg| db_state(&pg.base, &b.meta).ok());
            let files = tree(&w.project());
            for k in 0..units.len() {
                for f in FAULTS {
                    if matches!(f, Fault::KillBefore | Fault::KillAfter) {
                        continue;
                    }
                    // closing a statement does not fail
                    if f == Fault::Reject && units[k].unit.iter().all(|m| matches!(m, wire::Msg::Terminate | wire::Msg::CloseStmt(_) | wire::Msg::Sync)) {
                        continue;
                    }
                    restore(&w.project(), &b.tree(top, &srv.url()));
                    srv.reset(n.pg.clone());
                    srv.set_fault(Some((k, f)));
                    let d = w.run(&run(&args(c)));
                    let end = srv.settled();
                    if !srv.fired() {
                        continue;
                    }
                    ctx.count("transitions", 1);
                    ctx.count("database_failures", 1);
                    let e = basic(&d).or_else(|| {
                        if !d.ok() || c[0] == "status" {
                            return None;
                        }
                        if !d0.ok() {
                            return Some("reports success, although even without the failure it cannot be done".into());
                        }
                        let now = end.as_ref().and_then(|pg| db_state(&pg.base, &b.meta).ok());
                        let t = tree(&w.project());
                        if t != files {
                            return Some(format!("reports success, but the files are different: {}", tree_diff(&files, &t).join(", ")));
                        }
                        (now != goal).then(|| format!("reports success, but the database is at {}", now.map_or("?".into(), |s| s.show())))
                    });
                    if let Some(e) = e {
                        ctx.fail(None, format!("podo {} with {f:?} at request {k}: {e}", c.join(" ")), case(b, top, n, c, Some(&d), vec![("request", J::I(k as i64))]), n.path.len() * 100 + k);
                    }
                }
            }
        })
    });
}

const GARBAGE: [(&str, &[u8]); 12] = [
    ("a text", b"hello\n"),
    ("a number", b"7\n"),
    ("null", b"null\n"),
    ("a list", b"- a\n- b\n"),
    ("an empty mapping", b"{}\n"),
    ("an unknown key", b"nope: 1\n"),
    ("two documents", b"---\na: 1\n---\nb: 2\n"),
    ("no YAML", b"a: [b\n\tc: }{\n"),
    ("bytes that are no UTF-8", b"name: \xff\xfe\n"),
    ("zero bytes", b"\0\0\0\0"),
    ("an alias without anchor", b"name: *x\n"),
    ("a self reference", b"a: &a [*a]\n"),
];

fn deep() -> Vec<u8> {
    let mut v = b"a: ".to_vec();
    v.extend(std::iter::repeat(b'[').take(5000));
    v
}

/// What is wrong with the project, and its files.
fn damages(b: &Built, h: usize, url: &str) -> Vec<(String, Tree)> {
    let good = b.tree(h, url);
    let mut out = vec![("nothing".to_string(), good.clone())];
    let files: Vec<String> = good.keys().filter(|k| k.ends_with(".yaml")).cloned().collect();
    for f in &files {
        let text = good[f].clone();
        let mut set = |what: &str, v: Option<Vec<u8>>| {
            let mut t = good.clone();
            match v {
                Some(v) => t.insert(f.clone(), v),
                None => t.remove(f),
            };
            out.push((format!("{f}: {what}"), t));
        };
        set("missing", None);
        set("empty", Some(vec![]));
        for i in 1..=12 {
            let n = text.len() * i / 13;
            set(&format!("cut off after {n} of {} bytes", text.len()), Some(text[..n].to_vec()));
        }
        for (w, g) in GARBAGE {
            set(w, Some(g.to_vec()));
        }
        set("deeply nested", Some(deep()));
        set("doubled", Some([text.clone(), text.clone()].concat()));
        // top-level keys with what belongs to them
        let s = String::from_utf8(text.clone()).unwrap();
        let mut parts: Vec<String> = vec![];
        for l in s.split_inclusive('\n') {
            if l.starts_with(|c: char| c.is_alphabetic() || c == '"') || parts.is_empty() {
                parts.push(l.to_string());
            } else {
                parts.last_mut().unwrap().push_str(l);
            }
        }
        for i in 0..parts.len() {
            let with = |x: &str| {
                let mut p = parts.clone();
                p[i] = x.to_string();
                Some(p.concat().into_bytes())
            };
            let key = parts[i].split(':').next().unwrap().to_string();
            set(&format!("without {key}"), with(""));
            for v in ["null", "7", "x", "[]", "{}"] {
                set(&format!("{key}: {v}"), with(&format!("{key}: {v}\n")));
            }
            set(&format!("{key} twice"), with(&[parts[i].clone(), parts[i].clone()].concat()));
        }
        let mut t = good.clone();
        t.remove(f);
        t.insert(format!("{f}/"), vec![]);
        out.push((format!("{f}: a directory"), t));
    }
    // the fields of the profile
    let conf = String::from_utf8(good[".podo.yaml"].clone()).unwrap();
    for l in conf.lines().skip(1) {
        let key = l.trim().split(':').next().unwrap();
        for (w, x) in [("without", String::new()), ("null", format!("{}{key}: null\n", &l[..l.len() - l.trim_start().len()])), ("a list", format!("{}{key}: [a]\n", &l[..l.len() - l.trim_start().len()]))] {
            let mut t = good.clone();
            t.insert(".podo.yaml".into(), conf.replace(&format!("{l}\n"), &x).into_bytes());
            out.push((format!(".podo.yaml: {w} {key}"), t));
        }
    }
    for (d, other) in [(HIST, "the history"), (DEFS, "the definitions")] {
        let mut add = |what: &str, f: &str, v: Vec<u8>| {
            let mut t = good.clone();
            t.insert(format!("{d}/{f}"), v);
            out.push((format!("{other} with {what} {f:?}"), t));
        };
        add("an additional file", "extra.yaml", b"hello".to_vec());
        add("an additional empty file", "extra.yaml", vec![]);
        add("an additional file", ".yaml", b"x: [".to_vec());
        add("an additional file", ".hidden.yaml", b"x: [".to_vec());
        add("a directory", "dir.yaml/", vec![]);
        add("a file of another kind", "notes.txt", b"x: [".to_vec());
        for f in files.iter().filter(|f| f.starts_with(d)) {
            add(&format!("a copy of {f}"), "extra.yaml", good[f].clone());
        }
        // the directory itself
        let mut t: Tree = good.iter().filter(|(k, _)| !k.starts_with(&format!("{d}/"))).map(|(k, v)| (k.clone(), v.clone())).collect();
        out.push((format!("{d} missing"), t.clone()));
        t.insert(format!("{d}/"), vec![]);
        out.push((format!("{d} empty"), t.clone()));
        t.remove(&format!("{d}/"));
        t.insert(d.to_string(), b"a file".to_vec());
        out.push((format!("{d} is a file"), t));
    }
    out
}

fn stage_of(sut: &dyn Sut, t: &Tree) -> Option<Rec> {
    t.get(&format!("{HIST}/stage.yaml")).and_then(|v| rec_file(sut, v).ok())
}
fn no_changes(r: &Rec) -> bool {
    r.changes == J::A(vec![]) && r.up.is_empty() && r.down.is_empty()
}

/// Damaged projects: never a crash, and success means that it is done.
fn damaged(ctx: &Ctx, sut: &dyn Sut, pool: &Pool, b: &Built, all: &[(usize, Node)]) {
    let h = 2;
    let Some((_, node)) = all.iter().find(|(i, n)| *i == h && n.st.names() == b.chains[h][..2]) else {
        panic!("podo up never leads a database to the first version");
    };
    let v2 = b.chains[h][2].clone();
    let mut cmds: Vec<Vec<String>> = ["status", "stage", "make", "reset", "up", "down", "init", "clone", "sync"].iter().map(|c| strs(&[c])).collect();
    cmds.push(strs(&["up", "--version", &v2]));
    cmds.push(strs(&["up", "--version", &b.chains[h][1]]));
    cmds.push(strs(&["down", "--version", "init"]));
    let n = damages(b, h, "x").len();
    ctx.count("states", n as u64);
    let mut jobs = vec![];
    for i in 0..n {
        for c in &cmds {
            jobs.push((i, c.clone()));
        }
    }
    par(ctx, &jobs, |jn, (i, c)| {
        pool.with(|w| {
            let srv = w.srv();
            let (what, before) = damages(b, h, &srv.url()).swap_remove(*i);
            restore(&w.project(), &before);
            srv.reset(node.pg.clone());
            let snap = |n: &str| match sut.hist_snapshot(&w.path(HIST), n) {
                Out::Ok(d) => Some(d.canon()),
                _ => None,
            };
            let snap0 = snap("stage");
            let chain0 = sut.hist_current(&w.path(HIST)).is_ok();
            let d = w.run(&crash::cmd_run(c, None));
            ctx.count("transitions", 1);
            let after = tree(&w.project());
            let pg = srv.settled();
            let e = basic(&d).or_else(|| {
                if *i == 0 && !d.ok() && c[0] != "clone" && c[0] != "sync" {
                    return Some(format!("reports a failure, although it can be done: {}", d.show()));
                }
                if !d.ok() {
                    return None;
                }
                let st = pg.as_ref().and_then(|p| db_state(&p.base, &b.meta).ok());
                let unread = |x: &Option<Db>| x.is_none().then(|| "reports success with a history that cannot be read".to_string());
                let chained = || (!chain0).then(|| "reports success with a history that cannot be read".to_string());
                let defs = || match sut.load_defs(&w.path(DEFS)) {
                    Out::Ok(d) => Some(d.canon()),
                    _ => None,
                };
                // another metadata schema is another record
                let meta = before.get(".podo.yaml").map_or(true, |c| String::from_utf8_lossy(c).contains(&format!("metadata_schema: '{}'", b.meta)));
                if !meta && (c[0] == "up" || c[0] == "down") {
                    return None;
                }
                let here = before.contains_key(".podo.yaml") || before.contains_key(".podo.yaml/");
                if !here && c[0] != "init" {
                    return Some("reports success without a project".into());
                }
                match c[0].as_str() {
                    "status" => unread(&snap0).or_else(|| defs().is_none().then(|| "reports success with definitions that cannot be read".into())),
                    "stage" => unread(&snap0).or_else(|| match defs() {
                        None => Some("reports success with definitions that cannot be read".into()),
                        Some(x) => (snap("stage") != Some(x)).then(|| "reports success, but the definitions are not staged".into()),
                    }),
                    "make" => {
                        let s0 = stage_of(sut, &before);
                        let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
                        chained().or_else(|| match s0 {
                            None => Some("reports success without a stage".into()),
                            Some(s) if no_changes(&s) => (after != before).then(|| format!("reports success with nothing to make, but: {}", tree_diff(&before, &after).join(", "))),
                            Some(s) if s.changes == J::A(vec![]) && after == before => None,
                            Some(s) => match &new[..] {
                                [f] => {
                                    let r = rec_file(sut, &after[*f]).ok();
                                    let same = r.map_or(false, |r| (&r.previous, &r.changes, &r.up, &r.down) == (&s.previous, &s.changes, &s.up, &s.down));
                                    let empty = stage_of(sut, &after).map_or(false, |s| no_changes(&s));
                                    if !same {
                                        Some("reports success, but the new version does not hold what was staged".into())
                                    } else if !empty {
                                        Some("reports success, but there is no empty stage afterwards".into())
                                    } else if snap("stage") != snap0 {
                                        Some("reports success, but the history means something else".into())
                                    } else {
                                        None
                                    }
                                }
                                x => Some(format!("reports success, but the new files are {x:?}")),
                            },
                        })
                    }
                    "reset" => {
                        let (x, y) = (stage_of(sut, &before), stage_of(sut, &after));
                        match (x, y) {
                            (Some(x), Some(y)) if no_changes(&y) && x.previous == y.previous => chained(),
                            _ => Some("reports success, but there is no empty stage after the same version".into()),
                        }
                    }
                    "up" => {
                        let target = match c.get(2) {
                            Some(v) => Some(v.clone()),
                            None => match sut.hist_current(&w.path(HIST)) {
                                Out::Ok(v) => Some(v),
                                _ => None,
                            },
                        };
                        let Some(target) = target else { return unread(&None) };
                        let Some(st) = st else { return Some("reports success, but the database's record cannot be read".into()) };
                        let names = st.names();
                        if names.last() != Some(&target) {
                            return Some(format!("reports success, but the database is at {:?}, not at {target:?}", names.last()));
                        }
                        // what was recorded is executed
                        let mut cat = node.pg.base.clone();
                        for n in names.iter().skip(node.st.names().len()) {
                            let Ok(r) = before.get(&format!("{HIST}/{n}.yaml")).map_or(Err("no file".to_string()), |f| rec_file(sut, f)) else {
                                return Some(format!("reports success, but version {n:?} cannot be read"));
                            };
                            if st.rows.iter().flatten().find(|x| x.name == *n) != Some(&r) {
                                return Some(format!("reports success, but version {n:?} is recorded otherwise than in the history"));
                            }
                            for s in &r.up {
                                if let Err(x) = cat.exec(s) {
                                    return Some(format!("reports success, although {s:?} fails: {}", x.msg));
                                }
                            }
                        }
                        let mut want = cat.to_db();
                        want.schemas.remove(&b.meta);
                        (st.schema != want).then(|| format!("reports success, but not all was executed: {}", st.schema.diff_text(&want)))
                    }
                    "down" => {
                        let Some(st) = st else { return Some("reports success, but the database's record cannot be read".into()) };
                        if st.names() != ["init"] || st.schema != crate::fix::normal(&b.dbs[0]) {
                            return Some(format!("reports success, but the database is at {}", st.show()));
                        }
                        None
                    }
                    "clone" => {
                        let text = after.get(&format!("{DEFS}/public.yaml")).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                        match sut.load_str(&text) {
                            Out::Ok(got) => crate::clonecheck::differs(&got, &node.pg.base).map(|e| format!("reports success, but {e}")),
                            o => Some(format!("reports success, but the definitions cannot be read: {}", o.show())),
                        }
                    }
                    "init" => {
                        for f in [".podo.yaml".to_string(), format!("{HIST}/init.yaml"), format!("{HIST}/stage.yaml"), format!("{DEFS}/public.yaml")] {
                            if !here && !after.contains_key(&f) && !after.contains_key(&format!("{f}/")) {
                                return Some(format!("reports success, but there is no {f}"));
                            }
                        }
                        before.iter().find(|(k, v)| after.get(*k) != Some(v)).map(|(k, _)| format!("reports success, but {k} is changed"))
                    }
                    _ => Some("reports success, although it does nothing".into()),
                }
            });
            match e {
                Some(e) => {
                    ctx.fail(
                        None,
                        format!("podo {} in a project with {what}: {e}", c.join(" ")),
                        J::obj(vec![("command", J::strs(c)), ("damage", J::s(what.as_str())), ("files", J::s(show_tree(&before))), ("database", J::s(node.st.show())), ("result", J::s(d.show())), ("wrong", J::s(e.as_str()))]),
                        what.len(),
                    );
                }
                None if jn % 1201 == 7 => ctx.sample(J::obj(vec![("command", J::strs(c)), ("damage", J::s(what.as_str())), ("result", J::s(d.show()))])),
                None => {}
            }
        })
    });
}

/// Names in the order applied, as far as they can be told.
fn applied(c: &Cat, meta: &str) -> Option<Vec<(i64, String)>> {
    let t = c.table(meta, "version").ok()?;
    let col = |n: &str| t.cols.iter().position(|c| c.name == n);
    let (n, o) = (col("name")?, col("applied_order")?);
    let mut v = vec![];
    for r in &t.rows {
        match (sql::load(&t.cols[n].ty, &r[n]), sql::load(&t.cols[o].ty, &r[o])) {
            (V::S(a), V::I(b)) => v.push((b, a)),
            _ => return None,
        }
    }
    v.sort();
    Some(v)
}

/// The version table as others may have left it.
fn version_tables(base: &Cat, meta: &str) -> Vec<(String, Cat)> {
    let mut out = vec![("nothing".to_string(), base.clone())];
    let t0 = base.table(meta, "version").expect("version table").clone();
    let mut put = |what: String, t: Option<CTable>| {
        let mut c = base.clone();
        let s = c.schemas.get_mut(meta).unwrap();
        match t {
            Some(t) => s.rels.insert("version".into(), CRel::Table(t)),
            None => s.rels.remove("version"),
        };
        out.push((what, c));
    };
    put("no version table".into(), None);
    let a = |v: &[Option<&str>]| sql::store(&V::A(v.iter().map(|x| x.map(|s| s.to_string())).collect()));
    let s = |x: &str| Some(x.to_string());
    let many = |x: &str, n: usize| Some(x.repeat(n));
    for (i, col) in t0.cols.iter().enumerate() {
        let vals: Vec<Option<String>> = match col.name.as_str() {
            "name" | "previous" => vec![None, s(""), s("x"), s("init"), s("stage"), s("../../etc/x"), s("a\nb")],
            "changes" => vec![None, s(""), s("x"), s("{}"), s("[]"), s("[1]"), s("null"), s("[{\"Nope\":{}}]"), s("[{}]"), s("[\"CreateTable\"]"), s("[null]"), many("[", 5000)],
            "up" | "down" => vec![None, a(&[]), a(&[None]), a(&[Some("SELECT 1"), None]), a(&[Some("nonsense")]), a(&[Some("")]), a(&[Some("SELECT 1; SELECT 2")]), a(&[Some("DROP SCHEMA public")])],
            "applied_order" => vec![None, s("0"), s("-1"), s("1"), s("2"), s("99"), s("2147483647"), s("-2147483648")],
            _ => vec![None],
        };
        for r in 0..t0.rows.len() {
            for v in &vals {
                let mut t = t0.clone();
                t.rows[r][i] = v.clone();
                // foreign tables need not have the constraints
                t.cons.clear();
                t.cols[i].nn = t.cols[i].nn && v.is_some();
                put(format!("row {r}: {} is {}", col.name, v.as_ref().map_or("NULL".into(), |v| short(v))), Some(t));
            }
        }
        let mut t = t0.clone();
        t.cons.clear();
        t.cols.remove(i);
        for r in &mut t.rows {
            r.remove(i);
        }
        put(format!("no column {}", col.name), Some(t));
        for ty in ["text", "int2", "int4", "int8", "bool", "json", "text[]", "varchar(128)"] {
            if ty == col.ty {
                continue;
            }
            let mut t = t0.clone();
            t.cons.clear();
            t.cols[i].ty = ty.into();
            put(format!("column {} is {ty}", col.name), Some(t));
        }
    }
    for r in 0..t0.rows.len() {
        let mut t = t0.clone();
        t.cons.clear();
        let row = t.rows.remove(r);
        put(format!("row {r} is missing"), Some(t.clone()));
        t.rows.insert(r, row.clone());
        t.rows.push(row);
        put(format!("row {r} is there twice"), Some(t));
    }
    let mut t = t0.clone();
    t.rows.clear();
    put("no rows".into(), Some(t));
    out
}

fn foreign(ctx: &Ctx, pool: &Pool, b: &Built, all: &[(usize, Node)]) {
    let h = 2;
    let mut jobs = vec![];
    let mut n = 0;
    for k in [2, 3] {
        let Some((_, node)) = all.iter().find(|(i, n)| *i == h && n.st.names() == b.chains[h][..k]) else {
            panic!("podo up never leads a database to version {k}");
        };
        let ts = version_tables(&node.pg.base, &b.meta);
        n += ts.len();
        for (what, c) in ts {
            for cmd in [&["status"][..], &["up"], &["up", "--version", &b.chains[h][2]], &["down"], &["down", "--version", "init"]] {
                jobs.push((what.clone(), c.clone(), strs(cmd), node));
            }
        }
    }
    ctx.count("states", n as u64);
    par(ctx, &jobs, |jn, (what, cat, c, node)| {
        pool.with(|w| {
            let srv = w.srv();
            let t = b.tree(h, &srv.url());
            restore(&w.project(), &t);
            let mut pg: Pg = node.pg.clone();
            pg.base = cat.clone();
            srv.reset(pg);
            let d = w.run(&run(&args(c)));
            ctx.count("transitions", 1);
            let end = srv.settled();
            let e = basic(&d).or_else(|| {
                if what == "nothing" && !d.ok() {
                    return Some(format!("reports a failure, although it can be done: {}", d.show()));
                }
                let Some(end) = end else { return Some("the connection stays open after podo ended".into()) };
                if !d.ok() || c[0] == "status" {
                    return None;
                }
                // with numbers that are not of podo's sequence, "last" has no meaning
                if what.contains("applied_order") {
                    return None;
                }
                let v0 = applied(cat, &b.meta)?;
                let v = applied(&end.base, &b.meta)?;
                let max = v.iter().map(|x| x.0).max();
                let now: Vec<&str> = v.iter().filter(|x| Some(x.0) == max).map(|x| x.1.as_str()).collect();
                let target = match (c[0].as_str(), c.get(2)) {
                    (_, Some(t)) => t.clone(),
                    ("up", None) => b.chains[h][2].clone(),
                    _ => return (v.len() > v0.len()).then(|| "reports success, but there are more versions than before".into()),
                };
                (!now.contains(&target.as_str())).then(|| format!("reports success, but the database is at {now:?}, not at {target:?}"))
            });
            match e {
                Some(e) => ctx.fail(None, format!("podo {} with {what} in the version table: {e}", c.join(" ")), case(b, h, node, c, Some(&d), vec![("version table", J::s(what.as_str()))]), what.len()),
                None if jn % 301 == 5 => ctx.sample(J::obj(vec![("command", J::strs(c)), ("version table", J::s(what.as_str())), ("result", J::s(d.show()))])),
                None => {}
            }
        })
    });
}

fn unreachable_db(ctx: &Ctx, pool: &Pool, b: &Built) {
    let urls = [
        "", " ", "nonsense", "postgresql://", "postgresql:///d", "host=/nonexistent user=u dbname=d", "host=/nonexistent", "user=u dbname=d", "postgresql://u@127.0.0.1:1/d",
        "postgresql://u@127.0.0.1:99999/d", "postgresql://u@[::1/d", "postgresql://%ff@127.0.0.1:1/d", "host=127.0.0.1 port=x", "host=127.0.0.1 port=1 user=u nope=1", "mysql://u@127.0.0.1:1/d", "host=127.0.0.1 port=1 user=u sslmode=require",
        "host='", "host=/nonexistent user=u connect_timeout=x", "$NOT_SET_AT_ALL", "postgresql://u@nonexistent.invalid:5432/d",
    ];
    let mut jobs = vec![];
    for u in urls {
        for c in ["up", "down", "clone", "status", "stage", "make", "reset"] {
            jobs.push((u.to_string(), strs(&[c])));
        }
    }
    for c in ["up", "down", "clone", "status"] {
        jobs.push(("(refused)".to_string(), strs(&[c])));
    }
    par(ctx, &jobs, |_, (u, c)| {
        pool.with(|w| {
            let refused = u == "(refused)";
            let url = if refused { w.srv().url() } else { u.clone() };
            w.srv().reset(empty_pg());
            w.srv().refuse(refused);
            restore(&w.project(), &b.tree(2, &url));
            let d = w.run(&crash::cmd_run(c, None));
            ctx.count("transitions", 1);
            let needs = ["up", "down", "clone"].contains(&c[0].as_str());
            let e = basic(&d).or_else(|| (d.ok() == needs).then(|| format!("{}: {}", if needs { "reports success without a database" } else { "reports a failure, although it needs no database" }, d.show())));
            if let Some(e) = e {
                report(ctx, &format!("database address {u:?}"), c, &d, e, u.len());
            }
        })
    });
}

/// The command line itself.
fn usage(ctx: &Ctx, pool: &Pool, b: &Built) {
    let cmds = ["init", "status", "stage", "reset", "make", "up", "down", "clone", "print", "sync"];
    // arguments and whether they are a request for help
    let mut jobs: Vec<(Vec<String>, bool, bool)> = vec![];
    let mut add = |a: &[&str], help: bool| jobs.push((strs(a), help, true));
    for a in [&[][..], &["nope"], &["--nope"], &["-x"], &[""], &["UP"], &["up", "v1"], &["help", "nope"], &["make", "--version"], &["up", "--version"], &["down", "--version"], &["init", "--profile", "x"], &["stage", "--version", "x"], &["reset", "--version", "x"], &["status", "--version", "x"], &["up", "--version", "a", "--version", "b"]] {
        add(a, false);
    }
    for a in [&["--help"][..], &["-h"], &["--version"], &["-V"], &["help"]] {
        add(a, true);
    }
    for c in cmds {
        add(&[c, "--help"], true);
        add(&[c, "-h"], true);
        add(&["help", c], true);
        add(&[c, "extra"], false);
        add(&[c, "--nope"], false);
        add(&[c, "--nope=1"], false);
        add(&[c, "--profile"], false);
        if c != "init" && c != "print" {
            add(&[c, "--profile", "nonesuch"], false);
            add(&[c, "--profile", ""], false);
            add(&[c, "--profile=Database"], false);
        }
    }
    // outside any project
    for c in cmds {
        if c != "init" {
            jobs.push((strs(&[c]), false, false));
        }
    }
    par(ctx, &jobs, |_, (a, help, project)| {
        pool.with(|w| {
            w.srv().reset(empty_pg());
            let t = if *project { b.tree(2, &w.srv().url()) } else { Tree::new() };
            restore(&w.project(), &t);
            let d = w.run(&crash::cmd_run(a, None));
            ctx.count("transitions", 1);
            let now = tree(&w.project());
            let same = w.srv().settled().map_or(false, |p| p.base == empty_pg().base);
            let e = basic(&d).or_else(|| {
                if *help != d.ok() {
                    return Some(format!("{}: {}", if *help { "a request for help fails" } else { "a request that cannot be fulfilled succeeds" }, d.show()));
                }
                if *help && d.out.trim().is_empty() {
                    return Some("a request for help prints nothing".into());
                }
                if now != t || !same {
                    return Some(format!("changes the project or the database: {}", tree_diff(&t, &now).join(", ")));
                }
                None
            });
            if let Some(e) = e {
                report(ctx, if *project { "in a project" } else { "outside any project" }, a, &d, e, a.len());
            }
        })
    });
}

/// A user who may not write.
fn unwritable(ctx: &Ctx, pool: &Pool, b: &Built) {
    let can = pool.with(|w| {
        use std::os::unix::process::CommandExt;
        restore(&w.project(), &b.tree(2, &w.srv().url()));
        let mut c = w.command(&run(&["--version"]));
        c.uid(65534).gid(65534).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        c.status().map_or(false, |s| s.success()) && std::process::Command::new("/bin/cat").arg(w.path(".podo.yaml")).uid(65534).gid(65534).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_or(false, |s| s.success())
    });
    if !can {
        ctx.note("podo could not be run as an unprivileged user; unwritable directories are covered by failing file operations only".into());
        return;
    }
    let mut jobs = vec![];
    for c in [&["status"][..], &["stage"], &["make"], &["make", "--version", "x"], &["reset"], &["init"]] {
        for empty in [false, true] {
            jobs.push((strs(c), empty));
        }
    }
    par(ctx, &jobs, |_, (c, empty)| {
        pool.with(|w| {
            w.srv().reset(empty_pg());
            let t = if *empty { Tree::new() } else { b.tree(2, "host=/nonexistent user=u dbname=d") };
            restore(&w.project(), &t);
            let mut r = crash::cmd_run(c, None);
            r.nobody = true;
            let d = w.run(&r);
            ctx.count("transitions", 1);
            let now = tree(&w.project());
            let ok = !*empty && (c[0] == "status" || c[0] == "init");
            let e = basic(&d).or_else(|| {
                if d.ok() != ok {
                    return Some(format!("{}: {}", if ok { "fails, although it need not write" } else { "reports success, although it may not write" }, d.show()));
                }
                (now != t).then(|| format!("changes {}", tree_diff(&t, &now).join(", ")))
            });
            if let Some(e) = e {
                report(ctx, "a user who may not write", c, &d, e, 1);
            }
        })
    });
}

/// Every file operation fails once.
fn io(ctx: &Ctx, sut: &dyn Sut, pool: &Pool, b: &Built) {
    let Some(bases) = pool.with(|w| crash::bases(ctx, sut, w)) else { return };
    let mut v: Vec<(String, Tree, Vec<String>)> = bases.into_iter().map(|b| (b.name, b.tree, b.cmd)).collect();
    // definitions in directories of directories
    let deep: Vec<_> = v
        .iter()
        .filter(|x| x.2[0] == "stage" && x.1.keys().any(|k| k.starts_with(DEFS) && k.ends_with(".yaml")))
        .map(|x| {
            let mut t = Tree::new();
            for (k, f) in &x.1 {
                match k.strip_prefix(DEFS).and_then(|r| r.strip_prefix('/')) {
                    Some(r) if r.ends_with(".yaml") => {
                        t.insert(format!("{DEFS}/a/b/{r}"), f.clone());
                        for d in ["/", "/a/", "/a/b/"] {
                            t.insert(format!("{DEFS}{d}"), vec![]);
                        }
                    }
                    _ => {
                        t.insert(k.clone(), f.clone());
                    }
                }
            }
            (format!("{}, definitions in database/definitions/a/b", x.0), t, x.2.clone())
        })
        .collect();
    v.extend(deep);
    for c in [&["status"][..], &["up"], &["down"], &["clone"], &["up", "--version", &b.chains[2][1]]] {
        v.push(("a database".into(), Tree::new(), strs(c)));
    }
    par(ctx, &v, |_, (name, t, c)| {
        pool.with(|w| {
            let srv = w.srv();
            let db = t.is_empty() && c[0] != "init";
            let t = if db { b.tree(2, &srv.url()) } else { t.clone() };
            let pg0 = empty_pg();
            let go = |f: Option<(usize, char, i32)>| {
                restore(&w.project(), &t);
                srv.reset(pg0.clone());
                let mut r = crash::cmd_run(c, f);
                r.trace = f.is_none();
                let d = w.run(&r);
                let pg = srv.settled();
                (d, visible(&tree(&w.project())), pg.and_then(|p| db_state(&p.base, &b.meta).ok()))
            };
            let (d0, t0, s0) = go(None);
            let goal = crash::sem(sut, &t0).ok();
            let reads = |o: &str| matches!(o, "read" | "list" | "get");
            let mut faults = vec![];
            for (k, o) in d0.ops.iter().filter(|o| !reads(&o.0)).enumerate() {
                for e in [5, 28, 13, 30] {
                    faults.push((k, 'e', e, format!("{} {}", o.0, o.1)));
                }
                if o.0 == "write" {
                    faults.push((k, 's', 28, format!("{} {}", o.0, o.1)));
                }
            }
            for (k, o) in d0.ops.iter().filter(|o| reads(&o.0)).enumerate() {
                for e in [5, 13] {
                    faults.push((k, 'r', e, format!("{} {}", o.0, o.1)));
                }
            }
            for (k, kind, e, at) in faults {
                let (d, t1, s1) = go(Some((k, kind, e)));
                ctx.count("transitions", 1);
                ctx.count("file_failures", 1);
                let x = basic(&d).or_else(|| {
                    if !d.ok() {
                        return None;
                    }
                    if !d0.ok() {
                        return Some("reports success, although even without the failure it cannot be done".into());
                    }
                    let s = crash::sem(sut, &t1).ok();
                    // what is only a file of another process may differ
                    if s != goal || s1 != s0 {
                        return Some(format!("reports success, but it is not done: {}", tree_diff(&t0, &t1).join(", ")));
                    }
                    None
                });
                if let Some(x) = x {
                    report(ctx, &format!("{name}; error {e} at {at}"), c, &d, x, k);
                }
            }
        })
    });
}
