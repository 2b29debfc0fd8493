//! C10, C11, C15 (part), C17: the real program against the model server.
use crate::cli::*;
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::Db;
use crate::pg::Cat;
use crate::report::{par, Ctx};
use crate::srv::*;
use crate::sut::Sut;
use crate::wire;
use std::collections::BTreeMap;
use std::sync::Mutex;

/// A database state and how it was reached.
#[derive(Clone)]
pub struct Node {
    pub pg: Pg,
    pub st: DbState,
    /// schema after each row
    pub after: Vec<Db>,
    pub path: Vec<String>,
}

/// What a command should do.
#[derive(Debug)]
pub enum Want {
    /// the state stays; true: it is an error
    Stay(bool),
    /// rows and the schema after each of them
    Move(Vec<Rec>, Vec<Db>),
}

pub fn expect(b: &Built, h: usize, n: &Node, cmd: &[String]) -> Want {
    let chain = &b.chains[h];
    let target = cmd.get(2);
    let (mut rows, mut after) = match &n.st.rows {
        Some(r) => (r.clone(), n.after.clone()),
        None => (vec![b.recs[h]["init"].clone()], vec![normal(&b.dbs[0])]),
    };
    let pos = |x: &str| chain.iter().position(|y| y == x);
    match cmd[0].as_str() {
        "up" => {
            let t = match target {
                None => chain.len() - 2,
                Some(t) => match pos(t) {
                    Some(i) => i,
                    None => return Want::Stay(true),
                },
            };
            let Some(c) = rows.last().and_then(|r| pos(&r.name)) else { return Want::Stay(true) };
            if c > t {
                return Want::Stay(true);
            }
            for i in c + 1..=t {
                rows.push(b.recs[h][&chain[i]].clone());
                after.push(normal(&b.dbs[i]));
            }
        }
        _ => {
            let t = match target {
                None => rows.len().max(2) - 2,
                Some(t) => match rows.iter().position(|r| r.name == *t) {
                    Some(i) => i,
                    None => return Want::Stay(true),
                },
            };
            rows.truncate(t + 1);
            after.truncate(t + 1);
        }
    }
    if n.st.rows.as_ref() == Some(&rows) {
        Want::Stay(false)
    } else {
        Want::Move(rows, after)
    }
}

pub fn consistent(b: &Built, st: &DbState, after: &[Db]) -> Option<String> {
    let want = after.last().cloned().unwrap_or_else(|| normal(&b.dbs[0]));
    if st.schema != want {
        return Some(format!("recorded version {:?}, but the schema differs from its: {}", st.names().last(), st.schema.diff_text(&want)));
    }
    None
}

fn cmds(b: &Built, h: usize) -> Vec<Vec<String>> {
    let mut targets: Vec<String> = b.chains.last().unwrap().clone();
    targets.push("nonesuch".into());
    targets.push("".into());
    targets.push(format!("{}x", b.chains[h].last().unwrap()));
    let mut out = vec![];
    for c in ["up", "down"] {
        out.push(vec![c.to_string()]);
        for t in &targets {
            out.push(vec![c.to_string(), "--version".into(), t.clone()]);
        }
    }
    out
}

pub fn case(b: &Built, h: usize, n: &Node, cmd: &[String], d: Option<&Done>, more: Vec<(&str, J)>) -> J {
    let mut v = vec![
        ("history", J::s(b.name.as_str())),
        ("versions made", J::I(h as i64)),
        ("chain", J::strs(&b.chains[h])),
        ("database before", J::s(n.st.show())),
        ("reached by", J::strs(&n.path)),
        ("command", J::strs(cmd)),
    ];
    if let Some(d) = d {
        v.push(("result", J::s(d.show())));
    }
    v.extend(more);
    J::obj(v)
}

pub fn args(cmd: &[String]) -> Vec<&str> {
    cmd.iter().map(|s| s.as_str()).collect()
}

/// Same state up to the version table's counters.
fn key(h: usize, st: &DbState) -> String {
    format!("{h} {:?}", st)
}

/// Every reachable (history, database) state, by every command; `judge` sees each run.
pub fn explore(ctx: &Ctx, sut: &dyn Sut, pool: &Pool, b: &Built, judge: &(dyn Fn(&Built, usize, &Node, &[String], &Want, &Done, &Result<DbState, String>, &[Cat]) + Sync)) -> Vec<(usize, Node)> {
    let first = Node { pg: empty_pg(), st: db_state(&Cat::new(), &b.meta).unwrap(), after: vec![], path: vec![] };
    let mut seen: BTreeMap<String, ()> = BTreeMap::new();
    let mut all: Vec<(usize, Node)> = vec![];
    let mut todo: Vec<(usize, Node)> = vec![];
    for h in 0..b.trees.len() {
        seen.insert(key(h, &first.st), ());
        todo.push((h, first.clone()));
    }
    let mut depth = 0;
    while !todo.is_empty() && depth < 12 {
        depth += 1;
        let mut jobs = vec![];
        for (h, n) in &todo {
            for c in cmds(b, *h) {
                jobs.push((*h, n.clone(), c));
            }
        }
        all.extend(todo.drain(..));
        let next: Mutex<Vec<(usize, Node)>> = Mutex::new(vec![]);
        par(ctx, &jobs, |_, (h, n, c)| {
            let w = expect(b, *h, n, c);
            let (d, pg, commits) = pool.with(|wd| {
                restore(&wd.project(), &b.tree(*h, &wd.srv().url()));
                wd.srv().reset(n.pg.clone());
                let d = wd.run(&run(&args(c)));
                (d, wd.srv().settled(), wd.srv().commits())
            });
            ctx.count("transitions", 1);
            let Some(pg) = pg else {
                ctx.fail(None, "the connection stays open after podo ended".into(), case(b, *h, n, c, Some(&d), vec![]), 5);
                return;
            };
            let st = db_state(&pg.base, &b.meta);
            judge(b, *h, n, c, &w, &d, &st, &commits);
            let (Ok(st), Want::Move(rows, after)) = (st, w) else { return };
            if st.rows.as_ref() == Some(&rows) {
                let mut path = n.path.clone();
                path.push(format!("podo {} ({} versions made)", c.join(" "), h));
                next.lock().unwrap().push((*h, Node { pg, st, after, path }));
            }
        });
        let mut nx = next.into_inner().unwrap();
        nx.sort_by_key(|x| x.1.path.clone());
        for (h, n) in nx {
            // the history may have grown or be an older one when the next command runs
            let staged = n.st.names().last().map_or(false, |x| x == "stage");
            for h2 in 0..b.trees.len() {
                if h2 != h && staged {
                    continue;
                }
                if seen.insert(key(h2, &n.st), ()).is_none() {
                    todo.push((h2, n.clone()));
                }
            }
        }
    }
    ctx.count("states", all.len() as u64);
    ctx.max("depth", depth as u64);
    all
}

fn judge_effect(b: &Built, n: &Node, w: &Want, st: &Result<DbState, String>) -> Option<String> {
    let st = match st {
        Ok(s) => s,
        Err(e) => return Some(format!("the database's record is broken: {e}")),
    };
    match w {
        Want::Stay(e) => {
            let init = n.st.rows.is_none() && !*e && st.names() == ["init"] && st.schema == n.st.schema;
            if *st != n.st && !init && !(n.st.rows.is_none() && st.names() == ["init"] && st.schema == n.st.schema) {
                return Some(format!("nothing was to change, but the database went from {} to {}", n.st.show(), st.show()));
            }
            None
        }
        Want::Move(rows, after) => {
            if n.st.rows.is_none() && rows.len() == 1 && st.rows.is_none() && st.schema == n.st.schema {
                return None;
            }
            let got: Vec<String> = st.names();
            let want: Vec<String> = rows.iter().map(|r| r.name.clone()).collect();
            if got != want {
                return Some(format!("recorded versions are {got:?} instead of {want:?}"));
            }
            if st.rows.as_ref() != Some(rows) {
                let i = rows.iter().zip(st.rows.as_ref().unwrap()).position(|(a, b)| a != b).unwrap();
                return Some(format!("the record of version {:?} differs from the history: {:?} instead of {:?}", want[i], st.rows.as_ref().unwrap()[i], rows[i]));
            }
            consistent(b, st, after)
        }
    }
}

pub fn run_c10(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    let Some(bs) = build_all(ctx, sut, &pool) else { return };
    for b in &bs {
        let all = explore(ctx, sut, &pool, b, &|b, h, n, c, w, d, st, commits| {
            let mut e = judge_effect(b, n, w, st);
            if e.is_none() {
                // every state others could see in between
                for cat in commits {
                    ctx.count("committed_states_seen", 1);
                    match db_state(cat, &b.meta) {
                        Err(x) => e = Some(format!("for a while the database's record is broken: {x}")),
                        Ok(s) => {
                            let last = s.names().last().cloned();
                            let want = match (&last, w) {
                                (None, _) => Some(normal(&b.dbs[0])),
                                (Some(l), Want::Move(rows, after)) => rows.iter().position(|r| r.name == *l).map(|i| after[i].clone()),
                                _ => None,
                            };
                            let want = want.or_else(|| last.as_ref().and_then(|l| n.st.names().iter().position(|r| r == l)).map(|i| n.after[i].clone()));
                            let want = want.or_else(|| (last.as_deref() == Some("init")).then(|| normal(&b.dbs[0])));
                            if want.as_ref() != Some(&s.schema) {
                                e = Some(format!("for a while the committed schema is not that of the recorded version {last:?}"));
                            }
                        }
                    }
                }
            }
            if let Some(e) = e {
                ctx.fail(None, format!("podo {} on a database at {:?}: {e}", c.join(" "), n.st.names().last()), case(b, h, n, c, Some(d), vec![]), n.path.len() + n.st.names().len());
            }
        });
        for (h, n) in all.iter().rev().take(4) {
            ctx.sample(J::obj(vec![("history", J::s(b.name.as_str())), ("versions made", J::I(*h as i64)), ("database", J::strs(&n.st.names())), ("reached by", J::strs(&n.path))]));
        }
    }
    ctx.count("traces_validated_against_impl", 0);
    let c = ctx.get("transitions");
    ctx.count("traces_validated_against_impl", c);
    ctx.bound("histories", J::s("two histories of 3 and 4 versions and a stage, made by the real program; every number of versions made from 0 to all, also fewer than the database records"));
    ctx.bound("commands", J::s("up and down without target and with every version of the full chain, init, stage and unknown names, from every database state reachable by any sequence of them"));
    ctx.assume("the model server stands for PostgreSQL 15 (no server is available); it executes the statements podo sends over the wire protocol on a catalogue and transaction model");
    ctx.assume("database states that differ only in the version table's counters behave alike; a staged version in the database is only followed by commands on the same history");
}

pub fn run_c11(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    let Some(bs) = build_all(ctx, sut, &pool) else { return };
    for (bi, b) in bs.iter().enumerate() {
        let top = b.trees.len() - 1;
        // all database states; faults on the full history (thorough: on every history)
        let quiet = |_: &Built, _: usize, _: &Node, _: &[String], _: &Want, _: &Done, _: &Result<DbState, String>, _: &[Cat]| {};
        let all = explore(ctx, sut, &pool, b, &quiet);
        let mut jobs = vec![];
        for (h, n) in &all {
            if *h != top && !ctx.thorough {
                continue;
            }
            for c in cmds(b, *h) {
                if bi > 0 && !ctx.thorough && c.len() == 3 {
                    continue;
                }
                let stay = matches!(expect(b, *h, n, &c), Want::Stay(_));
                // of the commands that change nothing, one of each kind
                if stay && c.len() == 3 && c[2] != "nonesuch" {
                    continue;
                }
                jobs.push((*h, n.clone(), c));
            }
        }
        par(ctx, &jobs, |_, (h, n, c)| {
            pool.with(|w| {
                restore(&w.project(), &b.tree(*h, &w.srv().url()));
                let srv = w.srv();
                srv.reset(n.pg.clone());
                let d = w.run(&run(&args(c)));
                let units = srv.log();
                let Some(pg) = srv.settled() else { return };
                let Ok(goal) = db_state(&pg.base, &b.meta) else { return };
                let Want::Stay(_) = expect(b, *h, n, c) else {
                    return faults(ctx, b, *h, n, c, w, &units, &goal, d.ok());
                };
                faults(ctx, b, *h, n, c, w, &units, &goal, d.ok());
            });
        });
    }
    let c = ctx.get("executions");
    ctx.count("traces_validated_against_impl", c);
    ctx.bound("faults", J::s("at every request of every run: rejected with PostgreSQL's usual errors (6 kinds, thorough: 13), FATAL, connection ends before / after / within the answer, podo killed before / after; one fault per run"));
    ctx.bound("commands", J::s("up and down without target, with every target that changes something and with an unknown one, from every reachable database state"));
    ctx.assume("a rejected COMMIT is rolled back by the server; after a FATAL error or a lost connection the server rolls the open transaction back");
    ctx.assume("the model server stands for PostgreSQL 15 (no server is available)");
}

fn faults(ctx: &Ctx, b: &Built, h: usize, n: &Node, c: &[String], w: &World, units: &[Entry], goal: &DbState, ok: bool) {
    let srv = w.srv();
    for k in 0..units.len() {
        let codes = if ctx.thorough { CODES.len() } else { 5 };
        for f in FAULTS.into_iter().chain((0..codes).map(Fault::As)) {
            if ctx.too_many() {
                return;
            }
            if matches!(f, Fault::Reject | Fault::As(_)) && units[k].unit.iter().all(|m| matches!(m, wire::Msg::Terminate | wire::Msg::CloseStmt(_) | wire::Msg::Sync)) {
                continue;
            }
            srv.reset(n.pg.clone());
            srv.set_fault(Some((k, f)));
            let d = w.run(&run(&args(c)));
            ctx.count("executions", 1);
            let end = srv.settled();
            if !srv.fired() {
                continue;
            }
            ctx.count("faults_injected", 1);
            let at = wire::show(&units[k].unit);
            let bad = |e: String| {
                ctx.fail(
                    None,
                    format!("podo {} with {f:?} at request {k} ({}): {e}", c.join(" "), short(&at)),
                    case(b, h, n, c, Some(&d), vec![("fault", J::s(format!("{f:?}"))), ("request", J::I(k as i64)), ("what", J::s(at.clone()))]),
                    n.path.len() * 100 + k,
                )
            };
            let Some(pg) = end else {
                bad("the connection stays open after podo ended".into());
                continue;
            };
            if d.hung {
                bad("podo does not end".into());
                continue;
            }
            match db_state(&pg.base, &b.meta) {
                Err(e) => bad(format!("the database's record is broken: {e}")),
                Ok(s) => {
                    if s == *goal {
                        ctx.count("ended_complete", 1);
                    } else if s == n.st {
                        ctx.count("ended_unchanged", 1);
                        if d.ok() {
                            bad(format!("reports success, but nothing was committed: {}", s.show()));
                        }
                    } else {
                        bad(format!("only a part is committed: {} (before: {})", s.show(), n.st.show()));
                    }
                    if d.ok() && !ok {
                        bad("reports success although even without the fault it fails".into());
                    }
                }
            }
        }
    }
}

/// Schemas with names much like that of the metadata schema, used as such by others.
fn beside(meta: &str) -> Vec<String> {
    let other: String = meta.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    let mut out = vec![];
    for n in [other, meta.replace('_', "x"), format!("{meta}_2"), format!("{meta} "), meta[1..].to_string()] {
        if n != meta {
            let q = format!("\"{}\"", n.replace('"', "\"\""));
            out.push(format!("CREATE SCHEMA {q}"));
            out.push(format!("CREATE TABLE {q}.version (name varchar(128), previous varchar(128), changes json, up text[], down text[], applied_at timestamp, applied_order int4)"));
        }
    }
    out
}

fn word_in(text: &str, word: &str) -> bool {
    let edge = |c: Option<char>| c.map_or(true, |c| !(c.is_alphanumeric() || c == '_' || c == '-'));
    text.match_indices(word).any(|(i, _)| edge(text[..i].chars().last()) && edge(text[i + word.len()..].chars().next()))
}

pub fn run_c17(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    let Some(bs) = build_all(ctx, sut, &pool) else { return };
    for b in &bs {
        let quiet = |_: &Built, _: usize, _: &Node, _: &[String], _: &Want, _: &Done, _: &Result<DbState, String>, _: &[Cat]| {};
        let mut all = explore(ctx, sut, &pool, b, &quiet);
        // databases that hold something else
        let q = format!("\"{}\"", b.meta.replace('"', "\"\""));
        for sql in [
            vec![format!("CREATE SCHEMA {q}")],
            vec![format!("CREATE SCHEMA {q}"), format!("CREATE TABLE {q}.version (name varchar(128) NOT NULL PRIMARY KEY)")],
            vec!["CREATE TABLE public.zz (a int4)".to_string()],
            beside(&b.meta),
        ] {
            let mut cat = Cat::new();
            for s in &sql {
                cat.exec(s).unwrap();
            }
            for h in 0..b.trees.len() {
                let st = DbState { schema: Db::init(), rows: None, data: Default::default() };
                all.push((h, Node { pg: Pg::new(cat.clone()), st, after: vec![], path: sql.clone() }));
            }
        }
        // the project may have nothing staged, nothing unstaged, several files or none
        let variants = 4;
        let mut jobs = vec![];
        for (h, n) in &all {
            for v in 0..variants {
                jobs.push((*h, n.clone(), v));
            }
        }
        par(ctx, &jobs, |_, (h, n, v)| {
            pool.with(|w| {
                let srv = w.srv();
                let mut t = b.tree(*h, &srv.url());
                let empty_stage = format!("name: stage\nprevious: {:?}\nchanges: []\nup: []\ndown: []\n", b.chains[*h][b.chains[*h].len() - 2]);
                match v {
                    1 => {
                        t.insert("database/history/stage.yaml".into(), empty_stage.into_bytes());
                    }
                    2 => {
                        t.insert("database/definitions/public.yaml".into(), doc_text(&b.dbs[h + 1]).into_bytes());
                    }
                    3 => {
                        t.insert("database/history/stage.yaml".into(), empty_stage.into_bytes());
                        t.insert("database/definitions/public.yaml".into(), doc_text(&b.dbs[*h]).into_bytes());
                        t.insert("database/history/.stage.yaml.77.tmp".into(), b"half".to_vec());
                        t.insert("notes.txt".into(), b"mine".to_vec());
                    }
                    _ => {}
                }
                restore(&w.project(), &t);
                let c = vec!["status".to_string()];
                let go = |what: &str, fault: Option<(usize, Fault)>, refused: bool| -> Vec<Entry> {
                    srv.reset(n.pg.clone());
                    srv.refuse(refused);
                    srv.set_fault(fault);
                    let d = w.run(&run(&["status"]));
                    ctx.count("executions", 1);
                    let log = srv.log();
                    let bad = |e: String| {
                        ctx.fail(
                            None,
                            format!("podo status ({what}) on a database with {}: {e}", n.st.show()),
                            case(b, *h, n, &c, Some(&d), vec![("project variant", J::I(*v as i64)), ("circumstance", J::s(what))]),
                            n.path.len() * 10 + log.len(),
                        )
                    };
                    let now = tree(&w.project());
                    if now != t {
                        bad(format!("project files: {}", tree_diff(&t, &now).join(", ")));
                        restore(&w.project(), &t);
                    }
                    match srv.settled() {
                        None => bad("the connection stays open".into()),
                        Some(pg) => {
                            if pg.base != n.pg.base || srv.commits().iter().any(|c| *c != n.pg.base) {
                                bad("the database is changed".into());
                            }
                        }
                    }
                    if d.hung {
                        bad("does not end".into());
                    }
                    let known: Vec<&String> = b.chains.iter().flatten().filter(|x| *x != "stage" && *x != "init").collect();
                    if fault.is_none() && !refused {
                        match n.st.names().last() {
                            Some(cur) => {
                                if !word_in(&d.out, cur) {
                                    bad(format!("the recorded version {cur:?} is not reported: {}", d.show()));
                                }
                                if let Some(o) = known.iter().find(|x| **x != cur && word_in(&d.out, x)) {
                                    bad(format!("version {o:?} is reported, not only the recorded {cur:?}: {}", d.show()));
                                }
                            }
                            None => {
                                if let Some(o) = known.iter().find(|x| word_in(&d.out, x)) {
                                    bad(format!("version {o:?} is reported for a database that records none: {}", d.show()));
                                }
                            }
                        }
                    }
                    log
                };
                let log = go("database reachable", None, false);
                // what other schemas hold does not matter
                if n.path == beside(&b.meta) {
                    let mut say = vec![];
                    for pg in [empty_pg(), n.pg.clone()] {
                        srv.reset(pg);
                        say.push(w.run(&run(&["status"])));
                        ctx.count("executions", 1);
                    }
                    if say[0].code != say[1].code || say[0].out != say[1].out {
                        ctx.fail(
                            None,
                            format!("podo status on a database that records no version, but has other schemas: {} instead of {}", say[1].show(), say[0].show()),
                            case(b, *h, n, &c, Some(&say[1]), vec![("project variant", J::I(*v as i64))]),
                            n.path.len() * 10,
                        );
                    }
                }
                go("connection refused", None, true);
                if *v == 0 {
                    for k in 0..log.len() {
                        for f in FAULTS {
                            go(&format!("{f:?} at request {k}"), Some((k, f)), false);
                        }
                    }
                }
            });
        });
    }
    let c = ctx.get("executions");
    ctx.count("traces_validated_against_impl", c);
    ctx.bound("database states", J::s("every state reachable by up and down commands on histories of 0 to 4 versions, foreign and half made metadata schemas, refused connections, every fault at every request"));
    ctx.bound("project states", J::s("with and without staged and unstaged changes"));
    ctx.assume("the model server stands for PostgreSQL 15 (no server is available)");
}
