//! C09: init, stage, make and reset interrupted at every file operation in every way, again and again.
use crate::cli::*;
use crate::fix::*;
use crate::flow::*;
use crate::json::J;
use crate::model::*;
use crate::report::{par, Ctx};
use crate::sut::{Out, Sut};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub const CONFIG: &str = ".podo.yaml";
const EIO: i32 = 5;
const ENOSPC: i32 = 28;
const EACCES: i32 = 13;

/// What a project means; temporary files do not count.
#[derive(Clone, Debug, PartialEq)]
pub struct Sem {
    pub config: Option<J>,
    pub hist: BTreeMap<String, Rec>,
    pub defs: BTreeMap<String, Vec<u8>>,
    pub dirs: BTreeSet<String>,
    pub other: BTreeMap<String, Vec<u8>>,
}

pub fn sem(sut: &dyn Sut, t: &Tree) -> Result<Sem, String> {
    let mut s = Sem { config: None, hist: BTreeMap::new(), defs: BTreeMap::new(), dirs: BTreeSet::new(), other: BTreeMap::new() };
    for (k, v) in t {
        if k.ends_with('/') {
            s.dirs.insert(k.clone());
        } else if k == CONFIG {
            s.config = Some(sut.yaml(&String::from_utf8_lossy(v)).map_err(|e| format!("{k} is no YAML: {e}"))?);
        } else if let Some(f) = k.strip_prefix(&format!("{HIST}/")).and_then(|f| f.strip_suffix(".yaml")) {
            s.hist.insert(f.to_string(), rec_file(sut, v).map_err(|e| format!("{k} is no version: {e}"))?);
        } else if k.ends_with(".yaml") && k.starts_with(DEFS) {
            s.defs.insert(k.clone(), v.clone());
        } else {
            s.other.insert(k.clone(), v.clone());
        }
    }
    Ok(s)
}

pub struct Base {
    pub name: String,
    pub tree: Tree,
    pub cmd: Vec<String>,
}

pub fn bases(ctx: &Ctx, sut: &dyn Sut, w: &World) -> Option<Vec<Base>> {
    let e = edits();
    let mut out = vec![];
    let a = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut add = |name: &str, t: &Tree, cmd: &[&str]| out.push(Base { name: name.into(), tree: t.clone(), cmd: a(cmd) });
    let mut now = Tree::new();
    add("an empty directory", &now, &["init"]);
    let mut t = Tree::new();
    t.insert("README.md".into(), b"x".to_vec());
    t.insert("database/".into(), vec![]);
    t.insert("database/notes".into(), b"y".to_vec());
    t.insert(format!("{DEFS}/"), vec![]);
    t.insert(format!("{DEFS}/public.yaml"), e[1].files[0].1.clone().into_bytes());
    add("definitions that exist", &t, &["init"]);
    let mut clock = 1704067200;
    let mut go = |t: &Tree, args: &[&str]| -> Option<Tree> {
        restore(&w.project(), t);
        clock += 1;
        let mut r = run(args);
        r.clock = Some(clock);
        let d = w.run(&r);
        if !d.ok() {
            ctx.fail(None, format!("podo {}: {}", args.join(" "), d.show()), J::strs(args), 1);
            return None;
        }
        Some(tree(&w.project()))
    };
    now = go(&now, &["init"])?;
    now.insert(CONFIG.into(), config(&[("database", "host=/nonexistent user=u dbname=d", HIST, DEFS, META)]).into_bytes());
    // the configuration was lost
    let mut t = now.clone();
    t.remove(CONFIG);
    add("a project without its configuration", &t, &["init"]);
    let d1 = with_defs(&now, &e[1]);
    add("a new project", &d1, &["stage"]);
    add("a new project", &d1, &["reset"]);
    add("a new project", &d1, &["make"]);
    let s1 = go(&d1, &["stage"])?;
    for c in [&["make", "--version", "x"][..], &["make"], &["reset"], &["stage"]] {
        add("a stage", &s1, c);
    }
    let s1b = with_defs(&s1, &e[2]);
    add("a stage and more to stage", &s1b, &["stage"]);
    add("a stage and more to stage", &s1b, &["make", "--version", "x"]);
    let s2 = go(&s1b, &["stage"])?;
    add("a stage of two parts", &s2, &["make", "--version", "x"]);
    add("a stage of two parts", &s2, &["reset"]);
    let m1 = go(&s2, &["make", "--version", "w"])?;
    let m1b = with_defs(&m1, &e[3]);
    add("a version", &m1, &["stage"]);
    add("a version", &m1b, &["stage"]);
    add("a version", &m1b, &["make"]);
    let s3 = go(&m1b, &["stage"])?;
    for c in [&["make", "--version", "x"][..], &["reset"], &["stage"]] {
        add("a version and a stage", &s3, c);
    }
    let mut t = s3.clone();
    t.remove(CONFIG);
    add("a version and a stage without their configuration", &t, &["init"]);
    let s3b = with_defs(&s3, &e[0]);
    add("a version and a stage and more to stage", &s3b, &["stage"]);
    let m2 = go(&s3b, &["make", "--version", "w"])?;
    let m2s = go(&m2, &["stage"])?;
    for c in [&["make", "--version", "x"][..], &["reset"], &["stage"]] {
        add("two versions and a stage", &m2s, c);
    }
    let _ = sut;
    Some(out)
}

const CLOCK: i64 = 1704070000;

pub fn cmd_run(cmd: &[String], fault: Option<(usize, char, i32)>) -> Run {
    let mut r = run(&cmd.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    r.clock = Some(CLOCK);
    r.fault = fault;
    r.names = ["public", "app", "t", "u", "v", "i", "q", "t_pk", "ck", "f(a int4)"].iter().map(|s| s.to_string()).collect();
    r
}

/// What an uninterrupted run leads to, also with what comes after it.
struct Goal {
    sem: Sem,
    later: Sem,
    ok: bool,
    snapshot: Option<Db>,
    before: Sem,
    before_snapshot: Option<Db>,
    /// what the same commands lead to if this one is not run at all
    instead: Option<Sem>,
}

fn snapshot(sut: &dyn Sut, w: &World) -> Option<Db> {
    match sut.hist_snapshot(&w.path(HIST), "stage") {
        Out::Ok(d) => Some(d.canon()),
        _ => None,
    }
}

/// What users do next.
fn later(sut: &dyn Sut, w: &World) -> Result<Sem, String> {
    for (i, c) in [&["stage"][..], &["make", "--version", "later"], &["stage"], &["reset"]].iter().enumerate() {
        let mut r = cmd_run(&c.iter().map(|s| s.to_string()).collect::<Vec<_>>(), None);
        r.clock = Some(CLOCK + 10 + i as i64);
        let d = w.run(&r);
        if !d.ok() {
            return Err(format!("podo {} afterwards: {}", c.join(" "), d.show()));
        }
    }
    let t = tree(&w.project());
    proj(sut, &t)?;
    sem(sut, &visible(&t))
}

/// Is everything that was recorded before still there, or the whole result?
fn intact(g: &Goal, s: &Sem, cmd: &str) -> Option<String> {
    for (k, r) in &g.before.hist {
        if k == "stage" {
            continue;
        }
        if s.hist.get(k) != Some(r) {
            return Some(format!("version {k:?} is {}", if s.hist.contains_key(k) { "changed" } else { "gone" }));
        }
    }
    for (k, r) in &s.hist {
        if !g.before.hist.contains_key(k) && g.sem.hist.get(k) != Some(r) {
            return Some(format!("there is a version {k:?} that no uninterrupted run makes"));
        }
    }
    let (a, b, c) = (g.before.hist.get("stage"), s.hist.get("stage"), g.sem.hist.get("stage"));
    if b != a && b != c {
        return Some("the stage is neither what it was nor what it should be".into());
    }
    if b == c && a != c && s.hist != g.sem.hist {
        return Some(format!("the stage is as after {cmd}, but the rest is not"));
    }
    for (k, v) in &g.before.defs {
        if s.defs.get(k) != Some(v) {
            return Some(format!("{k} is changed or gone"));
        }
    }
    for (k, v) in &s.defs {
        if !g.before.defs.contains_key(k) && g.sem.defs.get(k) != Some(v) {
            return Some(format!("{k} is not what it should be"));
        }
    }
    for (k, v) in &g.before.other {
        if s.other.get(k) != Some(v) {
            return Some(format!("{k} is changed or gone"));
        }
    }
    if s.config != g.before.config && s.config != g.sem.config {
        return Some("the configuration is neither what it was nor what it should be".into());
    }
    if g.before.config.is_none() && s.config.is_some() && *s != g.sem && (s.hist != g.sem.hist || s.defs != g.sem.defs) {
        return Some("the project exists, but a part of it is missing".into());
    }
    None
}

pub fn run_c09(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, false);
    let Some(bs) = pool.with(|w| bases(ctx, sut, w)) else { return };
    let mut goals = vec![];
    for b in &bs {
        let g = pool.with(|w| {
            restore(&w.project(), &b.tree);
            let before = sem(sut, &b.tree)?;
            let before_snapshot = snapshot(sut, w);
            let d = w.run(&cmd_run(&b.cmd, None));
            let t = tree(&w.project());
            let s = sem(sut, &t)?;
            if !d.ok() {
                return Err(d.show());
            }
            if b.cmd[0] == "init" {
                if let Some(k) = before.hist.iter().find(|(k, r)| s.hist.get(*k) != Some(r)).map(|x| x.0) {
                    return Err(format!("{k} of the history is changed or gone"));
                }
                if let Some(k) = before.defs.iter().find(|(k, r)| s.defs.get(*k) != Some(r)).map(|x| x.0) {
                    return Err(format!("{k} is changed or gone"));
                }
            }
            let sn = snapshot(sut, w);
            let later = later(sut, w)?;
            restore(&w.project(), &b.tree);
            let instead = if before.config.is_some() { Some(self::later(sut, w)?) } else { None };
            Ok(Goal { sem: s, later, ok: d.ok(), snapshot: sn, before, before_snapshot, instead })
        });
        match g {
            Ok(g) => goals.push(g),
            Err(e) => {
                ctx.fail(None, format!("without any fault, [{}] podo {}: {e}", b.name, b.cmd.join(" ")), J::s(b.name.as_str()), 1);
                return;
            }
        }
    }
    // (base, tree, how it was reached)
    let mut seen: Vec<BTreeSet<Tree>> = vec![BTreeSet::new(); bs.len()];
    let mut level: Vec<(usize, Tree, Vec<String>)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        seen[i].insert(visible(&b.tree));
        level.push((i, b.tree.clone(), vec![]));
    }
    let mut depth = 0;
    let deepest = if ctx.thorough { 6 } else { 3 };
    while !level.is_empty() && depth < deepest {
        depth += 1;
        ctx.count("states", level.len() as u64);
        // the operations of each run
        let jobs: Mutex<Vec<(usize, usize, char, i32, String)>> = Mutex::new(vec![]);
        let idx: Vec<usize> = (0..level.len()).collect();
        par(ctx, &idx, |_, &i| {
            let (b, t, path) = &level[i];
            // another command than the interrupted one comes next
            if !path.is_empty() && t.contains_key(CONFIG) {
                pool.with(|w| {
                    restore(&w.project(), t);
                    let g = &goals[*b];
                    let bad = |x: String| {
                        ctx.fail(
                            None,
                            format!("[{}] {}; then podo stage, make, stage and reset: {x}", bs[*b].name, path.join("; ")),
                            J::obj(vec![("project", J::s(bs[*b].name.as_str())), ("interruptions", J::strs(path)), ("files", J::s(show_tree(t))), ("wrong", J::s(x.as_str()))]),
                            path.len() * 100,
                        )
                    };
                    match later(sut, w) {
                        Err(x) => bad(x),
                        Ok(l) => {
                            ctx.count("continued_otherwise", 1);
                            if l != g.later && Some(&l) != g.instead.as_ref() {
                                bad(format!("this leads neither to what it leads to after an uninterrupted run nor to what it leads to without it: {}", tree_text(&l, &g.later)));
                            }
                        }
                    }
                });
            }
            let ops = pool.with(|w| {
                restore(&w.project(), t);
                let mut r = cmd_run(&bs[*b].cmd, None);
                r.trace = true;
                w.run(&r).ops
            });
            let reads = |o: &str| matches!(o, "read" | "list" | "get");
            let mut j = vec![];
            for (k, (o, p)) in ops.iter().filter(|o| !reads(&o.0)).enumerate() {
                let at = format!("{o} {p}");
                for (kind, e) in [('b', 0), ('a', 0), ('e', EIO), ('e', ENOSPC), ('e', EACCES)] {
                    j.push((i, k, kind, e, at.clone()));
                }
                if o == "write" {
                    for (kind, e) in [('s', ENOSPC), ('s', EIO), ('t', 0)] {
                        j.push((i, k, kind, e, at.clone()));
                    }
                }
            }
            for (k, (o, p)) in ops.iter().filter(|o| reads(&o.0)).enumerate() {
                for e in [EIO, EACCES] {
                    j.push((i, k, 'r', e, format!("{o} {p}")));
                }
            }
            ctx.max("operations of one command", ops.len() as u64);
            jobs.lock().unwrap().extend(j);
        });
        let mut jobs = jobs.into_inner().unwrap();
        jobs.sort();
        let next: Mutex<Vec<(usize, usize, Tree, Vec<String>)>> = Mutex::new(vec![]);
        par(ctx, &jobs, |n, (i, k, kind, e, at)| {
            let (b, t, path) = &level[*i];
            let base = &bs[*b];
            let g = &goals[*b];
            let how = match kind {
                'b' => "killed before".to_string(),
                'a' => "killed after".into(),
                't' => "killed within".into(),
                's' => format!("cut short with error {e}"),
                _ => format!("error {e}"),
            };
            let text = format!("podo {}: {how} operation {k} ({at})", base.cmd.join(" "));
            let mut path = path.clone();
            path.push(text.clone());
            pool.with(|w| {
                restore(&w.project(), t);
                let d = w.run(&cmd_run(&base.cmd, Some((*k, *kind, *e))));
                ctx.count("faults_injected", 1);
                ctx.count("transitions", 1);
                let got = tree(&w.project());
                let bad = |x: String| {
                    ctx.fail(
                        None,
                        format!("[{}] {text}: {x}", base.name),
                        J::obj(vec![
                            ("project", J::s(base.name.as_str())),
                            ("files before", J::s(show_tree(t))),
                            ("interruptions", J::strs(&path)),
                            ("result", J::s(d.show())),
                            ("files after", J::s(show_tree(&got))),
                            ("wrong", J::s(x.as_str())),
                        ]),
                        path.len() * 100 + k,
                    )
                };
                if d.crashed() && !(d.signal == Some(9) && "bat".contains(*kind)) {
                    return bad(format!("crashes: {}", d.show()));
                }
                let s = match sem(sut, &visible(&got)) {
                    Ok(s) => s,
                    Err(x) => return bad(x),
                };
                if let Some(x) = intact(g, &s, &base.cmd[0]) {
                    return bad(x);
                }
                let all = |s: &Sem| s.config == g.sem.config && s.hist == g.sem.hist && s.defs == g.sem.defs;
                // a made version next to the stage it was made from is what podo reads as made
                if d.ok() && !all(&s) && !(*kind == 'r' && path.len() > 1) {
                    let done = base.cmd[0] == "make" && path.len() > 1 && s.hist.keys().eq(g.sem.hist.keys());
                    if !done {
                        return bad(format!("reports success without being done: {}", d.show()));
                    }
                }
                // podo reads it
                let sn = snapshot(sut, w);
                if s.config.is_some() {
                    if sn.is_none() || (sn != g.before_snapshot && sn != g.snapshot) {
                        return bad(format!("podo reads the history otherwise afterwards: {}", sut.hist_snapshot(&w.path(HIST), "stage").show()));
                    }
                    let st = w.run(&cmd_run(&["status".to_string()], None));
                    if !st.ok() {
                        return bad(format!("podo status fails afterwards: {}", st.show()));
                    }
                }
                next.lock().unwrap().push((n, *b, visible(&got), path.clone()));
                // running it again leads to the same, and so does what comes then
                let r = w.run(&cmd_run(&base.cmd, None));
                if !r.ok() && g.ok {
                    return bad(format!("running it again fails: {}", r.show()));
                }
                let again = visible(&tree(&w.project()));
                match sem(sut, &again) {
                    Err(x) => return bad(format!("after running it again: {x}")),
                    Ok(a) => {
                        let same = all(&a) && a.dirs == g.sem.dirs;
                        let made = base.cmd[0] == "make" && a.hist.keys().eq(g.sem.hist.keys());
                        if !same && !made {
                            return bad(format!("running it again does not lead to what an uninterrupted run leads to: {}", tree_text(&a, &g.sem)));
                        }
                        if snapshot(sut, w) != g.snapshot {
                            return bad("running it again leads to another recorded schema than an uninterrupted run".into());
                        }
                    }
                }
                match later(sut, w) {
                    Err(x) => bad(x),
                    Ok(l) => {
                        if l != g.later {
                            bad(format!("continuing leads to something else than after an uninterrupted run: {}", tree_text(&l, &g.later)))
                        } else if n % 199 == 0 {
                            ctx.sample(J::obj(vec![("project", J::s(base.name.as_str())), ("interruptions", J::strs(&path)), ("result", J::s(d.show())), ("files after", J::s(show_tree(&got)))]));
                        }
                    }
                }
            });
        });
        ctx.count("traces_validated_against_impl", jobs.len() as u64);
        let mut v = next.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        level = vec![];
        for (_, b, t, p) in v {
            if seen[b].insert(t.clone()) {
                level.push((b, t, p));
            }
        }
    }
    clone_interrupted(ctx);
    ctx.max("interruptions in a row", depth as u64);
    if !level.is_empty() {
        ctx.note(format!("{} states after {depth} interruptions are not explored further", level.len()));
    }
    ctx.bound("projects", J::strs(&bs.iter().map(|b| format!("{}: podo {}", b.name, b.cmd.join(" "))).collect::<Vec<_>>()));
    ctx.bound("interruptions", J::s("at every changing file operation: killed before, after, within a write; EIO, ENOSPC, EACCES; a write cut short; every reading operation: EIO, EACCES; again at every operation of the command run again, until no new state is reached"));
    ctx.bound("clones", J::s("podo clone over no, other, and unreadable definitions of the public schema, of small schemas of the model server: the same faults, and run again with them"));
    ctx.assume("processes are killed and operations fail; a loss of power, which can lose operations that were done, is not modelled");
}

/// `podo clone` replaces the definitions of the public schema and touches nothing else.
fn clone_interrupted(ctx: &Ctx) {
    const FILE: &str = "database/definitions/public.yaml";
    let pool = Pool::new(ctx, true);
    let mut project = Tree::new();
    for d in ["database/", "database/definitions/", "database/history/"] {
        project.insert(d.into(), vec![]);
    }
    project.insert("database/definitions/app.yaml".into(), b"schema app:\n  table t:\n    column x: int4\n".to_vec());
    project.insert("database/history/init.yaml".into(), b"name: init\nprevious: null\nchanges: []\nup: []\ndown: []\n".to_vec());
    let mut bases = vec![("no definitions of the public schema", project.clone())];
    project.insert(FILE.into(), format!("schema public:\n  table old:\n    column x: int4\n{}", "  # a comment\n".repeat(200)).into_bytes());
    bases.push(("definitions of the public schema", project.clone()));
    project.insert(FILE.into(), b"schema public:\n  function broken\n".to_vec());
    bases.push(("definitions that cannot be loaded", project.clone()));
    let db = Db::init()
        .table("public", "t", Table::new(vec![Col::new("a", "int4").nn(), Col::new("b", "text").def("'x'")]).con("k", Con::pk(&["a"])).con("c", Con::ck("a > 0")))
        .rel("public", "v", Rel::View("SELECT a FROM public.t".into()))
        .func("public", "f()", Func::new("SELECT 1"));
    let cats: Vec<crate::pg::Cat> = [Db::init(), db].iter().map(|d| crate::pg::build(d).unwrap_or_else(|e| panic!("the model cannot hold {}: {e:?}", d.show()))).collect();
    let cmd = vec!["clone".to_string()];
    let mut level: Vec<(usize, usize, Tree, Vec<String>)> = vec![];
    for b in 0..bases.len() {
        for c in 0..cats.len() {
            level.push((b, c, bases[b].1.clone(), vec![]));
        }
    }
    let mut seen: BTreeSet<(usize, usize, Tree)> = level.iter().map(|l| (l.0, l.1, visible(&l.2))).collect();
    // each worker has its own server, whose address the configuration holds
    let prepare = |w: &World, t: &Tree, c: usize| {
        restore(&w.project(), t);
        put(&w.project(), CONFIG, &config(&[("database", &w.srv().url(), HIST, DEFS, META)]));
        w.srv().reset(crate::engine::Pg::new(cats[c].clone()));
    };
    let rest = |t: &Tree| -> Tree {
        let mut t = visible(t);
        t.remove(FILE);
        t.remove(CONFIG);
        t
    };
    for _ in 0..if ctx.thorough { 4 } else { 2 } {
        let jobs: Mutex<Vec<(usize, usize, char, i32, String)>> = Mutex::new(vec![]);
        let goals: Mutex<BTreeMap<usize, Vec<u8>>> = Mutex::new(BTreeMap::new());
        let idx: Vec<usize> = (0..level.len()).collect();
        par(ctx, &idx, |_, &i| {
            let (b, c, t, path) = &level[i];
            pool.with(|w| {
                prepare(w, t, *c);
                let mut r = cmd_run(&cmd, None);
                r.trace = true;
                let d = w.run(&r);
                let after = tree(&w.project());
                let Some(new) = after.get(FILE).filter(|_| d.ok()) else {
                    ctx.fail(None, format!("[{}] {} podo clone: {}", bases[*b].0, path.join("; "), d.show()), J::s(show_tree(t)), 10 + path.len());
                    return;
                };
                goals.lock().unwrap().insert(i, new.clone());
                let reads = |o: &str| matches!(o, "read" | "list" | "get");
                let mut j = vec![];
                for (k, (o, p)) in d.ops.iter().filter(|o| !reads(&o.0)).enumerate() {
                    for (kind, e) in [('b', 0), ('a', 0), ('e', EIO), ('e', ENOSPC), ('e', EACCES), ('s', ENOSPC), ('s', EIO), ('t', 0)] {
                        if o == "write" || "bae".contains(kind) {
                            j.push((i, k, kind, e, format!("{o} {p}")));
                        }
                    }
                }
                for (k, (o, p)) in d.ops.iter().filter(|o| reads(&o.0)).enumerate() {
                    for e in [EIO, EACCES] {
                        j.push((i, k, 'r', e, format!("{o} {p}")));
                    }
                }
                jobs.lock().unwrap().extend(j);
            });
        });
        let (mut jobs, goals) = (jobs.into_inner().unwrap(), goals.into_inner().unwrap());
        jobs.sort();
        let next: Mutex<Vec<(usize, usize, usize, Tree, Vec<String>)>> = Mutex::new(vec![]);
        par(ctx, &jobs, |n, (i, k, kind, e, at)| {
            let (b, c, t, path) = &level[*i];
            let new = &goals[i];
            let text = format!("podo clone: fault {kind} {e} at operation {k} ({at})");
            let mut path = path.clone();
            path.push(text.clone());
            pool.with(|w| {
                prepare(w, t, *c);
                let d = w.run(&cmd_run(&cmd, Some((*k, *kind, *e))));
                ctx.count("faults_injected", 1);
                ctx.count("clones_interrupted", 1);
                ctx.count("transitions", 1);
                let got = tree(&w.project());
                let bad = |x: String| {
                    ctx.fail(
                        None,
                        format!("[{}] {text}: {x}", bases[*b].0),
                        J::obj(vec![
                            ("project", J::s(bases[*b].0)),
                            ("files before", J::s(show_tree(t))),
                            ("interruptions", J::strs(&path)),
                            ("result", J::s(d.show())),
                            ("files after", J::s(show_tree(&got))),
                            ("wrong", J::s(x.as_str())),
                        ]),
                        path.len() * 100 + k,
                    )
                };
                if d.crashed() && !(d.signal == Some(9) && "bat".contains(*kind)) {
                    return bad(format!("crashes: {}", d.show()));
                }
                if got.get(FILE) != t.get(FILE) && got.get(FILE) != Some(new) {
                    return bad("the definitions are neither what they were nor the clone".into());
                }
                if rest(&got) != rest(t) || !got.contains_key(CONFIG) {
                    return bad("other files are changed".into());
                }
                if d.ok() && got.get(FILE) != Some(new) {
                    return bad("reports success without being done".into());
                }
                let mut state = visible(&got);
                state.remove(CONFIG);
                next.lock().unwrap().push((n, *b, *c, state, path.clone()));
                w.srv().reset(crate::engine::Pg::new(cats[*c].clone()));
                let r = w.run(&cmd_run(&cmd, None));
                let again = tree(&w.project());
                if !r.ok() {
                    return bad(format!("running it again fails: {}", r.show()));
                }
                if again.get(FILE) != Some(new) || rest(&again) != rest(t) {
                    bad("running it again does not lead to what an uninterrupted run leads to".into());
                }
            });
        });
        ctx.count("traces_validated_against_impl", jobs.len() as u64);
        let mut v = next.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        level = vec![];
        for (_, b, c, t, p) in v {
            if seen.insert((b, c, visible(&t))) {
                level.push((b, c, t, p));
            }
        }
        ctx.count("states", level.len() as u64);
    }
}

fn tree_text(a: &Sem, b: &Sem) -> String {
    let mut o = vec![];
    if a.config != b.config {
        o.push("the configuration differs".to_string());
    }
    for k in a.hist.keys().chain(b.hist.keys()).collect::<BTreeSet<_>>() {
        match (a.hist.get(k), b.hist.get(k)) {
            (Some(_), None) => o.push(format!("version {k} is too much")),
            (None, Some(_)) => o.push(format!("version {k} is missing")),
            (Some(x), Some(y)) if x != y => o.push(format!("version {k} differs")),
            _ => {}
        }
    }
    if a.defs != b.defs {
        o.push("the definitions differ".into());
    }
    if a.dirs != b.dirs {
        o.push("the directories differ".into());
    }
    if a.other != b.other {
        o.push("other files differ".into());
    }
    o.join(", ")
}
