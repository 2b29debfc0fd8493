//! C13: every command with every selection of a profile, in nested projects, against the same command in a
//! project that has nothing else; and what is read and contacted.
use crate::cli::*;
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::Cat;
use crate::report::{par, Ctx};
use crate::srv::Server;
use crate::sut::Sut;
use std::sync::Mutex;

struct Two {
    w: World,
    b: Server,
}
struct Worlds<'a> {
    ctx: &'a Ctx,
    free: Mutex<Vec<Two>>,
    n: Mutex<usize>,
}
impl Worlds<'_> {
    fn with<T>(&self, f: impl FnOnce(&Two) -> T) -> T {
        let x = self.free.lock().unwrap().pop();
        let x = x.unwrap_or_else(|| {
            let mut n = self.n.lock().unwrap();
            *n += 1;
            let w = World::new(self.ctx, &format!("w{n}"), true);
            let b = Server::start(&w.root.join("db2"));
            Two { w, b }
        });
        let r = f(&x);
        self.free.lock().unwrap().push(x);
        r
    }
}

/// Values of a profile; `url` 0 or 1.
#[derive(Clone, Debug, PartialEq)]
struct Attr {
    url: usize,
    hist: String,
    defs: String,
    meta: String,
}
fn attr(url: usize, h: &str, d: &str, m: &str) -> Attr {
    Attr { url, hist: h.into(), defs: d.into(), meta: m.into() }
}

#[derive(Clone, Debug, PartialEq)]
struct Effect {
    code: bool,
    out: String,
    tree: Tree,
    dbs: Vec<Option<(DbState, DbState)>>,
}

type Profiles = Vec<(String, Attr)>;

struct Case {
    what: String,
    /// (directory, its profiles) in the project tree
    configs: Vec<(String, Profiles)>,
    files: Tree,
    cwd: String,
    cmd: Vec<String>,
    /// databases at the beginning
    pgs: Vec<Pg>,
    /// the directory of the project that should be used and the values; None: an error without effect
    sel: Option<(String, Attr)>,
}

fn cfg(x: &Two, p: &Profiles) -> Vec<u8> {
    let urls = [x.w.srv().url(), x.b.url()];
    // @ is where the project is
    let root = x.w.project().to_string_lossy().into_owned();
    let p: Profiles = p.iter().map(|(n, a)| (n.clone(), Attr { hist: a.hist.replace('@', &root), defs: a.defs.replace('@', &root), ..a.clone() })).collect();
    let v: Vec<(&str, &str, &str, &str, &str)> = p.iter().map(|(n, a)| (n.as_str(), urls[a.url].as_str(), a.hist.as_str(), a.defs.as_str(), a.meta.as_str())).collect();
    config(&v).into_bytes()
}

const CLOCK: i64 = 1704067200;

fn order_names() -> Vec<String> {
    ["public", "t", "u", "ta", "tb", "ua", "ub"].iter().map(|s| s.to_string()).collect()
}

fn go(x: &Two, tree_in: &Tree, pgs: &[Pg], cwd: &str, cmd: &[String]) -> (Effect, Done, [usize; 2]) {
    restore(&x.w.project(), tree_in);
    let srv = [x.w.srv(), &x.b];
    for (s, p) in srv.iter().zip(pgs) {
        s.reset(p.clone());
    }
    let mut r = run(&cmd.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    r.cwd = Some(if cwd.is_empty() { x.w.project() } else { x.w.path(cwd) });
    r.trace = true;
    r.clock = Some(CLOCK);
    r.names = order_names();
    let d = x.w.run(&r);
    let dbs = srv
        .iter()
        .map(|s| s.settled().and_then(|p| Some((db_state(&p.base, "m1").ok()?, db_state(&p.base, "m2").ok()?))))
        .collect();
    let n = [srv[0].log().len(), srv[1].log().len()];
    (Effect { code: d.ok(), out: d.out.clone(), tree: visible(&tree(&x.w.project())), dbs }, d, n)
}

fn norm_path(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

fn judge(ctx: &Ctx, x: &Two, c: &Case) {
    let mut t = c.files.clone();
    for (dir, p) in &c.configs {
        t.insert(format!("{dir}.podo.yaml"), cfg(x, p));
    }
    for (d, _) in c.cwd.match_indices('/').map(|(i, _)| (&c.cwd[..i + 1], 0)).chain([(c.cwd.as_str(), 0)]) {
        if !d.is_empty() {
            t.insert(format!("{}/", d.trim_end_matches('/')), vec![]);
        }
    }
    let (e, d, n) = go(x, &t, &c.pgs, &c.cwd, &c.cmd);
    ctx.count("transitions", 1);
    let text = format!("[{}] in {:?}: podo {}", c.what, if c.cwd.is_empty() { "." } else { &c.cwd }, c.cmd.join(" "));
    let bad = |s: String| {
        ctx.fail(
            None,
            format!("{text}: {s}"),
            J::obj(vec![
                ("case", J::s(c.what.as_str())),
                ("directory", J::s(c.cwd.as_str())),
                ("command", J::strs(&c.cmd)),
                ("configurations", J::A(c.configs.iter().map(|(d, p)| J::s(format!("{d}.podo.yaml: {p:?}"))).collect())),
                ("files", J::s(show_tree(&t))),
                ("result", J::s(d.show())),
                ("wrong", J::s(s)),
            ]),
            c.configs.len() * 10 + c.cmd.len(),
        )
    };
    if d.crashed() {
        return bad(format!("crashes: {}", d.show()));
    }
    let before: Vec<Option<(DbState, DbState)>> = c.pgs.iter().map(|p| Some((db_state(&p.base, "m1").unwrap(), db_state(&p.base, "m2").unwrap()))).collect();
    let Some((dir, a)) = &c.sel else {
        if d.ok() {
            return bad(format!("reports success: {}", d.show()));
        }
        if d.err.trim().is_empty() {
            return bad("no message".into());
        }
        if n != [0, 0] {
            return bad("connects to a database".into());
        }
        let td = tree_diff(&visible(&t), &e.tree);
        if !td.is_empty() {
            return bad(format!("changes files: {}", td.join(", ")));
        }
        if e.dbs != before {
            return bad("changes a database".into());
        }
        return;
    };
    // what is used
    let (hist, defs) = (norm_path(&format!("p/{dir}{}", a.hist)), norm_path(&format!("p/{dir}{}", a.defs)));
    let conf = format!("p/{dir}.podo.yaml");
    for (op, path) in &d.ops {
        let p = norm_path(path);
        if path.is_empty() || p == conf || p == hist || p == defs || p.starts_with(&format!("{hist}/")) || p.starts_with(&format!("{defs}/")) {
            continue;
        }
        return bad(format!("{op} {path}, which is not the selected profile's"));
    }
    if n[1 - a.url] > 0 {
        return bad("connects to the database of another profile".into());
    }
    // nothing but the project and its one profile
    let mut flat = Tree::new();
    let under = |k: &str, x: &str| k == format!("{x}/") || k.starts_with(&format!("{x}/")) || x.starts_with(&k.to_string());
    for (k, v) in &t {
        let full = format!("p/{k}");
        if under(&full, &hist) || under(&full, &defs) || (k.ends_with('/') && format!("{}/", c.cwd).starts_with(k.as_str())) {
            flat.insert(k.clone(), v.clone());
        }
    }
    flat.insert(format!("{dir}.podo.yaml"), cfg(x, &vec![("database".into(), a.clone())]));
    let mut cmd = vec![];
    let mut it = c.cmd.iter();
    while let Some(w) = it.next() {
        if w == "--profile" {
            it.next();
        } else if !w.starts_with("--profile=") {
            cmd.push(w.clone());
        }
    }
    let mut pgs = c.pgs.clone();
    // and only its database
    pgs[1 - a.url] = Pg::new(Cat::new());
    let (want, wd, _) = go(x, &flat, &pgs, &c.cwd, &cmd);
    ctx.count("transitions", 1);
    ctx.count("traces_validated_against_impl", 1);
    if want.code != e.code {
        return bad(format!("{}, but in a project that has nothing else: {}", d.show(), wd.show()));
    }
    if want.out != e.out {
        return bad(format!("says {:?}, but in a project that has nothing else: {:?}", short(&e.out), short(&want.out)));
    }
    // changes of files
    let (x1, x2) = (tree_diff(&visible(&t), &e.tree), tree_diff(&visible(&flat), &want.tree));
    if x1 != x2 {
        return bad(format!("changes {x1:?}, but in a project that has nothing else {x2:?}"));
    }
    for l in &x1 {
        let k = l.rsplit_once(' ').unwrap().0;
        if e.tree.get(k) != want.tree.get(k) {
            return bad(format!("changes {k} otherwise than in a project that has nothing else"));
        }
    }
    if e.dbs[1 - a.url] != before[1 - a.url] {
        return bad("changes the database of another profile".into());
    }
    if e.dbs[a.url] != want.dbs[a.url] {
        return bad("changes the database otherwise than in a project that has nothing else".into());
    }
    ctx.count(if e.code { "succeed" } else { "fail" }, 1);
}

fn content(ctx: &Ctx, sut: &dyn Sut, pre: &str) -> Tree {
    let p = "public";
    let c = |n: &str| Table::new(vec![Col::new(n, "int4")]);
    let d = |v: &[&str]| v.iter().fold(Db::init(), |d, n| d.table(p, n, c("k")));
    let dir = base_dir().join("mk");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut t = Tree::new();
    let vers: [(&str, &str, Option<&str>, Db, Db); 7] = [
        ("h1", "init", None, Db::default(), d(&[])),
        ("h1", "a", Some("init"), d(&[]), d(&["ta"])),
        ("h1", "stage", Some("a"), d(&["ta"]), d(&["ta", "t"])),
        ("h2", "init", None, Db::default(), d(&[])),
        ("h2", "b", Some("init"), d(&[]), d(&["ua"])),
        ("h2", "c", Some("b"), d(&["ua"]), d(&["ua", "ub"])),
        ("h2", "stage", Some("c"), d(&["ua", "ub"]), d(&["ub"])),
    ];
    for (h, n, prev, a, b) in vers {
        if !sut.version_file(&dir, n, prev, &a, &b).is_ok() {
            ctx.fail(None, format!("cannot write version {n}"), J::Null, 1);
        }
        t.insert(format!("{pre}{h}/"), vec![]);
        t.insert(format!("{pre}{h}/{n}.yaml"), std::fs::read(dir.join(format!("{n}.yaml"))).unwrap_or_default());
    }
    for (k, v) in [("d1", d(&["ta", "t", "tb"])), ("d2", d(&["ub", "u"]))] {
        t.insert(format!("{pre}{k}/"), vec![]);
        t.insert(format!("{pre}{k}/public.yaml"), doc_text(&v).into_bytes());
    }
    t
}

fn v(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

pub fn commands() -> Vec<Vec<String>> {
    vec![
        v(&["status"]),
        v(&["stage"]),
        v(&["reset"]),
        v(&["make"]),
        v(&["make", "--version", "x"]),
        v(&["up"]),
        v(&["up", "--version", "a"]),
        v(&["up", "--version", "b"]),
        v(&["up", "--version", "init"]),
        v(&["down"]),
        v(&["down", "--version", "init"]),
        v(&["clone"]),
        v(&["sync"]),
    ]
}

pub fn run_c13(ctx: &Ctx, sut: &dyn Sut) {
    let ws = Worlds { ctx, free: Mutex::new(vec![]), n: Mutex::new(0) };
    let base = content(ctx, sut, "");
    let inner = content(ctx, sut, "in/");
    if ctx.violations() > 0 {
        return;
    }
    // databases: new; and both migrated with each (history, metadata schema)
    let fresh = vec![Pg::new(Cat::new()), Pg::new(Cat::new())];
    let migrated = |x: &Two, url: usize, h: &str, m: &str, pgs: &[Pg]| -> Vec<Pg> {
        let mut t = base.clone();
        t.insert(".podo.yaml".into(), cfg(x, &vec![("database".into(), attr(url, h, "d1", m))]));
        restore(&x.w.project(), &t);
        x.w.srv().reset(pgs[0].clone());
        x.b.reset(pgs[1].clone());
        let mut r = run(&["up"]);
        r.names = order_names();
        x.w.run(&r);
        vec![x.w.srv().settled().unwrap_or_default(), x.b.settled().unwrap_or_default()]
    };
    let mut cases: Vec<Case> = vec![];
    let sels: [(&[&str], usize); 4] = [(&[], 0), (&["--profile", "database"], 0), (&["--profile", "other"], 1), (&["--profile=other"], 1)];
    for mask in 0..16usize {
        let one = attr(0, "h1", "d1", "m1");
        let two = attr(
            if mask & 1 > 0 { 0 } else { 1 },
            if mask & 2 > 0 { "h1" } else { "h2" },
            if mask & 4 > 0 { "d1" } else { "d2" },
            if mask & 8 > 0 { "m1" } else { "m2" },
        );
        let used = ws.with(|x| {
            let p = migrated(x, one.url, &one.hist, &one.meta, &fresh);
            migrated(x, two.url, &two.hist, &two.meta, &p)
        });
        for order in 0..2 {
            let mut ps: Profiles = vec![("database".into(), one.clone()), ("other".into(), two.clone())];
            if order == 1 {
                ps = vec![("databas".into(), attr(0, "none", "none", "m2")), ps[1].clone(), ps[0].clone(), ("Database".into(), attr(1, "h2", "d2", "m2"))];
            }
            for (k, pgs) in [&fresh, &used].into_iter().enumerate() {
                for (sel, i) in sels {
                    for c in commands() {
                        let mut cmd = c.clone();
                        cmd.extend(v(sel));
                        let a = if i == 0 { &one } else { &two };
                        cases.push(Case {
                            what: format!("other shares{}{}{}{}, {}", if mask & 1 > 0 { " database" } else { "" }, if mask & 2 > 0 { " history" } else { "" }, if mask & 4 > 0 { " definitions" } else { "" }, if mask & 8 > 0 { " metadata schema" } else { "" }, if k == 0 { "new databases" } else { "migrated databases" }),
                            configs: vec![(String::new(), ps.clone())],
                            files: base.clone(),
                            cwd: String::new(),
                            cmd,
                            pgs: pgs.clone(),
                            sel: Some((String::new(), a.clone())),
                        });
                    }
                }
            }
        }
    }
    // unknown profiles
    let ps: Profiles = vec![("database".into(), attr(0, "h1", "d1", "m1")), ("other".into(), attr(1, "h2", "d2", "m2"))];
    let used = ws.with(|x| {
        let p = migrated(x, 0, "h1", "m1", &fresh);
        migrated(x, 1, "h2", "m2", &p)
    });
    for (what, ps, names) in [
        ("unknown profile", ps.clone(), vec!["", "Database", "OTHER", "database ", "data", "others", "nope", "history", "0"]),
        ("no default profile", vec![ps[1].clone()], vec!["(none)", "database"]),
        ("no profile", vec![], vec!["(none)", "database", "other"]),
    ] {
        for n in names {
            for mut cmd in commands() {
                if n != "(none)" {
                    cmd.extend(v(&["--profile", n]));
                }
                cases.push(Case { what: what.into(), configs: vec![(String::new(), ps.clone())], files: base.clone(), cwd: String::new(), cmd, pgs: used.clone(), sel: None });
            }
        }
    }
    // a broken selected profile's directories must not fall back to others
    for (h, d) in [("none", "d1"), ("h1", "none"), ("none", "none"), ("d1", "h1")] {
        for mut cmd in commands() {
            if matches!(cmd[0].as_str(), "up" | "down" | "clone" | "sync") || (cmd[0] != "status" && cmd[0] != "stage" && h == "h1") {
                continue;
            }
            cmd.extend(v(&["--profile", "bad"]));
            let mut q = ps.clone();
            q.push(("bad".into(), attr(0, h, d, "m1")));
            cases.push(Case { what: format!("profile with history {h:?} and definitions {d:?}"), configs: vec![(String::new(), q)], files: base.clone(), cwd: String::new(), cmd, pgs: used.clone(), sel: None });
        }
    }
    // directories written in other ways
    for h in ["h2", "@/h2", "./h2", "h2/", "../p/h2", "d1/../h2", "h1/../h2/."] {
        for d in ["d2", "@/d2", "@//d2/", "./d2", ".//d2//", "../p/d2", "d1/../d2"] {
            if h == "h2" && d == "d2" {
                continue;
            }
            for cmd in commands() {
                for (k, cwd) in ["", "sub/h1"].iter().enumerate() {
                    let written: Profiles = vec![("database".into(), attr(0, "h1", "d1", "m1")), ("other".into(), attr(1, h, d, "m2"))];
                    let mut cmd = cmd.clone();
                    cmd.extend(v(&["--profile", "other"]));
                    cases.push(Case {
                        what: format!("history written {h:?}, definitions written {d:?}"),
                        configs: vec![(String::new(), written)],
                        files: base.clone(),
                        cwd: cwd.to_string(),
                        cmd,
                        pgs: if k == 0 { used.clone() } else { fresh.clone() },
                        sel: Some((String::new(), attr(1, "h2", "d2", "m2"))),
                    });
                }
            }
        }
    }
    // nested projects
    let outer: Profiles = vec![("database".into(), attr(0, "h1", "d1", "m1")), ("outer".into(), attr(0, "h1", "d2", "m1")), ("other".into(), attr(0, "h1", "d1", "m1"))];
    let inn: Profiles = vec![("other".into(), attr(1, "h1", "d1", "m2")), ("database".into(), attr(1, "h2", "d2", "m2"))];
    let up: Profiles = vec![("database".into(), attr(1, "../h2", "./d2/../d2", "m2"))];
    let mut both = base.clone();
    both.extend(inner.clone());
    both.insert("in/".into(), vec![]);
    for (what, configs, files) in [
        ("nested projects", vec![(String::new(), outer.clone()), ("in/".to_string(), inn.clone())], &both),
        ("inner project with a directory outside", vec![(String::new(), outer.clone()), ("in/".to_string(), up.clone())], &both),
        ("only an inner project", vec![("in/".to_string(), inn.clone())], &both),
        ("only an outer project", vec![(String::new(), outer.clone())], &both),
        ("three levels", vec![(String::new(), outer.clone()), ("in/".to_string(), inn.clone()), ("in/deep/er/".to_string(), vec![("third".into(), attr(0, "h1", "d1", "m1"))])], &both),
    ] {
        for cwd in ["", "sub", "in", "in/h2", "in/deep", "in/deep/er/x", "h1"] {
            for sel in [&[][..], &["--profile", "other"], &["--profile", "outer"], &["--profile", "third"]] {
                for mut cmd in commands() {
                    cmd.extend(v(sel));
                    let near = configs.iter().filter(|(d, _)| format!("{cwd}/").starts_with(d.as_str()) || d.is_empty()).max_by_key(|x| x.0.len());
                    let name = sel.get(1).copied().unwrap_or("database");
                    let a = near.and_then(|(d, p)| p.iter().find(|x| x.0 == name).map(|x| (d.clone(), x.1.clone())));
                    // the third level has no directories of its own
                    let a = a.filter(|(d, _)| d != "in/deep/er/");
                    if a.is_none() && name == "third" && cwd.starts_with("in/deep/er") && matches!(cmd[0].as_str(), "up" | "down" | "clone") {
                        continue;
                    }
                    let mut files = files.clone();
                    for d in ["in/deep/", "in/deep/er/", "in/deep/er/x/"] {
                        files.insert(d.into(), vec![]);
                    }
                    cases.push(Case { what: what.into(), configs: configs.clone(), files, cwd: cwd.into(), cmd, pgs: used.clone(), sel: a });
                }
            }
        }
    }
    ctx.count("states", cases.len() as u64);
    par(ctx, &cases, |i, c| {
        ws.with(|x| judge(ctx, x, c));
        if i % 997 == 3 {
            ctx.sample(J::obj(vec![("case", J::s(c.what.as_str())), ("directory", J::s(c.cwd.as_str())), ("command", J::strs(&c.cmd)), ("uses", J::s(format!("{:?}", c.sel)))]));
        }
    });
    // the nearest configuration is broken: no other one is used
    let broken: Vec<(&str, Option<&str>)> = vec![
        ("empty", Some("")),
        ("not YAML", Some("profiles: [")),
        ("no profiles", Some("x: 1")),
        ("profiles of another kind", Some("profiles: 7")),
        ("a profile without history", Some("profiles:\n  database:\n    database_url: x\n    definitions: d\n    metadata_schema: m\n")),
        ("not text", Some("\u{1}\u{2}")),
        ("a directory", None),
    ];
    let mut jobs = vec![];
    for (what, text) in &broken {
        for cwd in ["in", "in/deep"] {
            for cmd in commands().into_iter().chain([v(&["init"])]) {
                jobs.push((*what, *text, cwd, cmd));
            }
        }
    }
    ctx.count("states", jobs.len() as u64);
    par(ctx, &jobs, |_, (what, text, cwd, cmd)| {
        ws.with(|x| {
            let mut t = both.clone();
            t.insert("in/deep/".into(), vec![]);
            t.insert(".podo.yaml".into(), cfg(x, &outer));
            match text {
                Some(s) => t.insert("in/.podo.yaml".into(), s.as_bytes().to_vec()),
                None => t.insert("in/.podo.yaml/".into(), vec![]),
            };
            let (e, d, n) = go(x, &t, &used, cwd, cmd);
            ctx.count("transitions", 1);
            let td = tree_diff(&visible(&t), &e.tree);
            let w = if d.crashed() {
                "crashes"
            } else if d.ok() {
                "reports success"
            } else if d.err.trim().is_empty() {
                "no message"
            } else if n != [0, 0] {
                "connects to a database"
            } else if !td.is_empty() {
                "changes files"
            } else {
                return;
            };
            ctx.fail(
                None,
                format!("the nearest configuration is {what}, in {cwd:?}: podo {}: {w}: {}", cmd.join(" "), d.show()),
                J::obj(vec![("configuration", J::s(*what)), ("directory", J::s(*cwd)), ("command", J::strs(cmd)), ("result", J::s(d.show())), ("files", J::strs(&td))]),
                10,
            );
        })
    });
    // init, and no project at all
    let mut jobs: Vec<(&str, Vec<&str>, &str, Vec<String>)> = vec![];
    for cmd in commands() {
        for cwd in ["", "sub", "sub/h1"] {
            jobs.push(("no project", vec![], cwd, cmd.clone()));
            jobs.push(("projects beside and below", vec!["beside/", "sub/h1/below/"], cwd, cmd.clone()));
        }
    }
    for cwd in ["", "sub", "sub/h1", "in", "in/deep"] {
        jobs.push(("no project", vec![], cwd, v(&["init"])));
        jobs.push(("projects beside and below", vec!["beside/", "sub/h1/below/"], cwd, v(&["init"])));
        jobs.push(("outer project", vec![""], cwd, v(&["init"])));
        jobs.push(("inner project", vec!["in/"], cwd, v(&["init"])));
    }
    ctx.count("states", jobs.len() as u64);
    par(ctx, &jobs, |_, (what, confs, cwd, cmd)| {
        ws.with(|x| {
            let mut t = both.clone();
            for d in ["in/deep/", "sub/", "sub/h1/", "sub/h1/below/", "beside/"] {
                t.insert(d.into(), vec![]);
            }
            for d in confs {
                t.insert(format!("{d}.podo.yaml"), cfg(x, &outer));
            }
            let inside = confs.iter().any(|d| d.is_empty() || format!("{cwd}/").starts_with(*d));
            let (e, d, n) = go(x, &t, &used, cwd, cmd);
            ctx.count("transitions", 1);
            let td = tree_diff(&visible(&t), &e.tree);
            let at = if cwd.is_empty() { String::new() } else { format!("{cwd}/") };
            let w = if d.crashed() {
                "crashes".to_string()
            } else if n != [0, 0] {
                "connects to a database".into()
            } else if cmd[0] == "init" && !inside {
                let mut want: Vec<String> = [".podo.yaml", "database/", "database/definitions/", "database/definitions/public.yaml", "database/history/", "database/history/init.yaml", "database/history/stage.yaml"]
                    .iter()
                    .map(|f| format!("{at}{f} created"))
                    .collect();
                want.sort();
                let mut got = td.clone();
                got.sort();
                if !d.ok() {
                    "fails".into()
                } else if got != want {
                    format!("{got:?} instead of {want:?}")
                } else {
                    return;
                }
            } else if !td.is_empty() {
                format!("changes files: {}", td.join(", "))
            } else if cmd[0] != "init" && d.ok() {
                "reports success".into()
            } else if cmd[0] != "init" && d.err.trim().is_empty() {
                "no message".into()
            } else {
                return;
            };
            ctx.fail(
                None,
                format!("[{what}] in {cwd:?}: podo {}: {w}: {}", cmd.join(" "), d.show()),
                J::obj(vec![("case", J::s(*what)), ("directory", J::s(*cwd)), ("command", J::strs(cmd)), ("result", J::s(d.show())), ("files", J::strs(&td))]),
                10,
            );
        })
    });
    assert!(ctx.get("succeed") > 300 || ctx.violations() > 0, "too few commands succeed");
    ctx.bound("profiles", J::s("two profiles sharing every subset of database, history, definitions and metadata schema, next to decoys, in two orders; no, each and unknown selections; absent directories"));
    ctx.bound("projects", J::s("nested up to three levels, from seven directories; broken nearest configurations; none"));
    ctx.bound("commands", J::strs(&commands().iter().map(|c| c.join(" ")).collect::<Vec<_>>()));
    ctx.bound("databases", J::s("two servers, new and migrated"));
    ctx.assume("file accesses are seen at the C library's functions");
}
