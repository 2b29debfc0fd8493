//! C07: every history over a few version files, in every order of listing, against a reference reader.
use crate::cli::*;
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::Cat;
use crate::report::{par, Ctx};
use crate::sut::*;
use std::collections::{BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

/// A version file: its name is that of the file unless it is said otherwise.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct F {
    file: String,
    name: String,
    prev: Option<String>,
    /// 0: nothing; k: creates table tk
    body: u8,
}
type H = Vec<F>;

fn show(h: &[F]) -> String {
    h.iter()
        .map(|f| {
            let n = if f.name == f.file { String::new() } else { format!(" named {:?}", f.name) };
            format!("{:?}{n} after {:?}{}", f.file, f.prev.as_deref().unwrap_or("nothing"), if f.body == 0 { "".into() } else { format!(" creating t{}", f.body) })
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn body(k: u8) -> Db {
    let d = Db::init();
    if k == 0 {
        d
    } else {
        d.table("public", &format!("t{k}"), Table::new(vec![Col::new("k", "int4")]))
    }
}

/// The chain from init to stage and what each version on it creates; or there is none.
fn chain(h: &[F]) -> Option<Vec<(String, u8)>> {
    let mut h: Vec<F> = h.to_vec();
    if h.iter().any(|f| f.file != f.name || (f.name == "init") != f.prev.is_none()) {
        return None;
    }
    // an interrupted make: the stage is still what became a version
    if let Some(s) = h.iter().position(|f| f.name == "stage") {
        if h[s].body != 0 {
            if let Some(m) = h.iter().find(|f| f.name != "stage" && f.prev == h[s].prev && f.body == h[s].body).cloned() {
                h[s].prev = Some(m.name);
                h[s].body = 0;
            }
        }
    }
    let mut out: Vec<(String, u8)> = vec![];
    let mut at: Option<String> = None;
    while out.len() <= h.len() {
        let next: Vec<&F> = h.iter().filter(|f| f.prev == at).collect();
        match next[..] {
            [] => break,
            [f] => {
                out.push((f.name.clone(), f.body));
                at = Some(f.name.clone());
            }
            _ => return None,
        }
    }
    (out.len() == h.len() && out.first().map(|x| x.0.as_str()) == Some("init") && out.last().map(|x| x.0.as_str()) == Some("stage")).then_some(out)
}

struct Files<'a> {
    sut: &'a dyn Sut,
    dir: PathBuf,
    have: HashMap<(String, Option<String>, u8), Vec<u8>>,
}
impl<'a> Files<'a> {
    fn new(sut: &'a dyn Sut) -> Files<'a> {
        let dir = base_dir().join("mk");
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Files { sut, dir, have: HashMap::new() }
    }
    fn add(&mut self, name: &str, prev: Option<&str>, k: u8) {
        let key = (name.to_string(), prev.map(|x| x.to_string()), k);
        if self.have.contains_key(&key) {
            return;
        }
        let (from, to) = if name == "init" { (Db::default(), Db::init()) } else { (Db::init(), body(k)) };
        if let Out::Ok(_) = self.sut.version_file(&self.dir, name, prev, &from, &to) {
            let b = std::fs::read(self.dir.join(format!("{name}.yaml"))).expect("version file");
            self.have.insert(key, b);
        } else {
            panic!("podo cannot write the version {name}");
        }
    }
    fn get(&self, f: &F) -> &Vec<u8> {
        let k = if f.name == "init" { 0 } else { f.body };
        self.have.get(&(f.name.clone(), f.prev.clone(), k)).unwrap_or_else(|| panic!("{f:?}"))
    }
}

fn replay(h: &[F], order: &[usize], more: Vec<(&str, J)>) -> J {
    let mut v = vec![("history", J::S(show(h))), ("files created in this order", J::strs(&order.iter().map(|i| h[*i].file.clone()).collect::<Vec<_>>()))];
    v.extend(more);
    J::obj(v)
}

/// Judges podo's reading of the directory.
fn judge(ctx: &Ctx, sut: &dyn Sut, dir: &Path, h: &[F], order: &[usize], all_ranges: bool, extra: &str) {
    let want = chain(h);
    let bad = |e: String| ctx.fail(None, format!("history of {}{extra}: {e}", show(h)), replay(h, order, vec![("other files", J::s(extra))]), h.len() * 10);
    let cur = sut.hist_current(dir);
    let mut calls = 1;
    let Some(want) = want else {
        if !matches!(cur, Out::Err(_)) {
            bad(format!("is not one chain from init to stage, but podo takes it: {}", match &cur { Out::Ok(c) => format!("current version {c:?}"), o => o.show() }));
        }
        // the other entry points
        for (a, b) in [("init", "stage"), ("init", "init"), ("a", "a"), ("a", "b")] {
            calls += 1;
            match sut.hist_range(dir, a, b) {
                Out::Err(_) => {}
                Out::Ok(r) => bad(format!("is not one chain from init to stage, but migrating from {a:?} to {b:?} takes {r:?}")),
                o => bad(format!("range from {a:?} to {b:?}: {}", o.show())),
            }
            if !all_ranges {
                break;
            }
        }
        if all_ranges {
            calls += 1;
            match sut.hist_snapshot(dir, "stage") {
                Out::Err(_) => {}
                Out::Ok(_) => bad("is not one chain from init to stage, but podo calculates its schema".into()),
                o => bad(o.show()),
            }
        }
        ctx.count("transitions", calls);
        ctx.count("not_a_chain", 1);
        return;
    };
    ctx.count("chains", 1);
    let names: Vec<String> = want.iter().map(|x| x.0.clone()).collect();
    let newest = &names[names.len() - 2];
    match cur {
        Out::Ok(c) if c == *newest => {}
        Out::Ok(c) => bad(format!("the newest made version is {newest:?}, not {c:?}")),
        o => bad(format!("is the chain {names:?}, but: {}", o.show())),
    }
    let mut ends = names.clone();
    for x in ["a", "gone", ""] {
        if !ends.iter().any(|e| e == x) {
            ends.push(x.into());
        }
    }
    for (i, a) in ends.iter().enumerate() {
        for (j, b) in ends.iter().enumerate() {
            if !all_ranges && !(i == 0 && j + 1 == names.len()) && !(i + 2 == names.len() && j == 0) {
                continue;
            }
            calls += 1;
            let ok = i < names.len() && j < names.len() && i <= j;
            match sut.hist_range(dir, a, b) {
                Out::Ok(r) if ok && r == names[i + 1..=j] => {}
                Out::Ok(r) if ok => bad(format!("migrating from {a:?} to {b:?} takes {r:?}")),
                Out::Ok(r) => bad(format!("{b:?} does not lie ahead of {a:?}, but migrating takes {r:?}")),
                Out::Err(_) if !ok => {}
                o => bad(format!("migrating from {a:?} to {b:?}: {}", o.show())),
            }
        }
    }
    let upto = if all_ranges { 0 } else { names.len() - 1 };
    for i in upto..names.len() {
        calls += 1;
        let mut d = Db::init();
        for (_, k) in &want[..=i] {
            if *k != 0 {
                d = d.table("public", &format!("t{k}"), Table::new(vec![Col::new("k", "int4")]));
            }
        }
        // the same body twice cannot be applied
        let bodies: Vec<u8> = want[..=i].iter().map(|x| x.1).filter(|k| *k != 0).collect();
        let twice = bodies.iter().collect::<BTreeSet<_>>().len() != bodies.len();
        match sut.hist_snapshot(dir, &names[i]) {
            Out::Ok(s) if !twice && s.canon() == d.canon() => {}
            Out::Ok(s) if !twice => bad(format!("the schema at {:?} is wrong: {}", names[i], s.diff_text(&d))),
            Out::Err(_) | Out::Ok(_) if twice => {}
            o => bad(format!("schema at {:?}: {}", names[i], o.show())),
        }
    }
    ctx.count("transitions", calls);
}

fn fill(dir: &Path, files: &Files, h: &[F], order: &[usize]) {
    for e in std::fs::read_dir(dir).expect("scratch directory").flatten() {
        let p = e.path();
        if p.is_dir() {
            let _ = std::fs::remove_dir_all(p);
        } else {
            let _ = std::fs::remove_file(p);
        }
    }
    for i in order {
        std::fs::write(dir.join(format!("{}.yaml", h[*i].file)), files.get(&h[*i])).expect("scratch file");
    }
}

fn listing(dir: &Path) -> Vec<String> {
    std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}

/// Every assignment of "absent" or a predecessor to each of these files.
fn assignments(files: &[&str], all_present: bool) -> Vec<Vec<(String, Option<String>)>> {
    let mut prevs: Vec<Option<String>> = vec![None];
    prevs.extend(files.iter().map(|f| Some(f.to_string())));
    prevs.push(Some("gone".into()));
    let mut out: Vec<Vec<(String, Option<String>)>> = vec![vec![]];
    for f in files {
        let mut next = vec![];
        for o in &out {
            if !all_present {
                next.push(o.clone());
            }
            for p in &prevs {
                let mut x = o.clone();
                x.push((f.to_string(), p.clone()));
                next.push(x);
            }
        }
        out = next;
    }
    out
}

fn bodied(a: &[(String, Option<String>)], stage: u8) -> H {
    a.iter()
        .map(|(n, p)| F {
            file: n.clone(),
            name: n.clone(),
            prev: p.clone(),
            body: match n.as_str() {
                "init" => 0,
                "stage" => stage,
                x => x.bytes().next().unwrap() - b'a' + 1,
            },
        })
        .collect()
}

pub fn run_c07(ctx: &Ctx, sut: &dyn Sut) {
    let mut names: Vec<&str> = vec!["init", "stage", "a", "b", "c"];
    let mut files = Files::new(sut);
    if ctx.thorough {
        names.push("d");
    }
    let prevs: Vec<Option<&str>> = [None, Some("gone")].into_iter().chain(names.iter().map(|n| Some(*n))).collect();
    for n in &names {
        for p in &prevs {
            for k in 0..=9 {
                files.add(n, *p, k);
            }
        }
    }
    // names of all kinds, anywhere in the chain
    let mut odd: Vec<H> = vec![];
    let long = "x".repeat(200);
    for n in [
        "_b", "B", "A", "é", "日本", "b.c", "b c", " b", "b ", "-b", "--", "20240101_000000-x y", "b.yaml", "yaml", "stage2", "stages", "xstage", "STAGE", "Init", "init2", "xinit", "1", "0", "true", "null", "~", "#b", "b#", "b'c", "b\"c", "b:c",
        "b: c", "{b}", "[b]", "*b", "&b", "!b", "|", ">", "%b", "@b", "$b", "b\\c", "zzz", "README", "final", "tmp", "b.tmp", "b~", &long,
    ] {
        for at in 0..3 {
            let mut l = vec!["a", "c"];
            l.insert(at, n);
            let mut h = vec![F { file: "init".into(), name: "init".into(), prev: None, body: 0 }];
            for (i, x) in l.iter().enumerate() {
                let prev = Some(h.last().unwrap().name.clone());
                h.push(F { file: x.to_string(), name: x.to_string(), prev, body: i as u8 + 1 });
            }
            let prev = Some(h.last().unwrap().name.clone());
            h.push(F { file: "stage".into(), name: "stage".into(), prev, body: 9 });
            for f in &h {
                files.add(&f.name, f.prev.as_deref(), f.body);
            }
            odd.push(h);
        }
    }
    // long histories, with names that sort in other ways, and each with one version after another one than it should be
    let mut long: Vec<(H, bool)> = vec![];
    for n in [12usize, 30] {
        let schemes: [&dyn Fn(usize) -> String; 5] = [
            &|i| format!("202401{:02}_000000-auto", i + 1),
            &|i| format!("202401{:02}_000000-auto", n - i),
            &|i| format!("{}", i + 1),
            &|i| format!("v{}", (i * 7) % n.max(31)),
            &|i| "x".repeat(i + 1),
        ];
        for (k, name) in schemes.iter().enumerate() {
            let mut h = vec![F { file: "init".into(), name: "init".into(), prev: None, body: 0 }];
            for i in 0..=n {
                let name = if i == n { "stage".to_string() } else { name(i) };
                let prev = Some(h.last().unwrap().name.clone());
                h.push(F { file: name.clone(), name, prev, body: i as u8 + 1 });
            }
            long.push((h.clone(), true));
            if n == 12 && (k == 0 || k == 1 || ctx.thorough) {
                for i in 0..h.len() {
                    for j in 0..=h.len() {
                        let mut x = h.clone();
                        let prev = if j == h.len() { Some("gone".to_string()) } else { Some(h[j].name.clone()) };
                        if x[i].prev != prev {
                            x[i].prev = prev;
                            long.push((x, false));
                        }
                    }
                }
            }
        }
    }
    for (h, _) in &long {
        for f in h {
            files.add(&f.name, f.prev.as_deref(), f.body);
        }
    }
    let files = &files;
    let dirs: Mutex<(Vec<PathBuf>, usize)> = Mutex::new((vec![], 0));
    let with_dir = |f: &dyn Fn(&Path)| {
        let d = {
            let mut g = dirs.lock().unwrap();
            g.0.pop().unwrap_or_else(|| {
                g.1 += 1;
                let d = base_dir().join(format!("h{}", g.1));
                std::fs::create_dir_all(&d).expect("scratch directory");
                d
            })
        };
        f(&d);
        dirs.lock().unwrap().0.push(d);
    };
    let orders_seen: Mutex<BTreeSet<Vec<String>>> = Default::default();
    // all histories
    let base = ["init", "stage", "a", "b", "c"];
    let mut hs = assignments(&base, false);
    if ctx.thorough {
        hs.extend(assignments(&names, true));
    }
    ctx.count("states", hs.len() as u64);
    par(ctx, &hs, |_, a| {
        let n = a.len();
        let perms = perms(n);
        let few: Vec<Vec<usize>> = {
            let mut v = vec![];
            for r in 0..n.max(1) {
                let f: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
                let mut b = f.clone();
                b.reverse();
                v.push(f);
                v.push(b);
            }
            v.sort();
            v.dedup();
            v
        };
        with_dir(&|dir| {
            for stage in [9u8, 0, 1] {
                // the content of the stage matters to whether a make was interrupted
                let h = bodied(a, stage);
                let orders: Vec<Vec<usize>> = if n == 6 {
                    few.iter().take(2).cloned().collect()
                } else if ctx.thorough || (stage == 9 && n <= 4) {
                    perms.clone()
                } else if stage == 9 {
                    few.clone()
                } else {
                    vec![few[0].clone(), few[few.len() - 1].clone()]
                };
                for (k, o) in orders.iter().enumerate() {
                    fill(dir, files, &h, o);
                    if n == 4 {
                        let l = listing(dir);
                        let mut g = orders_seen.lock().unwrap();
                        if l.len() == 4 && g.len() < 200 && !g.contains(&l) {
                            g.insert(l);
                        }
                    }
                    judge(ctx, sut, dir, &h, o, k < 2, "");
                    ctx.count("directories", 1);
                }
            }
        });
    });
    ctx.count("listing_orders_of_four_files_seen", orders_seen.lock().unwrap().len() as u64);
    // names that disagree with the file; empty stage and versions without contents; other files
    let chain3 = |order: [&str; 3]| -> H {
        let mut h = vec![F { file: "init".into(), name: "init".into(), prev: None, body: 0 }];
        let mut at = "init".to_string();
        for x in order {
            h.push(F { file: x.into(), name: x.into(), prev: Some(at), body: x.as_bytes()[0] - b'a' + 1 });
            at = x.into();
        }
        h.push(F { file: "stage".into(), name: "stage".into(), prev: Some(at), body: 9 });
        h
    };
    let mut more: Vec<(H, Option<(&str, &[u8])>)> = odd.into_iter().map(|h| (h, None)).collect();
    for p in [["a", "b", "c"], ["a", "c", "b"], ["b", "a", "c"], ["b", "c", "a"], ["c", "a", "b"], ["c", "b", "a"]] {
        let h = chain3(p);
        for i in 0..5 {
            for other in ["init", "stage", "a", "b", "c"] {
                let mut x = h.clone();
                if other == x[i].file {
                    continue;
                }
                x[i].name = other.into();
                more.push((x, None));
            }
            let mut x = h.clone();
            x[i].body = 0;
            more.push((x, None));
            for j in 0..i {
                // two versions that do the same are no interrupted make unless they follow the same one
                let mut x = h.clone();
                x[i].body = x[j].body;
                more.push((x, None));
            }
        }
        const FILES: &[(&str, &[u8])] = &[
            ("README.md", b"# history"),
            (".stage.yaml.123.tmp", b"half a ver"),
            ("a.yaml~", b"old"),
            ("a.yml", b"name: a"),
            ("yaml", b"x"),
            (".gitkeep", b""),
            ("d/", b""),
            ("d.yaml/", b""),
            ("d.yaml.bak", b"x"),
            // a version file that lies elsewhere
            ("a.yaml@", b""),
        ];
        for f in FILES {
            more.push((h.clone(), Some(*f)));
        }
    }
    par(ctx, &more, |_, (h, other)| {
        with_dir(&|dir| {
            for o in [vec![0, 1, 2, 3, 4], vec![4, 3, 2, 1, 0], vec![2, 0, 4, 1, 3]] {
                fill(dir, files, h, &o);
                if let Some((n, b)) = other {
                    if let Some(f) = n.strip_suffix('@') {
                        let away = dir.join("elsewhere");
                        std::fs::create_dir_all(&away).expect("scratch directory");
                        std::fs::rename(dir.join(f), away.join(f)).expect("scratch file");
                        std::os::unix::fs::symlink(away.join(f), dir.join(f)).expect("scratch link");
                    } else if let Some(d) = n.strip_suffix('/') {
                        std::fs::create_dir_all(dir.join(d)).expect("scratch directory");
                    } else {
                        std::fs::write(dir.join(n), b).expect("scratch file");
                    }
                }
                judge(ctx, sut, dir, h, &o, true, &other.map(|x| format!(" with the entry {:?}", x.0)).unwrap_or_default());
                ctx.count("directories", 1);
            }
        });
    });
    par(ctx, &long, |_, (h, all)| {
        with_dir(&|dir| {
            let there: Vec<usize> = (0..h.len()).collect();
            let back: Vec<usize> = there.iter().rev().cloned().collect();
            let mix: Vec<usize> = (0..h.len()).map(|i| (i * 5 + 3) % h.len()).collect();
            for o in if *all && mix.iter().collect::<BTreeSet<_>>().len() == h.len() { vec![there, back, mix] } else { vec![there, back] } {
                fill(dir, files, h, &o);
                judge(ctx, sut, dir, h, &o, *all, "");
                ctx.count("directories", 1);
                ctx.count("long_histories", 1);
            }
        });
    });
    // an unreadable version is an error, whichever it is
    let broken: Vec<(usize, &[u8])> =
        (0..5).flat_map(|i| [&b""[..], b"name: [", b"- 1\n", b"name: a\n", b"\xff\xfe", b"name: a\nprevious: 7\nchanges: nope\nup: []\ndown: []\n"].map(|b| (i, b))).collect();
    par(ctx, &broken, |_, (i, b)| {
        with_dir(&|dir| {
            let h = chain3(["b", "a", "c"]);
            fill(dir, files, &h, &[0, 1, 2, 3, 4]);
            std::fs::write(dir.join(format!("{}.yaml", h[*i].file)), b).expect("scratch file");
            ctx.count("directories", 1);
            for o in [sut.hist_current(dir).show(), sut.hist_range(dir, "init", "stage").show(), sut.hist_snapshot(dir, "stage").show()] {
                ctx.count("transitions", 1);
                if !o.starts_with("error") {
                    ctx.fail(None, format!("the file of {:?} holds {:?}, but: {o}", h[*i].file, String::from_utf8_lossy(b)), replay(&h, &[0, 1, 2, 3, 4], vec![]), 50);
                }
            }
        });
    });
    // the program itself
    let pool = Pool::new(ctx, true);
    let small = assignments(&["init", "stage", "a", "b"], false);
    let mut jobs: Vec<(H, Option<&str>, u32)> = vec![];
    for a in &small {
        for stage in [9u8, 1] {
            let h = bodied(a, stage);
            let is = chain(&h).is_some();
            if stage == 1 && !is {
                continue;
            }
            for o in 0..if is || ctx.thorough { perms(h.len()).len() as u32 } else { 1 } {
                jobs.push((h.clone(), None, o));
                if is {
                    for t in ["init", "a", "b", "stage", "gone"] {
                        jobs.push((h.clone(), Some(t), o));
                    }
                }
            }
        }
    }
    for p in [["a", "b", "c"], ["a", "c", "b"], ["b", "a", "c"], ["b", "c", "a"], ["c", "a", "b"], ["c", "b", "a"]] {
        for o in 0..120 {
            jobs.push((chain3(p), None, o));
        }
    }
    par(ctx, &jobs, |_, (h, target, o)| {
        pool.with(|w| {
            let url = w.srv().url();
            let mut t = Tree::new();
            t.insert(".podo.yaml".into(), config(&[("database", &url, "database/history", "database/definitions", META)]).into_bytes());
            t.insert("database/".into(), vec![]);
            t.insert("database/definitions/".into(), vec![]);
            t.insert("database/history/".into(), vec![]);
            for f in h {
                t.insert(format!("database/history/{}.yaml", f.file), files.get(f).clone());
            }
            restore(&w.project(), &t);
            w.srv().reset(Pg::new(Cat::new()));
            let mut r = run(&["up"]);
            if let Some(t) = target {
                r = run(&["up", "--version", t]);
            }
            r.order = Some(*o);
            let d = w.run(&r);
            ctx.count("executions", 1);
            let c = r.args.join(" ");
            let bad = |e: String| ctx.fail(None, format!("podo {c} with the history of {}: {e}", show(h)), replay(h, &[], vec![("command", J::s(c.as_str())), ("listing order", J::I(*o as i64)), ("result", J::s(d.show()))]), 100 + h.len());
            if d.crashed() {
                return bad(d.show());
            }
            let Some(pg) = w.srv().settled() else { return bad("the connection stays open".into()) };
            let st = match db_state(&pg.base, META) {
                Ok(s) => s,
                Err(e) => return bad(e),
            };
            let goal = chain(h).and_then(|c| {
                let names: Vec<String> = c.iter().map(|x| x.0.clone()).collect();
                let n = match target {
                    None => names.len() - 2,
                    Some(t) => names.iter().position(|x| x == t)?,
                };
                Some((names[..=n].to_vec(), c[..=n].to_vec()))
            });
            match goal {
                None => {
                    if d.ok() {
                        bad(format!("there is nothing to migrate to, but: {}", d.show()));
                    }
                    if !st.names().is_empty() && st.names() != ["init"] {
                        bad(format!("there is nothing to migrate to, but the database has {:?}", st.names()));
                    }
                }
                Some((names, c)) => {
                    let bodies: Vec<u8> = c.iter().map(|x| x.1).filter(|k| *k != 0).collect();
                    if bodies.iter().collect::<BTreeSet<_>>().len() != bodies.len() {
                        return; // creating a table twice
                    }
                    let mut schema = Db::init();
                    for (_, k) in &c {
                        if *k != 0 {
                            schema = schema.table("public", &format!("t{k}"), Table::new(vec![Col::new("k", "int4")]));
                        }
                    }
                    if !d.ok() {
                        return bad(d.show());
                    }
                    let none = names.len() == 1 && st.rows.is_none();
                    if (st.names() != names && !none) || st.schema != normal(&schema) {
                        bad(format!("the database has {:?} and {}, not {names:?}", st.names(), st.schema.show()));
                    }
                }
            }
        });
    });
    ctx.sample(J::s(show(&chain3(["c", "a", "b"]))));
    for a in hs.iter().filter(|a| a.len() == 5 && chain(&bodied(a, 9)).is_some()).take(3) {
        ctx.sample(J::s(show(&bodied(a, 9))));
    }
    for a in hs.iter().filter(|a| a.len() == 5 && chain(&bodied(a, 9)).is_none()).step_by(3571).take(4) {
        ctx.sample(J::s(show(&bodied(a, 9))));
    }
    let v = ctx.get("directories") + ctx.get("executions");
    ctx.count("traces_validated_against_impl", v);
    ctx.bound("histories", J::s("every subset of {init, stage, a, b, c} with every predecessor (none, any of the five, a missing one) for each file; stage with contents of its own, none, or those of a"));
    ctx.bound(
        "listing orders",
        J::s(if ctx.thorough { "all; histories of six files in two orders" } else { "all for up to four files, all rotations in both directions for five (files are created in that order on tmpfs, whose listing follows it; the program: all by a preloaded readdir)" }),
    );
    ctx.bound("end points", J::s("all pairs of files of the chain, a missing version and the empty name"));
}
