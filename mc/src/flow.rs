//! C08: every sequence of editing definitions, stage, make, reset, status and init by the real program.
use crate::cli::*;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::{norm, Cat};
use crate::report::{par, Ctx};
use crate::sut::{Out, Sut};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub const HIST: &str = "database/history";
pub const DEFS: &str = "database/definitions";

/// What a history says.
#[derive(Clone, Debug, PartialEq)]
pub struct Proj {
    /// init and the made versions, in order
    pub made: Vec<Rec>,
    pub stage: Rec,
}
impl Proj {
    pub fn names(&self) -> Vec<String> {
        self.made.iter().map(|r| r.name.clone()).collect()
    }
    pub fn empty_stage(&self) -> bool {
        self.stage.changes.arr().map_or(true, |a| a.is_empty()) && self.stage.up.is_empty() && self.stage.down.is_empty()
    }
}

/// Reads a history without podo's code: one chain, files named like their versions.
pub fn proj(sut: &dyn Sut, t: &Tree) -> Result<Proj, String> {
    let mut recs = BTreeMap::new();
    for (f, r) in history(sut, t, HIST) {
        let r = r.map_err(|e| format!("{f}.yaml: {e}"))?;
        if r.name != f {
            return Err(format!("{f}.yaml says that it is version {:?}", r.name));
        }
        recs.insert(f, r);
    }
    let stage = recs.remove("stage").ok_or("no stage.yaml")?;
    let mut made = vec![recs.remove("init").ok_or("no init.yaml")?];
    loop {
        let last = made.last().unwrap().name.clone();
        let next: Vec<String> = recs.iter().filter(|(_, r)| r.previous.as_ref() == Some(&last)).map(|(k, _)| k.clone()).collect();
        match &next[..] {
            [] => break,
            [n] => made.push(recs.remove(n).unwrap()),
            n => return Err(format!("{n:?} all follow {last:?}")),
        }
    }
    if let Some(k) = recs.keys().next() {
        return Err(format!("version {k:?} does not follow the others"));
    }
    if stage.previous.as_ref() != Some(&made.last().unwrap().name) {
        return Err(format!("the stage follows {:?}, not the newest version {:?}", stage.previous, made.last().unwrap().name));
    }
    Ok(Proj { made, stage })
}

/// The schema the recorded SQL leads to, and that reverting the stage leads back.
pub fn schema_by_sql(p: &Proj) -> Result<Db, String> {
    let mut c = Cat::new();
    let exec = |c: &mut Cat, s: &str, w: &str| c.exec(s).map_err(|e| format!("{w}: PostgreSQL refuses `{s}`: {}", e.msg));
    for r in &p.made[1..] {
        for s in &r.up {
            exec(&mut c, s, &r.name)?;
        }
    }
    let before = c.to_db();
    for s in &p.stage.up {
        exec(&mut c, s, "stage")?;
    }
    let after = c.to_db();
    for s in &p.stage.down {
        exec(&mut c, s, "reverting the stage")?;
    }
    let back = c.to_db();
    if back != before {
        return Err(format!("reverting the stage does not lead back: {}", back.diff_text(&before)));
    }
    // and back to the beginning
    for r in p.made[1..].iter().rev() {
        for s in &r.down {
            exec(&mut c, s, &format!("reverting {}", r.name))?;
        }
    }
    let back = c.to_db();
    if back != Cat::new().to_db() {
        return Err(format!("reverting everything does not lead back: {}", back.diff_text(&Cat::new().to_db())));
    }
    Ok(after)
}

/// Definitions that are edited in: files and what they mean (None: they are wrong).
pub struct Edit {
    pub name: &'static str,
    pub files: Vec<(String, String)>,
    pub db: Option<Db>,
}

pub fn edits() -> Vec<Edit> {
    let p = "public";
    let t = |c: Vec<Col>| Table::new(c);
    let f = |d: &Db| vec![("public.yaml".to_string(), doc_text(d))];
    let one = Db::init().table(p, "t", t(vec![Col::new("id", "int4").nn(), Col::new("n", "text").def("'it''s: \"x\"'")]).con("t_pk", Con::pk(&["id"])));
    let two = Db::init()
        .table(p, "t", t(vec![Col::new("id", "int8").nn(), Col::new("m", "int4").def("1")]).con("t_pk", Con::pk(&["id"])).con("ck", Con::ck("m > 0")))
        .rel(p, "i", Rel::Index(Index::new("t", &["m"])))
        .rel(p, "v", Rel::View("SELECT id\nFROM public.t".into()))
        .rel(p, "q", Rel::Seq(Seq::plain()))
        .func(p, "f(a int4)", Func { body: "SELECT 1;\nSELECT 2".into(), lang: "SQL".into(), ret: "int4".into(), vol: "STABLE".into() });
    let app = Db { schemas: Db::default().schema("app").schemas }.table("app", "t", t(vec![Col::new("k", "text")]));
    let three = Db::init().schema("app").table("app", "t", t(vec![Col::new("k", "text")])).table(p, "u", t(vec![Col::new("a", "int4")]));
    let un = Db::init().table(p, "u", t(vec![Col::new("a", "int4")]));
    vec![
        Edit { name: "nothing", files: f(&Db::init()), db: Some(Db::init()) },
        Edit { name: "one", files: f(&one), db: Some(one.clone()) },
        Edit { name: "two", files: f(&two), db: Some(two) },
        Edit { name: "two files", files: vec![("public.yaml".into(), doc_text(&un)), ("other.yaml".into(), doc_text(&app))], db: Some(three) },
        Edit { name: "one, not YAML in the second file", files: vec![("public.yaml".into(), doc_text(&one)), ("x.yaml".into(), "schema app: [".into())], db: None },
        Edit { name: "a column twice", files: vec![("public.yaml".into(), "schema public:\n  table t:\n    column a: int4\n    column a: text\n".into())], db: None },
    ]
}

pub fn with_defs(t: &Tree, e: &Edit) -> Tree {
    let pre = format!("{DEFS}/");
    let mut o: Tree = t.iter().filter(|(k, _)| !k.starts_with(&pre) || **k == pre).map(|(k, v)| (k.clone(), v.clone())).collect();
    for (f, x) in &e.files {
        o.insert(format!("{pre}{f}"), x.clone().into_bytes());
    }
    o
}
fn without_defs(t: &Tree) -> Tree {
    let pre = format!("{DEFS}/");
    t.iter().filter(|(k, _)| !k.starts_with(&pre)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

#[derive(Clone)]
struct St {
    /// without definitions
    tree: Tree,
    clock: i64,
    path: Vec<String>,
    /// stage commands that added something since the last make or reset
    adds: usize,
}

/// Lines under the headings of status.
fn sections(out: &str) -> (String, Option<String>, Option<String>) {
    let (mut head, mut a, mut b) = (String::new(), None, None);
    let mut at = 0;
    for l in out.lines() {
        match l.trim() {
            "Changes staged:" => {
                at = 1;
                a = Some(String::new());
                continue;
            }
            "Changes not staged:" => {
                at = 2;
                b = Some(String::new());
                continue;
            }
            "No changes." if at == 0 => {
                at = 0;
            }
            _ => {}
        }
        let s = match at {
            0 => &mut head,
            1 => a.as_mut().unwrap(),
            _ => b.as_mut().unwrap(),
        };
        s.push_str(l.trim());
        s.push('\n');
    }
    (head, a, b)
}
/// Statements as sorted lines.
fn lines<S: AsRef<str>>(v: &[S]) -> Vec<String> {
    let mut o: Vec<String> = v.iter().flat_map(|s| s.as_ref().lines().map(|l| l.trim().to_string()).collect::<Vec<_>>()).filter(|l| !l.is_empty()).collect();
    o.sort();
    o
}

fn names() -> Vec<String> {
    ["public", "app", "t", "u", "v", "i", "q", "t_pk", "ck", "f(a int4)"].iter().map(|s| s.to_string()).collect()
}

/// Files other than the stage and the definitions, and the made versions, must not change.
fn others(a: &Tree, b: &Tree, may: &dyn Fn(&str) -> bool) -> Option<String> {
    let d: Vec<String> = tree_diff(&visible(a), &visible(b)).into_iter().filter(|l| !may(l)).collect();
    if d.is_empty() {
        None
    } else {
        Some(d.join(", "))
    }
}

struct Judge<'a> {
    ctx: &'a Ctx,
    sut: &'a dyn Sut,
    w: &'a World,
    defs: &'a [Edit],
}

impl Judge<'_> {
    /// What the program says is still to be staged, by staging it.
    fn run(&self, a: &[String], clock: i64) -> (Done, Tree) {
        let mut r = run(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        r.clock = Some(clock);
        r.names = names();
        let d = self.w.run(&r);
        self.ctx.count("transitions", 1);
        (d, tree(&self.w.project()))
    }

    /// Runs one command; the resulting tree, or what is wrong.
    fn step(&self, before: &Tree, p: &Proj, clock: i64, e: &Edit, a: &[String]) -> Result<Tree, (String, Option<Done>)> {
        restore(&self.w.project(), before);
        let (d, after) = self.run(a, clock);
        let bad = |s: String| Err((s, Some(d.clone())));
        if d.crashed() {
            return bad("crashes".into());
        }
        match a[0].as_str() {
            "stage" => {
                let Some(want) = &e.db else {
                    if d.ok() {
                        return bad("accepts wrong definitions".into());
                    }
                    if let Some(x) = others(before, &after, &|_| false) {
                        return bad(format!("fails and changes the project: {x}"));
                    }
                    return Ok(after);
                };
                if !d.ok() {
                    return bad("fails".into());
                }
                if let Some(x) = others(before, &after, &|l| l == format!("{HIST}/stage.yaml changed")) {
                    return bad(format!("changes more than the stage: {x}"));
                }
                let q = match proj(self.sut, &after) {
                    Ok(q) => q,
                    Err(x) => return bad(format!("leaves a wrong history: {x}")),
                };
                let (s, t) = (&p.stage, &q.stage);
                let (cs, ct) = (s.changes.arr().unwrap_or(&[]).to_vec(), t.changes.arr().unwrap_or(&[]).to_vec());
                if !ct.starts_with(&cs) || !t.up.starts_with(&s.up) || !t.down.ends_with(&s.down) {
                    return bad(format!("does not keep what is staged: {} changes before, {} after", cs.len(), ct.len()));
                }
                let dir = self.w.path(HIST);
                match self.sut.hist_snapshot(&dir, "stage") {
                    Out::Ok(g) if g.canon() == want.canon() => {}
                    Out::Ok(g) => return bad(format!("the recorded changes do not lead to the definitions: {}", g.canon().diff_text(&want.canon()))),
                    o => return bad(format!("the history cannot be read afterwards: {}", o.show())),
                }
                match schema_by_sql(&q) {
                    Ok(g) => {
                        let n = norm(want).unwrap_or_else(|e| panic!("the model cannot hold {}: {}", want.show(), e.msg));
                        if g != n {
                            return bad(format!("the recorded SQL does not lead to the definitions: {}", g.diff_text(&n)));
                        }
                    }
                    Err(x) => return bad(x),
                }
                // nothing is left, and staging again does nothing
                let (d2, again) = self.run(a, clock);
                match proj(self.sut, &again) {
                    Ok(r) if d2.ok() && r == q && others(before, &again, &|l| l == format!("{HIST}/stage.yaml changed")).is_none() => {}
                    Ok(r) => return bad(format!("staging again changes the stage from {} to {} changes: {}", ct.len(), r.stage.changes.arr().unwrap_or(&[]).len(), d2.show())),
                    Err(x) => return bad(format!("staging again leaves a wrong history: {x}")),
                }
                Ok(after)
            }
            "make" => {
                let label = a.get(2);
                let plain = label.map_or(true, |l| l.chars().all(|c| c.is_ascii_alphanumeric()));
                if !d.ok() {
                    if let Some(x) = others(before, &after, &|_| false) {
                        return bad(format!("fails and changes the project: {x}"));
                    }
                    // refusing is right where a version of that name exists, and for strange labels
                    let taken = p.names().iter().any(|n| label.map_or(n.ends_with("auto"), |l| n.ends_with(&format!("-{l}"))) && clock_in(n, clock));
                    if plain && (!taken || p.empty_stage()) {
                        return bad("fails".into());
                    }
                    self.ctx.count("makes_refused", 1);
                    return Ok(after);
                }
                if p.empty_stage() {
                    if let Some(x) = others(before, &after, &|_| false) {
                        return bad(format!("the stage is empty, and it changes the project: {x}"));
                    }
                    return Ok(after);
                }
                let q = match proj(self.sut, &after) {
                    Ok(q) => q,
                    Err(x) => return bad(format!("leaves a wrong history: {x}")),
                };
                let new = format!("{HIST}/{}.yaml", q.made.last().unwrap().name);
                if let Some(x) = others(before, &after, &|l| l == format!("{HIST}/stage.yaml changed") || l == format!("{new} created")) {
                    return bad(format!("changes more than the stage and the new version: {x}"));
                }
                if before.contains_key(&new) || q.made.len() != p.made.len() + 1 {
                    return bad("reports success without a new version".into());
                }
                if q.made[..p.made.len()] != p.made[..] {
                    return bad("changes the versions before".into());
                }
                let m = q.made.last().unwrap();
                if m.changes != p.stage.changes || m.up != p.stage.up || m.down != p.stage.down {
                    return bad("the new version does not record what was staged".into());
                }
                if !q.empty_stage() {
                    return bad("the stage is not empty afterwards".into());
                }
                if let Some(l) = label {
                    if !m.name.contains(l.as_str()) {
                        return bad(format!("the version is called {:?}", m.name));
                    }
                }
                let dir = self.w.path(HIST);
                match self.sut.hist_current(&dir) {
                    Out::Ok(n) if n == m.name => {}
                    o => return bad(format!("podo does not take it for the newest version: {}", if let Out::Ok(n) = &o { n.clone() } else { o.show() })),
                }
                Ok(after)
            }
            "reset" => {
                if !d.ok() {
                    return bad("fails".into());
                }
                if let Some(x) = others(before, &after, &|l| l == format!("{HIST}/stage.yaml changed")) {
                    return bad(format!("changes more than the stage: {x}"));
                }
                match proj(self.sut, &after) {
                    Ok(q) if q.empty_stage() && q.made == p.made => Ok(after),
                    Ok(_) => bad("does not just empty the stage".into()),
                    Err(x) => bad(format!("leaves a wrong history: {x}")),
                }
            }
            "init" => {
                if let Some(x) = others(before, &after, &|_| false) {
                    return bad(format!("changes an existing project: {x}"));
                }
                Ok(after)
            }
            _ => {
                if let Some(x) = others(before, &after, &|_| false) {
                    return bad(format!("changes the project: {x}"));
                }
                if e.db.is_none() {
                    return Ok(after);
                }
                if !d.ok() {
                    return bad("fails".into());
                }
                // what stage would add
                let (_, staged) = self.run(&["stage".into()], clock);
                let add = match proj(self.sut, &staged) {
                    Ok(q) if q.stage.up.len() >= p.stage.up.len() => q.stage.up[p.stage.up.len()..].to_vec(),
                    _ => return Ok(after), // told by stage
                };
                let (head, a, b) = sections(&d.out);
                let got = |s: &Option<String>| lines(&[s.clone().unwrap_or_default()]);
                if got(&a) != lines(&p.stage.up) || a.is_some() == p.stage.up.is_empty() {
                    return bad(format!("staged are {:?}", p.stage.up));
                }
                if got(&b) != lines(&add) || b.is_some() == add.is_empty() {
                    return bad(format!("not staged are {add:?}"));
                }
                if head.contains("No changes") != (a.is_none() && b.is_none()) {
                    return bad("says \"No changes\" though there are, or does not say so though there are none".into());
                }
                Ok(after)
            }
        }
    }
}

/// Whether a version's name has this time in it.
fn clock_in(n: &str, clock: i64) -> bool {
    let s = clock - 1704067200;
    n.contains(&format!("20240101_{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60))
}

fn label(l: &str) -> Vec<String> {
    vec!["make".into(), "--version".into(), l.into()]
}

const HAND: &str = "(the stage is edited)";

pub fn run_c08(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, false);
    let defs = edits();
    let base = pool.with(|w| {
        restore(&w.project(), &Tree::new());
        let d = w.run(&run(&["init"]));
        let t = tree(&w.project());
        if !d.ok() || proj(sut, &t).is_err() {
            ctx.fail(None, format!("podo init: {}", d.show()), J::s("podo init in an empty directory"), 1);
        }
        t
    });
    if ctx.violations() > 0 {
        return;
    }
    let mut first = without_defs(&base);
    first.insert(format!("{DEFS}/"), vec![]);
    // a server that does not exist
    first.insert(".podo.yaml".into(), config(&[("database", "host=/nonexistent user=u dbname=d", HIST, DEFS, META)]).into_bytes());
    // files that are nobody's business
    first.insert("README.md".into(), b"x".to_vec());
    first.insert(format!("{HIST}/notes.txt"), b"y".to_vec());
    let odd: Vec<&str> = vec!["", "a b", "é", "x.yaml", "a/b", "../x", "stage", "'", "-", "a\nb", "%s", "."];
    let (max, depth_max, max_adds) = if ctx.thorough { (250_000usize, 9, 3) } else { (16_000usize, 5, 2) };
    let mut seen: BTreeSet<(Tree, i64)> = BTreeSet::new();
    let mut level = vec![St { tree: first.clone(), clock: 1704067200, path: vec![], adds: 0 }];
    seen.insert((first.clone(), 1704067200));
    // a stage with SQL by hand, which does nothing in the end
    let one = "CREATE SCHEMA IF NOT EXISTS public";
    let two = ["CREATE TABLE public.hand (k int4)", "DROP TABLE public.hand"];
    for (up, down) in [(&[one][..], &[][..]), (&[], &[one]), (&[one], &[one]), (&two, &[]), (&[], &two), (&two, &two), (&[one, one], &[one, one])] {
        let mut t = first.clone();
        t.insert(format!("{HIST}/stage.yaml"), format!("name: stage\nprevious: init\nchanges: []\nup: {}\ndown: {}\n", J::strs(up).show(), J::strs(down).show()).into_bytes());
        seen.insert((t.clone(), 1704067200));
        level.push(St { tree: t, clock: 1704067200, path: vec![format!("{HAND}: up {up:?}, down {down:?}")], adds: 0 });
    }
    let mut depth = 0;
    let mut done = 0usize;
    let mut nstates = 0u64;
    let max_clock = 1704067200 + 3;
    while !level.is_empty() && depth < depth_max && !ctx.too_many() {
        // (state, definitions, command, clock afterwards)
        let mut jobs: Vec<(usize, usize, Vec<String>, i64)> = vec![];
        for (i, s) in level.iter().enumerate() {
            if depth >= if ctx.thorough { 4 } else { 2 } && s.path.first().map_or(false, |x| x.starts_with(HAND)) {
                continue;
            }
            for (j, _) in defs.iter().enumerate() {
                if depth >= 4 && !ctx.thorough && ![0, 1, 2].contains(&j) {
                    continue;
                }
                for c in ["stage", "status"] {
                    // status shows changes, and SQL by hand is none
                    if c == "status" && s.path.first().map_or(false, |x| x.starts_with(HAND)) {
                        continue;
                    }
                    jobs.push((i, j, vec![c.into()], s.clock));
                }
            }
            // these do not read the definitions; also with wrong ones
            for j in if depth >= 4 && !ctx.thorough { vec![1] } else { vec![1, 4] } {
                jobs.push((i, j, vec!["reset".into()], s.clock));
                jobs.push((i, j, vec!["make".into()], s.clock));
                jobs.push((i, j, label("x"), s.clock));
            }
            jobs.push((i, 1, label("y"), s.clock));
            jobs.push((i, 1, vec!["init".into()], s.clock));
            if s.clock < max_clock {
                jobs.push((i, 1, label("x"), s.clock + 1));
            }
            if depth <= 2 || ctx.thorough && depth <= 4 {
                for o in &odd {
                    jobs.push((i, 1, label(o), s.clock));
                }
            }
        }
        if std::env::var("PODO_VERIF_TRACE").is_ok() {
            eprintln!("depth {depth}: {} states, {} jobs", level.len(), jobs.len());
        }
        if done + jobs.len() > max {
            break;
        }
        done += jobs.len();
        depth += 1;
        nstates += level.len() as u64;
        let next: Mutex<Vec<(usize, St)>> = Mutex::new(vec![]);
        par(ctx, &jobs, |k, (i, j, a, clock)| {
            let s = &level[*i];
            let before = with_defs(&s.tree, &defs[*j]);
            let p = match proj(sut, &before) {
                Ok(p) => p,
                Err(e) => panic!("a wrong state is explored: {e}"),
            };
            let r = pool.with(|w| Judge { ctx, sut, w, defs: &defs }.step(&before, &p, *clock, &defs[*j], a));
            let text = format!("[definitions: {}] podo {}{}", defs[*j].name, a.join(" "), if *clock != s.clock { " (a second later)" } else { "" });
            match r {
                Ok(after) => {
                    let mut path = s.path.clone();
                    path.push(text);
                    if k % 97 == 0 && depth > 2 {
                        ctx.sample(J::strs(&path));
                    }
                    let q = proj(sut, &after);
                    let adds = match (&q, a[0].as_str()) {
                        (Ok(q), _) if q.empty_stage() => 0,
                        (Ok(q), "stage") if *q != p => s.adds + 1,
                        _ => s.adds,
                    };
                    if adds > max_adds {
                        return;
                    }
                    if a[0] != "status" && a[0] != "init" && q.is_ok() && (a[0] != "make" || a.get(2).map_or(true, |l| l == "x" || l == "y")) {
                        next.lock().unwrap().push((k, St { tree: visible(&without_defs(&after)), clock: *clock, path, adds }));
                    }
                }
                Err((e, d)) => {
                    let n = s.path.len();
                    ctx.fail(
                        None,
                        format!("{text}: {e}{}", d.as_ref().map_or(String::new(), |d| format!(" ({})", d.show()))),
                        J::obj(vec![("before", J::strs(&s.path)), ("command", J::s(text)), ("wrong", J::s(e)), ("result", J::s(d.map_or(String::new(), |d| d.show()))), ("versions", J::strs(&p.names()))]),
                        n,
                    );
                }
            }
        });
        let mut v = next.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        level = vec![];
        for (_, mut s) in v {
            s.tree.insert(format!("{DEFS}/"), vec![]);
            if seen.insert((s.tree.clone(), s.clock)) {
                level.push(s);
            }
        }
    }
    let _ = &base;
    ctx.count("states", nstates);
    ctx.count("commands", done as u64);
    ctx.max("depth", depth as u64);
    ctx.count("traces_validated_against_impl", done as u64);
    ctx.note(format!("{} further states at depth {depth} are not explored", level.len()));
    ctx.bound("sequences", J::s(format!("all of up to {depth} commands from a new project, states merged; before each command one of {} sets of definitions (one in two files, two wrong ones)", defs.len())));
    ctx.bound("commands", J::s("stage, status, reset, init, make with labels x, y and none at the same second and one later, and 12 strange labels after up to 2 commands (thorough: 4)"));
    ctx.assume("the time does not go backwards; up to 3 seconds pass");
}
