//! C12: concurrent migrations. Each command is learnt from the real program as a function from the answers it
//! got to its next request; the product with the transactional server model is explored exhaustively;
//! schedules are replayed with real processes on the live model server.
use crate::cli::*;
use crate::dbcheck::*;
use crate::engine::*;
use crate::fix::*;
use crate::json::J;
use crate::model::{Col, Db, Table};
use crate::pg::Cat;
use crate::report::{par, Ctx};
use crate::srv::Server;
use crate::sut::Sut;
use crate::wire::{self, *};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::io::Write;
use std::os::unix::net::{UnixListener, UnixStream};
use std::process::{Child, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
enum Next {
    Unit(Unit),
    Exit(Option<i32>, String),
}

/// What the program did with each sequence of answers.
struct Tree_ {
    args: Vec<String>,
    nodes: Vec<TNode>,
}
struct TNode {
    parent: usize,
    reply: Option<Vec<u8>>,
    next: Option<Next>,
    kids: HashMap<Option<Vec<u8>>, usize>,
}

struct Puppet<'a> {
    w: &'a World,
    l: UnixListener,
}

impl<'a> Puppet<'a> {
    fn new(w: &'a World) -> Puppet<'a> {
        let d = w.root.join("pup");
        std::fs::create_dir_all(&d).expect("scratch directory");
        let s = d.join(".s.PGSQL.5432");
        let _ = std::fs::remove_file(&s);
        let l = UnixListener::bind(s).expect("socket");
        l.set_nonblocking(true).expect("socket");
        Puppet { w, l }
    }
    fn url(&self) -> String {
        format!("host={} user=u dbname=d", self.w.root.join("pup").display())
    }
    /// Runs the program on these answers; all its requests, and how it ended if it did.
    fn play(&self, args: &[String], replies: &[Option<Vec<u8>>]) -> Result<(Vec<Unit>, Option<Next>), String> {
        let r = Run { args: args.to_vec(), ..Run::default() };
        let (o, e) = (self.w.root.join("pout"), self.w.root.join("perr"));
        let mut c = self.w.command(&r);
        c.stdin(Stdio::null()).stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
        let mut p = c.spawn().map_err(|e| e.to_string())?;
        let r = self.play0(&mut p, replies);
        let _ = p.kill();
        let _ = p.wait();
        let (units, code) = r?;
        let text = || format!("{}{}", std::fs::read_to_string(&o).unwrap_or_default(), std::fs::read_to_string(&e).unwrap_or_default());
        Ok((units, code.map(|c| Next::Exit(c, short(&text())))))
    }
    fn exit(p: &mut Child) -> Result<Option<i32>, String> {
        let end = Instant::now() + Duration::from_secs(20);
        loop {
            if let Some(s) = p.try_wait().map_err(|e| e.to_string())? {
                return Ok(s.code());
            }
            if Instant::now() > end {
                return Err("podo does not end".into());
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    fn play0(&self, p: &mut Child, replies: &[Option<Vec<u8>>]) -> Result<(Vec<Unit>, Option<Option<i32>>), String> {
        let end = Instant::now() + Duration::from_secs(20);
        let s: UnixStream = loop {
            match self.l.accept() {
                Ok((s, _)) => break s,
                Err(_) => {
                    if let Some(st) = p.try_wait().map_err(|e| e.to_string())? {
                        return Ok((vec![], Some(st.code())));
                    }
                    if Instant::now() > end {
                        return Err("podo does not connect".into());
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        };
        s.set_nonblocking(false).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(Duration::from_secs(20))).map_err(|e| e.to_string())?;
        let mut w = s.try_clone().map_err(|e| e.to_string())?;
        let mut r = Reader::new(std::io::BufReader::new(s));
        let mut units = vec![];
        for rep in replies {
            match r.unit() {
                None => return Ok((units, Some(Self::exit(p)?))),
                Some(u) => units.push(u),
            }
            match rep {
                Some(b) => {
                    let _ = w.write_all(b);
                }
                None => {
                    drop(r);
                    drop(w);
                    return Ok((units, Some(Self::exit(p)?)));
                }
            }
        }
        match r.unit() {
            None => Ok((units, Some(Self::exit(p)?))),
            Some(u) => {
                units.push(u);
                Ok((units, None))
            }
        }
    }
}

impl Tree_ {
    fn new(args: &[String]) -> Tree_ {
        Tree_ { args: args.to_vec(), nodes: vec![TNode { parent: 0, reply: None, next: None, kids: HashMap::new() }] }
    }
    fn kid(&mut self, n: usize, reply: Option<Vec<u8>>) -> usize {
        if let Some(k) = self.nodes[n].kids.get(&reply) {
            return *k;
        }
        let k = self.nodes.len();
        self.nodes.push(TNode { parent: n, reply: reply.clone(), next: None, kids: HashMap::new() });
        self.nodes[n].kids.insert(reply, k);
        k
    }
    fn next(&mut self, ctx: &Ctx, p: &Puppet, n: usize) -> Result<Next, String> {
        if let Some(x) = &self.nodes[n].next {
            return Ok(x.clone());
        }
        let mut path = vec![];
        let mut x = n;
        while x != 0 {
            path.push(x);
            x = self.nodes[x].parent;
        }
        path.push(0);
        path.reverse();
        let replies: Vec<_> = path[1..].iter().map(|k| self.nodes[*k].reply.clone()).collect();
        ctx.count("executions", 1);
        let (units, end) = p.play(&self.args, &replies)?;
        for (i, u) in units.iter().enumerate() {
            let Some(k) = path.get(i) else { break };
            let u = Next::Unit(u.clone());
            match &self.nodes[*k].next {
                None => self.nodes[*k].next = Some(u),
                Some(x) if *x != u => return Err(format!("podo {} does not answer the same way twice: {:?} and {:?}", self.args.join(" "), x, u)),
                _ => {}
            }
        }
        if let Some(e) = end {
            if self.nodes[n].next.is_none() {
                self.nodes[n].next = Some(e);
            }
        }
        self.nodes[n].next.clone().ok_or_else(|| "podo ended before its answers did".into())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Cl {
    node: usize,
    conn: Conn,
    waits: Option<BTreeSet<u32>>,
    done: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct S {
    pg: Pg,
    cl: Vec<Cl>,
}

struct Found {
    /// client of each step; true if that step made the client the victim of a deadlock
    path: Vec<(usize, bool)>,
    codes: Vec<Option<i32>>,
    st: Result<DbState, String>,
}

fn cycle(cl: &[Cl], from: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<u32> = cl[from].waits.iter().flatten().copied().collect();
    while let Some(x) = todo.pop() {
        if x as usize == from {
            return true;
        }
        if seen.insert(x) {
            todo.extend(cl[x as usize].waits.iter().flatten());
        }
    }
    false
}

/// All reachable states of the product.
fn product(ctx: &Ctx, p: &Puppet, b: &Built, n: &Node, trees: &mut Vec<Tree_>, cmds: &[Vec<String>]) -> Result<Vec<Found>, String> {
    let which: Vec<usize> = cmds.iter().map(|c| trees.iter().position(|t| t.args == *c).unwrap()).collect();
    let start = S { pg: n.pg.clone(), cl: cmds.iter().map(|_| Cl { node: 0, conn: Conn::default(), waits: None, done: false }).collect() };
    let mut seen: HashSet<S> = HashSet::new();
    let mut from: Vec<(usize, usize, bool)> = vec![(0, 0, false)];
    let mut todo: VecDeque<(S, usize)> = VecDeque::new();
    let mut out = vec![];
    seen.insert(start.clone());
    todo.push_back((start, 0));
    while let Some((s, at)) = todo.pop_front() {
        ctx.count("states", 1);
        if s.cl.iter().all(|c| c.done) {
            let mut path = vec![];
            let mut x = at;
            while x != 0 {
                path.push((from[x].1, from[x].2));
                x = from[x].0;
            }
            path.reverse();
            let codes = (0..cmds.len())
                .map(|i| match &trees[which[i]].nodes[s.cl[i].node].next {
                    Some(Next::Exit(c, _)) => *c,
                    _ => None,
                })
                .collect();
            out.push(Found { path, codes, st: db_state(&s.pg.base, &b.meta) });
            continue;
        }
        let mut moved = false;
        for i in 0..s.cl.len() {
            if s.cl[i].done {
                continue;
            }
            let unit = match trees[which[i]].next(ctx, p, s.cl[i].node)? {
                Next::Exit(..) => {
                    let mut t = s.clone();
                    t.cl[i].done = true;
                    t.pg.disconnect(i as u32);
                    moved = true;
                    if seen.insert(t.clone()) {
                        from.push((at, i, false));
                        todo.push_back((t, from.len() - 1));
                    }
                    continue;
                }
                Next::Unit(u) => u,
            };
            let mut results = vec![];
            let mut t = s.clone();
            match t.cl[i].conn.handle(&mut t.pg, i as u32, &unit) {
                Reply::Bytes(r) => {
                    t.cl[i].waits = None;
                    t.cl[i].node = trees[which[i]].kid(s.cl[i].node, Some(r));
                    results.push((t, false));
                }
                Reply::Close => {
                    t.cl[i].waits = None;
                    t.cl[i].node = trees[which[i]].kid(s.cl[i].node, None);
                    results.push((t, false));
                }
                Reply::Wait(w) => {
                    ctx.count("waits", 1);
                    t.cl[i].waits = Some(w);
                    if cycle(&t.cl, i) {
                        // any of them may be the victim; each is tried when its turn comes
                        let mut v = t.clone();
                        let r = v.cl[i].conn.refused(&mut v.pg, i as u32, "40P01", "deadlock detected");
                        v.cl[i].waits = None;
                        v.cl[i].node = trees[which[i]].kid(s.cl[i].node, Some(r));
                        ctx.count("deadlocks", 1);
                        results.push((v, true));
                    }
                    if t != s {
                        results.push((t, false));
                    }
                }
            }
            for (t, victim) in results {
                ctx.count("transitions", 1);
                moved = true;
                if seen.insert(t.clone()) {
                    from.push((at, i, victim));
                    todo.push_back((t, from.len() - 1));
                }
            }
        }
        if !moved {
            return Err("all commands wait for each other".into());
        }
        if seen.len() > 400_000 {
            return Err("too many states".into());
        }
    }
    Ok(out)
}

/// Is the outcome that of the successful commands one after another, in some order?
fn serial(b: &Built, h: usize, n: &Node, cmds: &[Vec<String>], f: &Found) -> Option<String> {
    let st = match &f.st {
        Ok(s) => s,
        Err(e) => return Some(format!("the database's record is broken: {e}")),
    };
    // the record itself
    let names = st.names();
    let chain = &b.chains[h];
    if names.iter().zip(chain).any(|(a, b)| a != b) || names.len() > chain.len() {
        return Some(format!("the recorded versions {names:?} are no beginning of the chain {chain:?}"));
    }
    for (i, r) in st.rows.iter().flatten().enumerate() {
        if r.previous.as_ref() != (i > 0).then(|| &names[i - 1]) {
            return Some(format!("version {:?} is recorded on top of {:?}", r.name, r.previous));
        }
    }
    let want = normal(&b.dbs[names.len().max(1) - 1]);
    if st.schema != want {
        return Some(format!("recorded version {:?}, but the schema differs from its: {}", names.last(), st.schema.diff_text(&want)));
    }
    let good: Vec<usize> = (0..cmds.len()).filter(|i| f.codes[*i] == Some(0)).collect();
    let base = |s: &DbState| if s.rows.is_none() { vec!["init".to_string()] } else { s.names() };
    'orders: for perm in crate::model::perms(good.len()) {
        let mut cur = n.clone();
        for k in perm {
            match expect(b, h, &cur, &cmds[good[k]]) {
                Want::Stay(true) => continue 'orders,
                Want::Stay(false) => {}
                Want::Move(rows, after) => {
                    cur.st.schema = after.last().unwrap().clone();
                    cur.st.rows = Some(rows);
                    cur.after = after;
                }
            }
        }
        if base(&cur.st) == base(st) {
            return None;
        }
    }
    Some(format!(
        "commands {:?} report success, but in no order would they lead to {:?}",
        good.iter().map(|i| cmds[*i].join(" ")).collect::<Vec<_>>(),
        base(st)
    ))
}

/// Replays a schedule with real processes; what differs from the product.
fn live(ctx: &Ctx, ws: &[&World], b: &Built, h: usize, n: &Node, cmds: &[Vec<String>], f: &Found) -> Result<(), String> {
    let srv: &Server = ws[0].srv();
    srv.reset(n.pg.clone());
    srv.gate();
    for w in ws {
        restore(&w.project(), &b.tree(h, &srv.url()));
    }
    let ended: Vec<std::sync::atomic::AtomicBool> = cmds.iter().map(|_| Default::default()).collect();
    let mut codes = vec![None; cmds.len()];
    let r = std::thread::scope(|s| -> Result<(), String> {
        let mut hs = vec![];
        for (i, c) in cmds.iter().enumerate() {
            let w = ws[i];
            let e = &ended[i];
            hs.push(s.spawn(move || {
                let d = w.run(&Run { args: c.clone(), ..Run::default() });
                e.store(true, std::sync::atomic::Ordering::SeqCst);
                d.code
            }));
            // connections are numbered in the order of starting
            srv.await_pending(i as u32, &|| e.load(std::sync::atomic::Ordering::SeqCst));
        }
        for (i, _) in &f.path {
            let e = &ended[*i];
            if srv.await_pending(*i as u32, &|| e.load(std::sync::atomic::Ordering::SeqCst)) {
                srv.step(*i as u32);
            }
        }
        srv.ungate();
        for (i, h) in hs.into_iter().enumerate() {
            codes[i] = h.join().map_err(|_| "a worker failed".to_string())?;
        }
        Ok(())
    });
    r?;
    ctx.count("schedules_replayed", 1);
    let Some(pg) = srv.settled() else { return Err("a connection stays open".into()) };
    let st = db_state(&pg.base, &b.meta);
    if codes != f.codes {
        return Err(format!("exit codes {codes:?} instead of {:?}", f.codes));
    }
    if st != f.st {
        return Err(format!("database {:?} instead of {:?}", st.map(|s| s.show()), f.st.as_ref().map(|s| s.show())));
    }
    Ok(())
}

pub fn run_c12(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, true);
    // statements that fail when they come twice, and statements that do not
    for h0 in [hists().remove(0), repeatable()].iter() {
        run_hist(ctx, sut, &pool, h0);
    }
    ctx.bound("commands", J::s(if ctx.thorough { "all pairs of 8 up, down and status commands, all triples of 4" } else { "all pairs of up, down, up to the first version, down to init" }));
    ctx.bound("start states", J::s("not initialised and every version of two histories of three, one of them of statements that can be repeated"));
    ctx.bound("schedules", J::s("all interleavings of the requests, with waiting for locks and every choice of a deadlock's victim; states are deduplicated"));
    ctx.assume("a request is executed at once; requests of different sessions interleave between, and where a request has to wait for a lock, within it");
    ctx.assume("READ COMMITTED; locks, uniqueness and waiting as in PostgreSQL's documentation; the order in which waiting sessions get a lock is arbitrary");
}

/// Versions that can be applied and reverted any number of times without an error.
fn repeatable() -> Hist {
    let d = |def: Option<&str>, nn: bool| {
        let mut c = Col::new("k", "text");
        if let Some(x) = def {
            c = c.def(x);
        }
        if nn {
            c = c.nn();
        }
        Db::init().table("public", "t", Table::new(vec![c]))
    };
    Hist {
        name: "repeatable",
        meta: META.into(),
        steps: vec![("a".into(), d2024(0), d(None, false)), ("b".into(), d2024(1), d(Some("'7'"), false)), ("c".into(), d2024(2), d(Some("'8'"), true))],
        last: d(Some("'9'"), false),
        unstaged: d(Some("'9'"), true),
    }
}

fn run_hist(ctx: &Ctx, sut: &dyn Sut, pool: &Pool, h0: &Hist) {
    let b = match pool.with(|w| make(w, sut, h0)) {
        Ok(b) => b,
        Err(e) => {
            ctx.fail(None, format!("cannot make the history: {e}"), J::s(e), 1);
            return;
        }
    };
    let h = b.trees.len() - 1;
    let chain = b.chains[h].clone();
    let cmd = |c: &str, t: Option<usize>| -> Vec<String> {
        let mut v = vec![c.to_string()];
        if let Some(t) = t {
            v.push("--version".into());
            v.push(chain[t].clone());
        }
        v
    };
    // start states: not initialised, and every version
    let mut starts: Vec<Node> = vec![Node { pg: empty_pg(), st: db_state(&Cat::new(), &b.meta).unwrap(), after: vec![], path: vec![] }];
    for t in 0..=h {
        // up to t through up and down, so that the counters have gaps
        let hi = (t + 1).min(h);
        let r = pool.with(|w| -> Result<Node, String> {
            restore(&w.project(), &b.tree(h, &w.srv().url()));
            w.srv().reset(empty_pg());
            for c in [cmd("up", Some(hi)), cmd("down", Some(t))] {
                let d = w.run(&Run { args: c.clone(), ..Run::default() });
                if !d.ok() {
                    return Err(format!("podo {}: {}", c.join(" "), d.show()));
                }
            }
            let pg = w.srv().settled().ok_or("the connection stays open")?;
            let st = db_state(&pg.base, &b.meta)?;
            if st.names() != chain[..=t] {
                return Err(format!("the database is at {:?} instead of {:?}", st.names(), &chain[..=t]));
            }
            Ok(Node { pg, st, after: (0..=t).map(|i| normal(&b.dbs[i])).collect(), path: vec![format!("up to {hi}, down to {t}")] })
        });
        match r {
            Ok(n) => starts.push(n),
            Err(e) => {
                ctx.fail(None, format!("cannot reach version {t}: {e}"), J::s(e), 1);
                return;
            }
        }
    }
    let mut kinds = vec![cmd("up", None), cmd("down", None), cmd("up", Some(1)), cmd("down", Some(0))];
    if ctx.thorough {
        kinds.extend([cmd("up", Some(2)), cmd("down", Some(1)), cmd("up", Some(h + 1)), vec!["status".to_string()]]);
    }
    let mut jobs: Vec<(usize, Vec<Vec<String>>)> = vec![];
    for s in 0..starts.len() {
        for i in 0..kinds.len() {
            for j in i..kinds.len() {
                jobs.push((s, vec![kinds[i].clone(), kinds[j].clone()]));
                if ctx.thorough {
                    for k in j..4 {
                        if j < 4 {
                            jobs.push((s, vec![kinds[i].clone(), kinds[j].clone(), kinds[k].clone()]));
                        }
                    }
                }
            }
        }
    }
    par(ctx, &jobs, |ji, (s, cmds)| {
        let n = &starts[*s];
        // one world per command
        let go = |ws: &[&World]| {
            let w = ws[0];
            let p = Puppet::new(w);
            restore(&w.project(), &b.tree(h, &p.url()));
            let mut trees: Vec<Tree_> = vec![];
            for c in cmds {
                if !trees.iter().any(|t| t.args == *c) {
                    trees.push(Tree_::new(c));
                }
            }
            let title = format!("{} on a database at {:?}", cmds.iter().map(|c| format!("podo {}", c.join(" "))).collect::<Vec<_>>().join(" || "), n.st.names().last());
            let found = match product(ctx, &p, &b, n, &mut trees, cmds) {
                Ok(f) => f,
                Err(e) => {
                    ctx.fail(None, format!("{title}: {e}"), J::obj(vec![("commands", J::s(title.clone())), ("error", J::s(e))]), 50);
                    return;
                }
            };
            ctx.count("outcomes", found.len() as u64);
            for f in &found {
                if let Some(e) = serial(&b, h, n, cmds, f) {
                    let steps: Vec<String> = schedule(&trees, cmds, f);
                    ctx.fail(
                        None,
                        format!("{title}: {e}"),
                        J::obj(vec![
                            ("commands", J::s(title.clone())),
                            ("database before", J::s(n.st.show())),
                            ("schedule", J::strs(&steps)),
                            ("exit codes", J::s(format!("{:?}", f.codes))),
                            ("database after", J::s(f.st.as_ref().map(|s| s.show()).unwrap_or_else(|e| e.clone()))),
                        ]),
                        f.path.len(),
                    );
                }
            }
            // real processes follow the schedule
            let mut shown = 0;
            let every = (found.len() / if ctx.thorough { 12 } else { 3 }).max(1);
            for (i, f) in found.iter().enumerate() {
                if i % every != 0 || f.path.iter().any(|s| s.1) {
                    continue;
                }
                if let Err(e) = live(ctx, ws, &b, h, n, cmds, f) {
                    ctx.fail(
                        None,
                        format!("{title}: real processes behave differently from the explored product: {e}"),
                        J::obj(vec![("commands", J::s(title.clone())), ("schedule", J::strs(&schedule(&trees, cmds, f))), ("difference", J::s(e))]),
                        f.path.len() + 500,
                    );
                } else {
                    ctx.count("traces_validated_against_impl", 1);
                }
                if shown == 0 && ji % 7 == 0 {
                    shown = 1;
                    ctx.sample(J::obj(vec![
                        ("commands", J::s(title.clone())),
                        ("schedule", J::strs(&schedule(&trees, cmds, f))),
                        ("exit codes", J::s(format!("{:?}", f.codes))),
                        ("recorded", J::s(format!("{:?}", f.st.as_ref().map(|s| s.names())))),
                    ]));
                }
            }
        };
        pool.with(|a| pool.with(|c| if cmds.len() == 2 { go(&[a, c]) } else { pool.with(|d| go(&[a, c, d])) }));
    });
}

/// The requests of a schedule, readable.
fn schedule(trees: &[Tree_], cmds: &[Vec<String>], f: &Found) -> Vec<String> {
    let mut out = vec![];
    // follow each client along its path as far as the learnt tree is linear in this schedule
    for (i, v) in &f.path {
        out.push(format!("{}{}{}", i + 1, if cmds[*i].len() > 2 { format!(" (to {})", cmds[*i][2]) } else { String::new() }, if *v { " is chosen as the victim of a deadlock" } else { "" }));
    }
    let _ = trees;
    // runs of the same command in one line
    let mut short: Vec<(String, usize)> = vec![];
    for o in out {
        match short.last_mut() {
            Some((x, n)) if *x == o => *n += 1,
            _ => short.push((o, 1)),
        }
    }
    short.into_iter().map(|(s, n)| format!("command {s}: {n} requests")).collect()
}
