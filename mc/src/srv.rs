//! A live model server: the engine behind a Unix socket, with faults at chosen units and gated schedules.
use crate::engine::*;
use crate::pg::Cat;
use crate::wire::{self, *};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fault {
    /// the server rejects the request
    Reject,
    /// the server rejects the request with this of CODES
    As(usize),
    /// rejected with a FATAL error and the connection ends
    Fatal,
    /// the connection ends before the request is executed
    CloseBefore,
    /// the connection ends after the request is executed, before any answer
    CloseAfter,
    /// the connection ends within the answer
    CloseWithin,
    /// podo is killed before the request is executed
    KillBefore,
    /// podo is killed after the request is executed, before any answer
    KillAfter,
}
pub const FAULTS: [Fault; 7] =
    [Fault::Reject, Fault::Fatal, Fault::CloseBefore, Fault::CloseAfter, Fault::CloseWithin, Fault::KillBefore, Fault::KillAfter];

pub const CODES: [(&str, &str); 12] = [
    ("42P07", "relation \"t\" already exists"),
    ("42P01", "relation \"t\" does not exist"),
    ("42704", "type \"x\" does not exist"),
    ("23505", "duplicate key value violates unique constraint \"k\""),
    ("40001", "could not serialize access due to concurrent update"),
    ("42710", "object already exists"),
    ("42501", "permission denied for schema public"),
    ("40P01", "deadlock detected"),
    ("55P03", "canceling statement due to lock timeout"),
    ("57014", "canceling statement due to statement timeout"),
    ("25006", "cannot execute statement in a read-only transaction"),
    ("2BP01", "cannot drop object because other objects depend on it"),
];

#[derive(Clone, Debug)]
pub struct Entry {
    pub conn: u32,
    pub unit: Unit,
    pub reply: Vec<u8>,
}

#[derive(Default)]
struct State {
    pg: Pg,
    next: u32,
    open: BTreeSet<u32>,
    waits: BTreeMap<u32, BTreeSet<u32>>,
    log: Vec<Entry>,
    fault: Option<(usize, Fault)>,
    fired: bool,
    kill: bool,
    /// with a gate, a unit is handled only when its connection has the turn
    gated: bool,
    pending: BTreeSet<u32>,
    turn: Option<u32>,
    /// connections are refused
    refuse: bool,
    deadlocks: u64,
    /// committed contents after each change of them
    commits: Vec<Cat>,
    epoch: u64,
}

struct Shared {
    m: Mutex<State>,
    cv: Condvar,
}

#[derive(Clone)]
pub struct Server {
    pub dir: PathBuf,
    sh: Arc<Shared>,
}

impl Server {
    /// Listens in `dir` like PostgreSQL on port 5432.
    pub fn start(dir: &Path) -> Server {
        std::fs::create_dir_all(dir).expect("server directory");
        let sock = dir.join(".s.PGSQL.5432");
        let _ = std::fs::remove_file(&sock);
        let l = UnixListener::bind(&sock).expect("socket");
        let sh = Arc::new(Shared { m: Mutex::new(State::default()), cv: Condvar::new() });
        let s2 = sh.clone();
        std::thread::spawn(move || {
            for c in l.incoming() {
                let Ok(c) = c else { break };
                let sh = s2.clone();
                let (id, epoch) = {
                    let mut st = sh.m.lock().unwrap();
                    if st.refuse {
                        continue;
                    }
                    let id = st.next;
                    st.next += 1;
                    st.open.insert(id);
                    (id, st.epoch)
                };
                std::thread::spawn(move || {
                    serve(&sh, id, epoch, c);
                    let mut st = sh.m.lock().unwrap();
                    if st.epoch == epoch {
                        st.pg.disconnect(id);
                        st.waits.remove(&id);
                        st.pending.remove(&id);
                        st.open.remove(&id);
                        if st.turn == Some(id) {
                            st.turn = None;
                        }
                    }
                    drop(st);
                    sh.cv.notify_all();
                });
            }
        });
        Server { dir: dir.to_owned(), sh }
    }
    fn st(&self) -> MutexGuard<'_, State> {
        self.sh.m.lock().unwrap()
    }
    pub fn url(&self) -> String {
        format!("host={} user=u dbname=d", self.dir.display())
    }
    /// A fresh server with these contents and no connections.
    pub fn reset(&self, pg: Pg) {
        let mut st = self.st();
        let e = st.epoch + 1;
        *st = State { pg, epoch: e, ..State::default() };
        self.sh.cv.notify_all();
    }
    pub fn set_fault(&self, f: Option<(usize, Fault)>) {
        let mut st = self.st();
        st.fault = f;
        st.fired = false;
        st.log.clear();
    }
    pub fn refuse(&self, r: bool) {
        self.st().refuse = r;
    }
    pub fn fired(&self) -> bool {
        self.st().fired
    }
    pub fn wants_kill(&self) -> bool {
        self.st().kill
    }
    pub fn log(&self) -> Vec<Entry> {
        self.st().log.clone()
    }
    pub fn commits(&self) -> Vec<Cat> {
        self.st().commits.clone()
    }
    pub fn deadlocks(&self) -> u64 {
        self.st().deadlocks
    }
    /// Waits until no connection is left; the committed contents.
    pub fn settled(&self) -> Option<Pg> {
        let end = Instant::now() + Duration::from_secs(10);
        let mut st = self.st();
        while !st.open.is_empty() {
            let now = Instant::now();
            if now >= end {
                return None;
            }
            st = self.sh.cv.wait_timeout(st, end - now).unwrap().0;
        }
        Some(st.pg.clone())
    }
    // gates, for replaying schedules
    pub fn gate(&self) {
        self.st().gated = true;
    }
    pub fn ungate(&self) {
        let mut st = self.st();
        st.gated = false;
        self.sh.cv.notify_all();
    }
    /// Waits for the `n`-th connection to have a request pending, or to be gone (false).
    pub fn await_pending(&self, id: u32, gone: &dyn Fn() -> bool) -> bool {
        let end = Instant::now() + Duration::from_secs(20);
        let mut st = self.st();
        loop {
            if st.pending.contains(&id) && st.turn.is_none() {
                return true;
            }
            if (st.next > id && !st.open.contains(&id)) || Instant::now() > end {
                return false;
            }
            if gone() && !(st.next > id && st.open.contains(&id)) {
                return false;
            }
            st = self.sh.cv.wait_timeout(st, Duration::from_millis(5)).unwrap().0;
        }
    }
    /// Lets the connection's pending request be handled (or found waiting for a lock).
    pub fn step(&self, id: u32) {
        let mut st = self.st();
        st.turn = Some(id);
        self.sh.cv.notify_all();
        let end = Instant::now() + Duration::from_secs(20);
        while st.turn == Some(id) && Instant::now() < end {
            st = self.sh.cv.wait_timeout(st, Duration::from_millis(50)).unwrap().0;
        }
    }
}

fn cycle(w: &BTreeMap<u32, BTreeSet<u32>>, from: u32) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<u32> = w.get(&from).into_iter().flatten().copied().collect();
    while let Some(x) = todo.pop() {
        if x == from {
            return true;
        }
        if seen.insert(x) {
            todo.extend(w.get(&x).into_iter().flatten());
        }
    }
    false
}

fn serve(sh: &Shared, id: u32, epoch: u64, c: UnixStream) {
    let Ok(mut w) = c.try_clone() else { return };
    let mut r = Reader::new(std::io::BufReader::new(c));
    let mut conn = Conn::default();
    while let Some(unit) = r.unit() {
        let mut st = sh.m.lock().unwrap();
        if st.gated {
            st.pending.insert(id);
            sh.cv.notify_all();
            while st.gated && st.turn != Some(id) && st.epoch == epoch {
                st = sh.cv.wait(st).unwrap();
            }
            st.pending.remove(&id);
        }
        if st.epoch != epoch {
            return;
        }
        let k = st.log.len();
        st.log.push(Entry { conn: id, unit: unit.clone(), reply: vec![] });
        let mut fault = None;
        if let Some((n, f)) = st.fault {
            if n == k {
                st.fired = true;
                fault = Some(f);
            }
        }
        let startup = unit[0] == Msg::Startup;
        match fault {
            Some(Fault::Reject | Fault::As(_)) if unit != vec![Msg::Terminate] => {
                let why = match fault {
                    Some(Fault::As(i)) => Some(CODES[i]),
                    _ => None,
                };
                let b = refuse(&mut conn, &mut st.pg, id, &unit, why);
                st.log[k].reply = b.clone();
                drop(st);
                let _ = w.write_all(&b);
                if startup {
                    return;
                }
                continue;
            }
            Some(Fault::Fatal) => {
                st.pg.disconnect(id);
                drop(st);
                let _ = w.write_all(&wire::error("FATAL", "57P01", "terminating connection due to administrator command"));
                return;
            }
            Some(Fault::CloseBefore) => {
                st.pg.disconnect(id);
                return;
            }
            Some(Fault::KillBefore) => {
                st.pg.disconnect(id);
                st.kill = true;
                drop(st);
                sh.cv.notify_all();
                // until the client is gone
                while r.unit().is_some() {}
                return;
            }
            _ => {}
        }
        let reply = loop {
            match conn.handle(&mut st.pg, id, &unit) {
                Reply::Wait(ws) => {
                    st.waits.insert(id, ws);
                    if cycle(&st.waits, id) {
                        st.waits.remove(&id);
                        st.deadlocks += 1;
                        let b = conn.refused(&mut st.pg, id, "40P01", "deadlock detected");
                        break Reply::Bytes(b);
                    }
                    if st.gated {
                        st.turn = None;
                        st.pending.insert(id);
                        sh.cv.notify_all();
                        while st.gated && st.turn != Some(id) && st.epoch == epoch {
                            st = sh.cv.wait(st).unwrap();
                        }
                        st.pending.remove(&id);
                    } else {
                        st = sh.cv.wait_timeout(st, Duration::from_millis(200)).unwrap().0;
                    }
                    if st.epoch != epoch {
                        return;
                    }
                }
                r => break r,
            }
        };
        st.waits.remove(&id);
        match reply {
            Reply::Close => {
                if st.turn == Some(id) {
                    st.turn = None;
                }
                drop(st);
                sh.cv.notify_all();
                return;
            }
            Reply::Bytes(b) => {
                if st.commits.last().map_or(true, |c| *c != st.pg.base) {
                    let c = st.pg.base.clone();
                    st.commits.push(c);
                }
                st.log[k].reply = b.clone();
                match fault {
                    Some(Fault::KillAfter) => {
                        st.kill = true;
                        drop(st);
                        sh.cv.notify_all();
                        while r.unit().is_some() {}
                        return;
                    }
                    Some(Fault::CloseAfter) => return,
                    Some(Fault::CloseWithin) => {
                        drop(st);
                        let _ = w.write_all(&b[..b.len() / 2]);
                        return;
                    }
                    _ => {}
                }
                let ok = w.write_all(&b).is_ok();
                if st.turn == Some(id) {
                    st.turn = None;
                }
                drop(st);
                sh.cv.notify_all();
                if !ok {
                    return;
                }
            }
            Reply::Wait(_) => unreachable!(),
        }
    }
}

/// The server rejects a request: an error in a transaction fails it, an error of COMMIT ends it.
fn refuse(conn: &mut Conn, pg: &mut Pg, id: u32, unit: &Unit, why: Option<(&str, &str)>) -> Vec<u8> {
    match &unit[0] {
        Msg::Startup => wire::error("FATAL", "53300", "sorry, too many clients already"),
        Msg::Query(q) if q.trim().trim_end_matches(';').eq_ignore_ascii_case("commit") => {
            pg.exec(id, "ROLLBACK", &[]);
            let (c, t) = why.unwrap_or(("40001", "could not serialize access"));
            let mut v = wire::error("ERROR", c, t);
            v.extend(Conn::ready(pg, id));
            v
        }
        _ => {
            let (c, t) = why.unwrap_or(("53100", "could not extend file: No space left on device"));
            conn.refused(pg, id, c, t)
        }
    }
}
