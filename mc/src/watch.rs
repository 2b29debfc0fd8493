//! Calls into podo's code under a watchdog: a call that does not end is reported as a violation.
use crate::json::J;
use crate::model::Db;
use crate::report::Ctx;
use crate::sut::*;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

const LIMIT: u64 = 30_000;

#[derive(Default)]
struct Slot {
    /// milliseconds since the start, plus one; 0 outside of calls
    since: AtomicU64,
    what: Mutex<String>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static MINE: Arc<Slot> = {
        let s = Arc::new(Slot::default());
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
static START: OnceLock<Instant> = OnceLock::new();
fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Starts the watchdog.
pub fn start(ctx: &'static Ctx, seed: i64) {
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let late = {
            let t = now();
            let mut s = SLOTS.lock().unwrap();
            s.retain(|x| Arc::strong_count(x) > 1);
            s.iter().find(|x| matches!(x.since.load(Relaxed), a if a > 0 && t > a + LIMIT)).map(|x| x.what.lock().unwrap().clone())
        };
        if let Some(w) = late {
            ctx.fail(None, format!("podo's code does not end: {w}"), J::obj(vec![("call", J::s(w.as_str()))]), 0);
            crate::cli::clean();
            std::process::exit(ctx.finish(seed));
        }
    });
}

fn watch<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> T {
    MINE.with(|m| {
        *m.what.lock().unwrap() = what();
        m.since.store(now(), Relaxed);
    });
    let r = f();
    MINE.with(|m| m.since.store(0, Relaxed));
    r
}

pub struct Watched<'a>(pub &'a dyn Sut);

impl<'a> Sut for Watched<'a> {
    fn set_order(&self, names: &[String]) -> bool {
        self.0.set_order(names)
    }
    fn schema_order(&self, names: &[String]) -> Vec<String> {
        self.0.schema_order(names)
    }
    fn run(&self, s: &Db, so: &[String], t: &Db, to: &[String]) -> Out<Run> {
        watch(|| "diff, apply and revert".to_string(), || self.0.run(s, so, t, to))
    }
    fn diff_len(&self, s: &Db, t: &Db) -> Out<usize> {
        watch(|| "diff".to_string(), || self.0.diff_len(s, t))
    }
    fn save_defs(&self, file: &Path, db: &Db) -> Out<()> {
        watch(|| "saving definitions".to_string(), || self.0.save_defs(file, db))
    }
    fn load_defs(&self, dir: &Path) -> Out<Db> {
        watch(|| "loading definitions".to_string(), || self.0.load_defs(dir))
    }
    fn load_str(&self, s: &str) -> Out<Db> {
        watch(|| format!("loading the definitions {s:?}"), || self.0.load_str(s))
    }
    fn yaml(&self, s: &str) -> Result<J, String> {
        self.0.yaml(s)
    }
    fn expand(&self, s: &str) -> Out<String> {
        watch(|| format!("expanding {s:?}"), || self.0.expand(s))
    }
    fn version_file(&self, dir: &Path, name: &str, prev: Option<&str>, s: &Db, t: &Db) -> Out<(Ver, Ver)> {
        watch(|| "saving and loading a version".to_string(), || self.0.version_file(dir, name, prev, s, t))
    }
    fn changes_json(&self, s: &Db, t: &Db) -> Out<(String, String)> {
        watch(|| "changes as JSON".to_string(), || self.0.changes_json(s, t))
    }
    fn read_version(&self, dir: &Path, name: &str) -> Out<Ver> {
        watch(|| format!("reading version {name:?}"), || self.0.read_version(dir, name))
    }
    fn write_version(&self, dir: &Path, v: &Ver) -> Out<()> {
        watch(|| format!("writing version {:?}", v.name), || self.0.write_version(dir, v))
    }
    fn hist_current(&self, dir: &Path) -> Out<String> {
        watch(|| format!("current version of {}", files(dir)), || self.0.hist_current(dir))
    }
    fn hist_range(&self, dir: &Path, from: &str, to: &str) -> Out<Vec<String>> {
        watch(|| format!("range from {from:?} to {to:?} of {}", files(dir)), || self.0.hist_range(dir, from, to))
    }
    fn hist_snapshot(&self, dir: &Path, at: &str) -> Out<Db> {
        watch(|| format!("snapshot at {at:?} of {}", files(dir)), || self.0.hist_snapshot(dir, at))
    }
}

fn files(dir: &Path) -> String {
    HIST.with(|h| h.borrow().clone()).unwrap_or_else(|| dir.display().to_string())
}
thread_local! {
    /// what the history directory of this thread holds, for messages
    pub static HIST: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
