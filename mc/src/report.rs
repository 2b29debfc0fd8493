//! Counters, samples, violations, known findings and the evidence file of one check.
use crate::json::J;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub struct Violation {
    pub text: String,
    pub replay: J,
    pub size: usize,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub verif: PathBuf,
    pub exe: PathBuf,
    pub start: Instant,
    known: BTreeMap<String, String>,
    counts: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<J>>,
    viols: Mutex<Vec<Violation>>,
    nviol: Mutex<u64>,
    seen_known: Mutex<BTreeMap<String, (u64, String)>>,
    notes: Mutex<BTreeSet<String>>,
    pub level: Mutex<String>,
    pub bounds: Mutex<Vec<(String, J)>>,
    pub assumptions: Mutex<Vec<String>>,
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, verif: PathBuf, exe: PathBuf) -> Ctx {
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in s.lines() {
                // KF <name> property=<id> <what fails>
                let w: Vec<&str> = l.splitn(4, ' ').collect();
                if w.len() == 4 && w[0] == "KF" && w[2] == format!("property={id}") {
                    known.insert(w[1].to_owned(), w[3].to_owned());
                }
            }
        }
        Ctx {
            id: id.into(),
            thorough,
            verif,
            exe,
            start: Instant::now(),
            known,
            counts: Default::default(),
            samples: Default::default(),
            viols: Default::default(),
            nviol: Default::default(),
            seen_known: Default::default(),
            notes: Default::default(),
            level: Mutex::new("model_checking".into()),
            bounds: Default::default(),
            assumptions: Default::default(),
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counts.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counts.lock().unwrap();
        let e = c.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&self, j: J) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(j);
        }
    }
    pub fn bound(&self, k: &str, v: J) {
        self.bounds.lock().unwrap().push((k.into(), v));
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().insert(s);
    }
    pub fn level(&self, s: &str) {
        *self.level.lock().unwrap() = s.into();
    }
    /// A failure. `kf` names the known finding it is an instance of, if any.
    pub fn fail(&self, kf: Option<&str>, text: String, replay: J, size: usize) {
        if let Some(k) = kf {
            if self.known.contains_key(k) {
                let mut s = self.seen_known.lock().unwrap();
                let e = s.entry(k.into()).or_insert((0, text));
                e.0 += 1;
                return;
            }
        }
        *self.nviol.lock().unwrap() += 1;
        let mut v = self.viols.lock().unwrap();
        v.push(Violation { text, replay, size });
        if v.len() > 400 {
            v.sort_by_key(|x| x.size);
            v.truncate(100);
        }
    }
    pub fn is_known(&self, kf: &str) -> bool {
        self.known.contains_key(kf)
    }
    pub fn violations(&self) -> u64 {
        *self.nviol.lock().unwrap()
    }
    pub fn too_many(&self) -> bool {
        self.violations() > 2000
    }
    pub fn finish(&self, seed: i64) -> i32 {
        let mut cov: Vec<(String, J)> = self.counts.lock().unwrap().iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect();
        cov.push(("samples".into(), J::A(self.samples.lock().unwrap().clone())));
        cov.push(("bounds".into(), J::O(self.bounds.lock().unwrap().clone())));
        cov.push(("exhaustive".into(), J::B(true)));
        let notes = self.notes.lock().unwrap();
        if !notes.is_empty() {
            cov.push(("notes".into(), J::A(notes.iter().map(|s| J::s(s.as_str())).collect())));
        }
        let known = self.seen_known.lock().unwrap();
        if !known.is_empty() {
            cov.push((
                "known_findings".into(),
                J::O(known.iter().map(|(k, (n, t))| (k.clone(), J::s(format!("{n} cases, e.g. {t}")))).collect()),
            ));
        }
        let nv = self.violations();
        let ev = J::obj(vec![
            ("property", J::s(self.id.as_str())),
            ("tier", J::s(if self.thorough { "thorough" } else { "quick" })),
            ("seed", J::I(seed)),
            ("level", J::s(self.level.lock().unwrap().as_str())),
            ("coverage", J::O(cov)),
            ("assumptions", J::A(self.assumptions.lock().unwrap().iter().map(|s| J::s(s.as_str())).collect())),
            ("wall_s", J::F((self.start.elapsed().as_millis() as f64) / 1000.0)),
            ("violations", J::I(nv as i64)),
        ]);
        std::fs::create_dir_all(self.verif.join("evidence")).ok();
        std::fs::write(self.verif.join(format!("evidence/{}.json", self.id)), ev.pretty()).expect("evidence file");
        for (k, (n, _)) in known.iter() {
            println!("KNOWN-FINDING: property={} {k}: {} ({n} cases)", self.id, self.known[k]);
        }
        let counts = self.counts.lock().unwrap();
        println!(
            "{} {}: {} in {:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            counts.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "),
            self.start.elapsed().as_secs_f64()
        );
        if nv == 0 {
            return 0;
        }
        let mut v = self.viols.lock().unwrap();
        v.sort_by_key(|x| x.size);
        let dir = self.verif.join("out/replay");
        std::fs::create_dir_all(&dir).ok();
        let mut shown = BTreeSet::new();
        for (i, x) in v.iter().enumerate() {
            if shown.len() >= 5 {
                break;
            }
            let short: String = x.text.chars().take(60).collect();
            if !shown.insert(short) {
                continue;
            }
            let p = dir.join(format!("{}-{}.json", self.id, i));
            let r = J::obj(vec![
                ("property", J::s(self.id.as_str())),
                ("what", J::s(x.text.as_str())),
                ("case", x.replay.clone()),
            ]);
            std::fs::write(&p, r.pretty()).ok();
            println!("VIOLATION property={} replay={} {}", self.id, p.display(), x.text.replace('\n', " | "));
        }
        println!("{nv} violating cases in all");
        1
    }
}

/// Runs `f` for every item on all cores; stops early when there are too many violations.
pub fn par<T: Sync, F: Fn(usize, &T) + Sync>(ctx: &Ctx, items: &[T], f: F) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(8);
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= items.len() || ctx.too_many() {
                    break;
                }
                f(i, &items[i]);
            });
        }
    });
}
