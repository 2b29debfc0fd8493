//! Runs the real program in scratch projects.
use crate::model::Db;
use crate::report::Ctx;
use crate::srv::Server;
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Files below a directory; directories end in a slash.
pub type Tree = BTreeMap<String, Vec<u8>>;

pub fn tree(dir: &Path) -> Tree {
    fn walk(base: &Path, rel: &str, out: &mut Tree) {
        let p = if rel.is_empty() { base.to_owned() } else { base.join(rel) };
        let Ok(rd) = std::fs::read_dir(&p) else { return };
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    out.insert(format!("{r}/"), vec![]);
                    walk(base, &r, out);
                }
                Ok(t) if t.is_symlink() => {
                    let l = std::fs::read_link(base.join(&r)).map(|p| p.display().to_string()).unwrap_or_default();
                    out.insert(r, format!("-> {l}").into_bytes());
                }
                Ok(t) if t.is_file() => {
                    out.insert(r.clone(), std::fs::read(base.join(&r)).unwrap_or_else(|_| b"(unreadable)".to_vec()));
                }
                _ => {}
            }
        }
    }
    let mut out = Tree::new();
    walk(dir, "", &mut out);
    out
}

/// Makes `dir` hold exactly `t`.
pub fn restore(dir: &Path, t: &Tree) {
    let have = tree(dir);
    if have == *t {
        return;
    }
    for (k, _) in have.iter().rev() {
        let p = dir.join(k.trim_end_matches('/'));
        if !t.contains_key(k) {
            if k.ends_with('/') {
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    for (k, v) in t {
        let p = dir.join(k.trim_end_matches('/'));
        if k.ends_with('/') {
            std::fs::create_dir_all(&p).expect("scratch directory");
        } else if have.get(k) != Some(v) {
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).expect("scratch directory");
            }
            std::fs::write(&p, v).expect("scratch file");
        }
    }
}

pub fn show_tree(t: &Tree) -> String {
    t.iter().map(|(k, v)| if k.ends_with('/') { k.clone() } else { format!("{k} ({} bytes)", v.len()) }).collect::<Vec<_>>().join(", ")
}
pub fn tree_diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut d = vec![];
    for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(_), None) => d.push(format!("{k} removed")),
            (None, Some(_)) => d.push(format!("{k} created")),
            (Some(x), Some(y)) if x != y => d.push(format!("{k} changed")),
            _ => {}
        }
    }
    d
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: Option<PathBuf>,
    /// seconds since 1970
    pub clock: Option<i64>,
    /// k-th order of directory listings
    pub order: Option<u32>,
    /// k-th changing file operation, kind, errno
    pub fault: Option<(usize, char, i32)>,
    pub trace: bool,
    pub names: Vec<String>,
    /// run as a user without privileges
    pub nobody: bool,
}

pub fn run(args: &[&str]) -> Run {
    Run { args: args.iter().map(|s| s.to_string()).collect(), ..Run::default() }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub hung: bool,
    /// file operations: (what, path relative to the root)
    pub ops: Vec<(String, String)>,
}
impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn crashed(&self) -> bool {
        self.hung || self.code == Some(101) || self.code.is_none() || self.err.contains("panicked at")
    }
    pub fn show(&self) -> String {
        format!(
            "{}, output {:?}, errors {:?}",
            if self.hung {
                "did not end".to_string()
            } else if let Some(s) = self.signal {
                format!("signal {s}")
            } else {
                format!("exit status {}", self.code.unwrap_or(-1))
            },
            short(&self.out),
            short(&self.err)
        )
    }
}
pub fn short(s: &str) -> String {
    let t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        format!("{t}…")
    } else {
        t
    }
}

/// Scratch space of one worker.
pub struct World {
    pub root: PathBuf,
    exe: PathBuf,
    shim: PathBuf,
    pub srv: Option<Server>,
}

/// The directory below which all scratch projects of this process are.
pub fn base_dir() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let me = std::process::id();
    let d = shm.join(format!("podo-verif-{me}"));
    if shm.is_dir() && std::fs::create_dir_all(&d).is_ok() {
        return d;
    }
    let d = crate::work().join("w");
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
/// Removes what this and earlier, ended processes left.
pub fn clean() {
    if let Ok(rd) = std::fs::read_dir("/dev/shm") {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("podo-verif-") {
                if pid == std::process::id().to_string() || !Path::new("/proc").join(pid).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

impl World {
    pub fn new(ctx: &Ctx, name: &str, server: bool) -> World {
        let root = base_dir().join(name);
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(root.join("p")).expect("scratch directory");
        let shim = ctx.exe.parent().unwrap().join("shim.so");
        let srv = server.then(|| Server::start(&root.join("db")));
        World { root, exe: ctx.exe.clone(), shim, srv }
    }
    pub fn project(&self) -> PathBuf {
        self.root.join("p")
    }
    pub fn path(&self, s: &str) -> PathBuf {
        self.project().join(s)
    }
    pub fn srv(&self) -> &Server {
        self.srv.as_ref().unwrap()
    }
    pub fn command(&self, r: &Run) -> Command {
        let mut c = Command::new(&self.exe);
        c.args(&r.args).current_dir(r.cwd.clone().unwrap_or_else(|| self.project()));
        c.env_clear();
        c.env("PATH", "/usr/bin:/bin").env("HOME", &self.root).env("TZ", "UTC").env("NO_COLOR", "1").env("LD_PRELOAD", &self.shim);
        c.env("PODO_SHIM_ROOT", &self.root);
        if !r.names.is_empty() {
            c.env("PODO_VERIF_ORDER", r.names.join("\u{1f}"));
        }
        if let Some(t) = r.clock {
            c.env("PODO_SHIM_CLOCK", t.to_string());
        }
        if let Some(o) = r.order {
            c.env("PODO_SHIM_ORDER", o.to_string());
        }
        if let Some((k, kind, e)) = r.fault {
            c.env("PODO_SHIM_FAULT", format!("{k}:{kind}:{e}"));
        }
        for (k, v) in &r.env {
            c.env(k, v);
        }
        c
    }
    pub fn run(&self, r: &Run) -> Done {
        let (o, e, t) = (self.root.join("stdout"), self.root.join("stderr"), self.root.join("trace"));
        let mut c = self.command(r);
        if r.trace {
            let _ = std::fs::remove_file(&t);
            c.env("PODO_SHIM_TRACE", &t);
        }
        if r.nobody {
            use std::os::unix::process::CommandExt;
            c.uid(65534).gid(65534);
        }
        c.stdin(Stdio::null());
        c.stdout(std::fs::File::create(&o).expect("scratch file")).stderr(std::fs::File::create(&e).expect("scratch file"));
        let mut p = c.spawn().expect("cannot start podo");
        let end = Instant::now() + Duration::from_secs(20);
        let mut hung = false;
        let mut n = 0u32;
        let st = loop {
            match p.try_wait() {
                Ok(Some(s)) => break s,
                Ok(None) => {}
                Err(e) => panic!("waiting for podo: {e}"),
            }
            if self.srv.as_ref().map_or(false, |s| s.wants_kill()) {
                let _ = p.kill();
            }
            if Instant::now() > end {
                hung = true;
                let _ = p.kill();
            }
            n += 1;
            std::thread::sleep(Duration::from_micros(if n < 20 { 200 } else { 1000 }));
        };
        let read = |p: &Path| {
            let mut b = vec![];
            if let Ok(mut f) = std::fs::File::open(p) {
                let _ = f.read_to_end(&mut b);
            }
            String::from_utf8_lossy(&b).into_owned()
        };
        let mut ops = vec![];
        if r.trace {
            let pre = format!("{}/", self.root.display());
            for l in read(&t).lines() {
                let (a, b) = l.split_once(' ').unwrap_or((l, ""));
                ops.push((a.to_owned(), b.strip_prefix(&pre).unwrap_or(b).to_owned()));
            }
        }
        Done { code: st.code(), signal: st.signal(), out: read(&o), err: read(&e), hung, ops }
    }
}

/// One profile of a configuration file.
pub fn config(profiles: &[(&str, &str, &str, &str, &str)]) -> String {
    let q = |s: &str| format!("'{}'", s.replace('\'', "''"));
    let mut o = "profiles:\n".to_string();
    for (name, url, hist, defs, meta) in profiles {
        o += &format!(
            "  {}:\n    database_url: {}\n    history: {}\n    definitions: {}\n    metadata_schema: {}\n",
            q(name),
            q(url),
            q(hist),
            q(defs),
            q(meta)
        );
    }
    o
}
pub fn put(dir: &Path, rel: &str, text: &str) {
    let p = dir.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
    std::fs::write(p, text).expect("scratch file");
}

#[allow(dead_code)]
pub fn same(a: &Db, b: &Db) -> bool {
    a == b
}
