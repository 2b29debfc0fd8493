//! What the checks call in podo's own code; implemented by harness/adapter.rs inside podo's crate.
use crate::json::J;
use crate::model::Db;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Step {
    /// podo's name of the change and its full contents
    pub name: String,
    pub text: String,
    pub up: String,
    pub down: Result2,
}
pub type Result2 = std::result::Result<String, String>;

impl Step {
    pub fn new(name: String, text: String, up: String, down: std::result::Result<String, String>) -> Step {
        Step { name, text, up, down }
    }
}

/// One migration from a source to a target as podo computes it.
#[derive(Clone, Debug, Default)]
pub struct Run {
    pub steps: Vec<Step>,
    /// where applying failed (step, message)
    pub apply_err: Option<(usize, String)>,
    pub after: Option<Db>,
    /// changes podo still sees afterwards
    pub left: Vec<String>,
    /// where reverting failed (step, message)
    pub back_err: Option<(usize, String)>,
    pub back: Option<Db>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    pub name: String,
    pub previous: Option<String>,
    /// each change as JSON
    pub changes: Vec<J>,
    pub up: Vec<String>,
    pub down: Vec<String>,
    /// each change as Rust prints it
    pub debug: Vec<String>,
}

pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error: {e}"),
            Out::Panic(e) => format!("crash: {e}"),
        }
    }
}

pub trait Sut: Sync {
    /// Order of names in maps made from now on by this thread; false if not controllable.
    fn set_order(&self, names: &[String]) -> bool;
    /// The order in which podo enumerates the schemas of a database with these schema names.
    fn schema_order(&self, names: &[String]) -> Vec<String>;
    /// Diff, apply, diff again, revert. `so` and `to` order the names of source and target.
    fn run(&self, s: &Db, so: &[String], t: &Db, to: &[String]) -> Out<Run>;
    /// Number of changes podo sees between the two.
    fn diff_len(&self, s: &Db, t: &Db) -> Out<usize>;
    fn save_defs(&self, file: &Path, db: &Db) -> Out<()>;
    fn load_defs(&self, dir: &Path) -> Out<Db>;
    fn load_str(&self, s: &str) -> Out<Db>;
    fn yaml(&self, s: &str) -> Result<J, String>;
    fn expand(&self, s: &str) -> Out<String>;
    /// Builds the version that stages S to T, saves it in `dir`, reads it back.
    fn version_file(&self, dir: &Path, name: &str, prev: Option<&str>, s: &Db, t: &Db) -> Out<(Ver, Ver)>;
    /// JSON of the changes, there and back.
    fn changes_json(&self, s: &Db, t: &Db) -> Out<(String, String)>;
    fn read_version(&self, dir: &Path, name: &str) -> Out<Ver>;
    fn write_version(&self, dir: &Path, v: &Ver) -> Out<()>;
    /// current version's name of the history, or an error
    fn hist_current(&self, dir: &Path) -> Out<String>;
    fn hist_range(&self, dir: &Path, from: &str, to: &str) -> Out<Vec<String>>;
    fn hist_snapshot(&self, dir: &Path, at: &str) -> Out<Db>;
}
