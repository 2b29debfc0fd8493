// Included into podo's crate by src/verif.rs: podo's own functions behind `mc::sut::Sut`.

use mc::json::J;
use mc::model as m;
use mc::sut::{Out, Run, Step, Sut, Ver};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use crate::history::{FSHistory, Version};
use crate::snapshot as sn;
use crate::snapshot::changes::Change;

pub fn enter() {
    if let Ok(id) = std::env::var("PODO_VERIF_CHECK") {
        std::process::exit(mc::main(&id, &Adapter));
    }
}

struct Adapter;

fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into()),
        ),
    }
}

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

fn to_db(d: &m::Db) -> sn::Database {
    let mut db = sn::Database::new();
    for (name, s) in &d.schemas {
        let mut schema = sn::Schema::new(name);
        for (rn, r) in &s.rels {
            let rel = match r {
                m::Rel::Table(t) => {
                    let mut tab = sn::Table::new(name, rn);
                    for c in &t.cols {
                        tab.columns.push(sn::Column {
                            schema_name: name.clone(),
                            table_name: rn.clone(),
                            name: c.name.clone(),
                            data_type: c.ty.clone(),
                            not_null: c.nn,
                            default: c.def.clone(),
                        });
                    }
                    for (cn, c) in &t.cons {
                        let (schema_name, table_name, cname) = (name.clone(), rn.clone(), cn.clone());
                        let (deferrable, initially_deferred) = (c.deferrable, c.deferred);
                        let con = match &c.kind {
                            m::ConKind::Pk { cols } => sn::Constraint::PrimaryKey(sn::PrimaryKey {
                                schema_name, table_name, name: cname, columns: cols.clone(), deferrable, initially_deferred,
                            }),
                            m::ConKind::Uq { cols } => sn::Constraint::Unique(sn::Unique {
                                schema_name, table_name, name: cname, columns: cols.clone(), deferrable, initially_deferred,
                            }),
                            m::ConKind::Ck { expr } => sn::Constraint::Check(sn::Check {
                                schema_name, table_name, name: cname, expression: expr.clone(), deferrable, initially_deferred,
                            }),
                            m::ConKind::Fk { cols, ts, tt, tc, m, u, d } => sn::Constraint::ForeignKey(sn::ForeignKey {
                                schema_name, table_name, name: cname, columns: cols.clone(),
                                target_schema: ts.clone(), target_table: tt.clone(), target_columns: tc.clone(),
                                match_option: m.clone(), update_rule: u.clone(), delete_rule: d.clone(),
                                deferrable, initially_deferred,
                            }),
                        };
                        tab.constraints.insert(cn.clone(), con);
                    }
                    sn::Relation::Table(tab)
                }
                m::Rel::View(q) => sn::Relation::View(sn::View {
                    schema_name: name.clone(), name: rn.clone(), query: q.clone(),
                }),
                m::Rel::Index(i) => sn::Relation::Index(sn::Index {
                    schema_name: name.clone(), name: rn.clone(), table_name: i.table.clone(),
                    unique: i.unique, method: i.method.clone(), key_expressions: i.keys.clone(),
                }),
                m::Rel::Seq(q) => sn::Relation::Sequence(sn::Sequence {
                    schema_name: name.clone(), name: rn.clone(), data_type: q.ty.clone(),
                    increment: q.inc, min_value: q.min, max_value: q.max, start: q.start,
                    cache: q.cache, cycle: q.cycle,
                    owned_by_table: q.owned.as_ref().map(|o| o.0.clone()),
                    owned_by_column: q.owned.as_ref().map(|o| o.1.clone()),
                }),
            };
            schema.relations.insert(rn.clone(), rel);
        }
        for (fname, f) in &s.fns {
            schema.functions.insert(fname.clone(), sn::Function {
                schema_name: name.clone(), name: fname.clone(), body: f.body.clone(),
                language: f.lang.clone(), returns: f.ret.clone(), volatility: f.vol.clone(),
            });
        }
        db.schemas.insert(name.clone(), schema);
    }
    db
}

/// Err if the maps' keys and the objects' own names disagree.
fn from_db(db: &sn::Database) -> Result<m::Db, String> {
    let mut out = m::Db::default();
    let same = |what: &str, a: &str, b: &str| -> Result<(), String> {
        if a == b { Ok(()) } else { Err(format!("{what} is filed under {a:?} but says {b:?}")) }
    };
    for (sk, s) in &db.schemas {
        same("schema", sk, &s.name)?;
        let mut ms = m::Schema::default();
        for (rk, r) in &s.relations {
            let rel = match r {
                sn::Relation::Table(t) => {
                    same("table", rk, &t.name)?;
                    same("schema of table", sk, &t.schema_name)?;
                    let mut mt = m::Table::default();
                    for c in &t.columns {
                        same("table of column", rk, &c.table_name)?;
                        same("schema of column", sk, &c.schema_name)?;
                        mt.cols.push(m::Col {
                            name: c.name.clone(), ty: c.data_type.clone(), nn: c.not_null, def: c.default.clone(),
                        });
                    }
                    for (ck, c) in &t.constraints {
                        same("constraint", ck, c.get_name())?;
                        same("table of constraint", rk, c.get_table_name())?;
                        same("schema of constraint", sk, c.get_schema_name())?;
                        let (kind, deferrable, deferred) = match c {
                            sn::Constraint::PrimaryKey(p) => (m::ConKind::Pk { cols: p.columns.clone() }, p.deferrable, p.initially_deferred),
                            sn::Constraint::Unique(p) => (m::ConKind::Uq { cols: p.columns.clone() }, p.deferrable, p.initially_deferred),
                            sn::Constraint::Check(p) => (m::ConKind::Ck { expr: p.expression.clone() }, p.deferrable, p.initially_deferred),
                            sn::Constraint::ForeignKey(p) => (
                                m::ConKind::Fk {
                                    cols: p.columns.clone(), ts: p.target_schema.clone(), tt: p.target_table.clone(),
                                    tc: p.target_columns.clone(), m: p.match_option.clone(),
                                    u: p.update_rule.clone(), d: p.delete_rule.clone(),
                                },
                                p.deferrable, p.initially_deferred,
                            ),
                        };
                        mt.cons.insert(ck.clone(), m::Con { kind, deferrable, deferred });
                    }
                    m::Rel::Table(mt)
                }
                sn::Relation::View(v) => {
                    same("view", rk, &v.name)?;
                    same("schema of view", sk, &v.schema_name)?;
                    m::Rel::View(v.query.clone())
                }
                sn::Relation::Index(i) => {
                    same("index", rk, &i.name)?;
                    same("schema of index", sk, &i.schema_name)?;
                    m::Rel::Index(m::Index {
                        table: i.table_name.clone(), unique: i.unique, method: i.method.clone(), keys: i.key_expressions.clone(),
                    })
                }
                sn::Relation::Sequence(q) => {
                    same("sequence", rk, &q.name)?;
                    same("schema of sequence", sk, &q.schema_name)?;
                    let owned = match (&q.owned_by_table, &q.owned_by_column) {
                        (Some(a), Some(b)) => Some((a.clone(), b.clone())),
                        (None, None) => None,
                        (a, b) => return Err(format!("sequence {rk:?} is half owned: {a:?} {b:?}")),
                    };
                    m::Rel::Seq(m::Seq {
                        ty: q.data_type.clone(), inc: q.increment, min: q.min_value, max: q.max_value,
                        start: q.start, cache: q.cache, cycle: q.cycle, owned,
                    })
                }
            };
            ms.rels.insert(rk.clone(), rel);
        }
        for (fk, f) in &s.functions {
            same("function", fk, &f.name)?;
            same("schema of function", sk, &f.schema_name)?;
            ms.fns.insert(fk.clone(), m::Func {
                body: f.body.clone(), lang: f.language.clone(), ret: f.returns.clone(), vol: f.volatility.clone(),
            });
        }
        out.schemas.insert(sk.clone(), ms);
    }
    Ok(out)
}

fn json(v: &serde_json::Value) -> J {
    match v {
        serde_json::Value::Null => J::Null,
        serde_json::Value::Bool(b) => J::B(*b),
        serde_json::Value::Number(n) => n.as_i64().map(J::I).unwrap_or_else(|| J::S(n.to_string())),
        serde_json::Value::String(s) => J::s(s.as_str()),
        serde_json::Value::Array(a) => J::A(a.iter().map(json).collect()),
        serde_json::Value::Object(o) => J::O(o.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

fn unjson(j: &J) -> serde_json::Value {
    match j {
        J::Null => serde_json::Value::Null,
        J::B(b) => (*b).into(),
        J::I(i) => (*i).into(),
        J::F(f) => (*f).into(),
        J::S(s) => s.as_str().into(),
        J::A(a) => serde_json::Value::Array(a.iter().map(unjson).collect()),
        J::O(o) => serde_json::Value::Object(o.iter().map(|(k, v)| (k.clone(), unjson(v))).collect()),
    }
}

fn yjson(v: &serde_yaml::Value) -> J {
    match v {
        serde_yaml::Value::Null => J::Null,
        serde_yaml::Value::Bool(b) => J::B(*b),
        serde_yaml::Value::Number(n) => n.as_i64().map(J::I).unwrap_or_else(|| J::F(n.as_f64().unwrap_or(f64::NAN))),
        serde_yaml::Value::String(s) => J::s(s.as_str()),
        serde_yaml::Value::Sequence(a) => J::A(a.iter().map(yjson).collect()),
        serde_yaml::Value::Mapping(o) => J::O(
            o.iter()
                .map(|(k, v)| (k.as_str().map(|s| s.to_owned()).unwrap_or_else(|| format!("{:?}", k)), yjson(v)))
                .collect(),
        ),
        serde_yaml::Value::Tagged(t) => J::obj(vec![("tagged", yjson(&t.value))]),
    }
}

fn ver(v: &Version) -> Result<Ver, String> {
    let mut changes = Vec::new();
    for c in &v.changes {
        changes.push(json(&serde_json::to_value(c).map_err(es)?));
    }
    Ok(Ver { name: v.name.clone(), previous: v.previous.clone(), changes, up: v.up.clone(), down: v.down.clone(), debug: v.changes.iter().map(|c| format!("{:?}", c)).collect() })
}

fn stage_version(name: &str, prev: Option<&str>, s: &m::Db, t: &m::Db) -> Result<Version, String> {
    let (mut a, b) = (to_db(s), to_db(t));
    let mut v = Version { name: name.into(), previous: prev.map(|p| p.to_owned()), changes: vec![], up: vec![], down: vec![] };
    for c in sn::compare_diff(&a, &b) {
        let up = c.render_sql();
        let down = c.revert(&a).map_err(es)?.render_sql();
        c.apply(&mut a).map_err(es)?;
        v.add_change(c);
        v.add_up(&up);
        v.add_down(&down);
    }
    Ok(v)
}

impl Sut for Adapter {
    #[allow(unused_variables)]
    fn set_order(&self, names: &[String]) -> bool {
        set_name_order(Rc::new(names.to_vec()));
        cfg!(podo_verif_order)
    }
    fn schema_order(&self, names: &[String]) -> Vec<String> {
        let mut db = sn::Database::new();
        for n in names {
            db.schemas.insert(n.clone(), sn::Schema::new(n));
        }
        db.iter_schemas().map(|s| s.name.clone()).collect()
    }
    fn run(&self, s: &m::Db, so: &[String], t: &m::Db, to: &[String]) -> Out<Run> {
        guard(|| {
            self.set_order(so);
            let mut cur = to_db(s);
            self.set_order(to);
            let target = to_db(t);
            self.set_order(so);
            let changes = sn::compare_diff(&cur, &target);
            let mut run = Run::default();
            let mut reversals: Vec<Option<Change>> = Vec::new();
            for (i, c) in changes.iter().enumerate() {
                let rev = match catch_unwind(AssertUnwindSafe(|| c.revert(&cur))) {
                    Ok(Ok(r)) => Ok(r),
                    Ok(Err(e)) => Err(es(e)),
                    Err(_) => Err("crash".to_owned()),
                };
                let down = match &rev {
                    Ok(r) => Ok(r.render_sql()),
                    Err(e) => Err(e.clone()),
                };
                run.steps.push(Step::new(c.display_name().to_owned(), format!("{:?}", c), c.render_sql(), down));
                reversals.push(rev.ok());
                if let Err(e) = c.apply(&mut cur) {
                    run.apply_err = Some((i, es(e)));
                    return Ok(run);
                }
            }
            run.after = Some(from_db(&cur)?);
            run.left = sn::compare_diff(&cur, &target).iter().map(|c| format!("{:?}", c)).collect();
            for (i, r) in reversals.iter().enumerate().rev() {
                match r {
                    None => {
                        run.back_err = Some((i, "no reversal".into()));
                        return Ok(run);
                    }
                    Some(r) => {
                        if let Err(e) = r.apply(&mut cur) {
                            run.back_err = Some((i, format!("{:?}: {}", r, es(e))));
                            return Ok(run);
                        }
                    }
                }
            }
            run.back = Some(from_db(&cur)?);
            Ok(run)
        })
    }
    fn diff_len(&self, s: &m::Db, t: &m::Db) -> Out<usize> {
        guard(|| Ok(sn::compare_diff(&to_db(s), &to_db(t)).len()))
    }
    fn save_defs(&self, file: &Path, db: &m::Db) -> Out<()> {
        guard(|| crate::definition::save_snapshot(file, &to_db(db)).map_err(|e| e.to_string()))
    }
    fn load_defs(&self, dir: &Path) -> Out<m::Db> {
        let dir: PathBuf = dir.to_owned();
        guard(|| match crate::definition::load_snpashot(&dir) {
            Ok(d) => from_db(&d),
            Err(e) => Err(e.to_string()),
        })
    }
    fn load_str(&self, s: &str) -> Out<m::Db> {
        guard(|| match crate::definition::load_yaml_string(s) {
            Ok(d) => from_db(&d),
            Err(e) => Err(e.to_string()),
        })
    }
    fn yaml(&self, s: &str) -> Result<J, String> {
        let v: serde_yaml::Value = serde_yaml::from_str(s).map_err(|e| e.to_string())?;
        Ok(yjson(&v))
    }
    fn expand(&self, s: &str) -> Out<String> {
        guard(|| Ok(crate::util::expand::expand_envvar(s)))
    }
    fn version_file(&self, dir: &Path, name: &str, prev: Option<&str>, s: &m::Db, t: &m::Db) -> Out<(Ver, Ver)> {
        guard(|| {
            let v = stage_version(name, prev, s, t)?;
            let before = ver(&v)?;
            let mut h = FSHistory::new(dir.to_owned());
            h.save_version(v).map_err(|e| e.to_string())?;
            let after = ver(&h.get_version(name).map_err(|e| e.to_string())?)?;
            Ok((before, after))
        })
    }
    fn changes_json(&self, s: &m::Db, t: &m::Db) -> Out<(String, String)> {
        guard(|| {
            let v = stage_version("x", None, s, t)?;
            let text = serde_json::to_string(&v.changes).map_err(es)?;
            let back: Vec<Change> = serde_json::from_str(&text).map_err(es)?;
            Ok((format!("{:?}", v.changes), format!("{:?}", back)))
        })
    }
    fn read_version(&self, dir: &Path, name: &str) -> Out<Ver> {
        guard(|| ver(&FSHistory::new(dir.to_owned()).get_version(name).map_err(|e| e.to_string())?))
    }
    fn write_version(&self, dir: &Path, v: &Ver) -> Out<()> {
        guard(|| {
            let mut changes = Vec::new();
            for c in &v.changes {
                changes.push(serde_json::from_value(unjson(c)).map_err(es)?);
            }
            FSHistory::new(dir.to_owned())
                .save_version(Version { name: v.name.clone(), previous: v.previous.clone(), changes, up: v.up.clone(), down: v.down.clone() })
                .map_err(|e| e.to_string())
        })
    }
    fn hist_current(&self, dir: &Path) -> Out<String> {
        let dir = dir.to_owned();
        guard(|| {
            let h = FSHistory::from_dir(&dir).map_err(|e| e.to_string())?;
            h.get_current_version().map(|v| v.name).map_err(|e| e.to_string())
        })
    }
    fn hist_range(&self, dir: &Path, from: &str, to: &str) -> Out<Vec<String>> {
        let dir = dir.to_owned();
        guard(|| {
            let h = FSHistory::from_dir(&dir).map_err(|e| e.to_string())?;
            h.get_upward_range(from, to).map_err(|e| e.to_string())
        })
    }
    fn hist_snapshot(&self, dir: &Path, at: &str) -> Out<m::Db> {
        let dir = dir.to_owned();
        guard(|| {
            let h = FSHistory::from_dir(&dir).map_err(|e| e.to_string())?;
            match crate::history::calculate_snapshot(&h, at) {
                Ok(d) => from_db(&d),
                Err(e) => Err(e.to_string()),
            }
        })
    }
}
