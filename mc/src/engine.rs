//! PostgreSQL's transactions over the catalogue model: sessions, row changes, locks, visibility (READ COMMITTED).
use crate::pg::*;
use crate::pglex::*;
use crate::sql::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Key {
    Rel(String, String),
    /// a name that is being created or dropped, a schema, a function, a key value
    Obj(String),
    Row(String, String, Vec<Val>),
    Adv(i64),
}

/// PostgreSQL's table lock modes 1..8 conflict like this; rows and others use 1 (shared) and 8.
fn conflicts(a: u8, b: u8) -> bool {
    const T: [u16; 9] = [
        0,
        1 << 8,
        1 << 7 | 1 << 8,
        1 << 5 | 1 << 6 | 1 << 7 | 1 << 8,
        1 << 4 | 1 << 5 | 1 << 6 | 1 << 7 | 1 << 8,
        1 << 3 | 1 << 4 | 1 << 6 | 1 << 7 | 1 << 8,
        1 << 3 | 1 << 4 | 1 << 5 | 1 << 6 | 1 << 7 | 1 << 8,
        1 << 2 | 1 << 3 | 1 << 4 | 1 << 5 | 1 << 6 | 1 << 7 | 1 << 8,
        0x1fe,
    ];
    T[a as usize] >> b & 1 == 1
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Ddl(String),
    Insert(String, String, Vec<Val>),
    Delete(String, String, Vec<Val>),
    Seq(String, String, i64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum St {
    Idle,
    Tx,
    Failed,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sess {
    pub st: St,
    pub ops: Vec<Op>,
    pub locks: BTreeMap<Key, BTreeSet<u8>>,
    pub saves: Vec<(String, usize)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Pg {
    pub base: Cat,
    pub sess: BTreeMap<u32, Sess>,
    seen: Seen,
}

/// What a session saw last, with the number of its operations in it; no part of the state.
#[derive(Default)]
pub struct Seen(std::sync::Mutex<BTreeMap<u32, (usize, std::sync::Arc<Cat>)>>);
impl Clone for Seen {
    fn clone(&self) -> Seen {
        Seen::default()
    }
}
impl std::fmt::Debug for Seen {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl PartialEq for Seen {
    fn eq(&self, _: &Seen) -> bool {
        true
    }
}
impl Eq for Seen {}
impl std::hash::Hash for Seen {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl PartialOrd for Seen {
    fn partial_cmp(&self, o: &Seen) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Seen {
    fn cmp(&self, _: &Seen) -> std::cmp::Ordering {
        std::cmp::Ordering::Equal
    }
}

/// What a statement gives.
#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub cols: Option<Vec<(String, String)>>,
    pub rows: Vec<Vec<V>>,
    pub tag: String,
}

pub enum Ex {
    Ok(Res),
    Err(PgErr),
    /// waits for one of these sessions to end its transaction
    Wait(BTreeSet<u32>),
}

enum Stop {
    Err(PgErr),
    Wait(BTreeSet<u32>),
}
impl From<PgErr> for Stop {
    fn from(e: PgErr) -> Stop {
        Stop::Err(e)
    }
}
type X<T> = Result<T, Stop>;

fn rkey(q: &QName) -> (String, String) {
    (q.0.clone().unwrap_or_else(|| "public".into()), q.1.clone())
}

impl Pg {
    pub fn new(base: Cat) -> Pg {
        Pg { base, sess: BTreeMap::new(), seen: Seen::default() }
    }
    pub fn connect(&mut self, id: u32) {
        self.stale();
        self.sess.insert(id, Sess { st: St::Idle, ops: vec![], locks: BTreeMap::new(), saves: vec![] });
    }
    /// The connection ends; an open transaction is rolled back.
    pub fn disconnect(&mut self, id: u32) {
        self.stale();
        self.sess.remove(&id);
    }
    pub fn state(&self, id: u32) -> St {
        self.sess.get(&id).map(|s| s.st).unwrap_or(St::Idle)
    }
    /// What the session sees.
    pub fn view(&self, id: u32) -> std::sync::Arc<Cat> {
        let none = vec![];
        let ops = self.sess.get(&id).map_or(&none, |s| &s.ops);
        let mut seen = self.seen.0.lock().unwrap();
        let (n, c) = seen.entry(id).or_insert_with(|| (0, std::sync::Arc::new(self.base.clone())));
        if *n < ops.len() {
            let c = std::sync::Arc::make_mut(c);
            for o in &ops[*n..] {
                replay(c, o);
            }
            *n = ops.len();
        }
        c.clone()
    }
    /// What was seen is no longer valid.
    fn stale(&self) {
        self.seen.0.lock().unwrap().clear();
    }
    fn lock(&mut self, id: u32, k: Key, m: u8) -> X<()> {
        let held: BTreeSet<u32> = self
            .sess
            .iter()
            .filter(|(i, s)| **i != id && s.locks.get(&k).map_or(false, |ms| ms.iter().any(|x| conflicts(m, *x))))
            .map(|(i, _)| *i)
            .collect();
        if !held.is_empty() {
            return Err(Stop::Wait(held));
        }
        self.sess.get_mut(&id).unwrap().locks.entry(k).or_default().insert(m);
        Ok(())
    }
    fn lock_rel(&mut self, id: u32, q: &QName, m: u8) -> X<()> {
        if is_system(q) {
            return Ok(());
        }
        let (s, t) = rkey(q);
        let c = self.view(id);
        let known = c.schemas.get(&s).map_or(false, |x| x.rels.contains_key(&t));
        if known {
            self.lock(id, Key::Rel(s, t), m)?;
        }
        Ok(())
    }

    fn end(&mut self, id: u32, commit: bool) {
        if commit {
            self.base = (*self.view(id)).clone();
        }
        self.stale();
        let s = self.sess.get_mut(&id).unwrap();
        s.ops.clear();
        s.locks.clear();
        s.saves.clear();
        s.st = St::Idle;
    }

    /// Analysis of a statement (what PostgreSQL does when it is prepared).
    pub fn prepare(&mut self, id: u32, sql: &str) -> Result<Ex, ()> {
        let r = self.prepare0(id, sql);
        Ok(self.outcome(id, r))
    }
    fn outcome(&mut self, id: u32, r: X<Res>) -> Ex {
        match r {
            Ok(r) => Ex::Ok(r),
            Err(Stop::Wait(w)) => Ex::Wait(w),
            Err(Stop::Err(e)) => {
                self.fail(id);
                Ex::Err(e)
            }
        }
    }
    /// An error inside a transaction makes the rest of it fail.
    pub fn fail(&mut self, id: u32) {
        if let Some(s) = self.sess.get_mut(&id) {
            if s.st == St::Tx {
                s.st = St::Failed;
            } else if s.st == St::Idle {
                s.locks.clear();
                s.ops.clear();
                self.stale();
            }
        }
    }
    fn aborted(&self, id: u32, s: &Stmt) -> X<()> {
        if self.state(id) == St::Failed && !matches!(s, Stmt::Commit | Stmt::Rollback | Stmt::RollbackTo(_) | Stmt::Empty) {
            err("25P02", "current transaction is aborted, commands ignored until end of transaction block")?;
        }
        Ok(())
    }
    fn prepare0(&mut self, id: u32, sql: &str) -> X<Res> {
        let s = parse(sql)?;
        self.aborted(id, &s)?;
        self.analysis_locks(id, &s)?;
        let (p, cols) = describe(&self.view(id), &s)?;
        if self.state(id) == St::Idle {
            self.sess.get_mut(&id).unwrap().locks.clear();
        }
        Ok(Res { cols, rows: vec![p.into_iter().map(V::S).collect()], tag: String::new() })
    }
    fn analysis_locks(&mut self, id: u32, s: &Stmt) -> X<()> {
        match s {
            Stmt::Select(s) => {
                let mut ts = vec![];
                s.from.iter().for_each(|f| f.tables(&mut ts));
                for t in ts {
                    self.lock_rel(id, &t, if s.lock { 2 } else { 1 })?;
                }
            }
            Stmt::Insert { table, .. } | Stmt::Delete { table, .. } | Stmt::Update { table, .. } => self.lock_rel(id, &table.clone(), 3)?,
            _ => {}
        }
        Ok(())
    }

    pub fn exec(&mut self, id: u32, sql: &str, params: &[V]) -> Ex {
        let auto = self.state(id) == St::Idle;
        let r = self.exec0(id, sql, params);
        let r = match (auto, r, self.state(id)) {
            (true, Ok(r), St::Idle) => {
                self.end(id, true);
                Ok(r)
            }
            (_, r, _) => r,
        };
        self.outcome(id, r)
    }

    fn exec0(&mut self, id: u32, sql: &str, params: &[V]) -> X<Res> {
        let s = parse(sql)?;
        self.aborted(id, &s)?;
        let done = |tag: &str| Ok(Res { cols: None, rows: vec![], tag: tag.into() });
        match s {
            Stmt::Empty => done(""),
            Stmt::Set => done("SET"),
            Stmt::Begin => {
                let x = self.sess.get_mut(&id).unwrap();
                if x.st == St::Idle {
                    x.st = St::Tx;
                }
                done("BEGIN")
            }
            Stmt::Commit => {
                let ok = self.state(id) != St::Failed;
                self.end(id, ok);
                // as PostgreSQL does, an aborted transaction is rolled back without an error
                done(if ok { "COMMIT" } else { "ROLLBACK" })
            }
            Stmt::Rollback => {
                self.end(id, false);
                done("ROLLBACK")
            }
            Stmt::Savepoint(n) => {
                let x = self.sess.get_mut(&id).unwrap();
                if x.st == St::Idle {
                    err("25P01", "SAVEPOINT can only be used in transaction blocks")?;
                }
                let k = x.ops.len();
                x.saves.push((n, k));
                done("SAVEPOINT")
            }
            Stmt::Release(n) => {
                let x = self.sess.get_mut(&id).unwrap();
                match x.saves.iter().rposition(|s| s.0 == n) {
                    Some(i) => x.saves.truncate(i),
                    None => err("3B001", "savepoint does not exist")?,
                }
                done("RELEASE")
            }
            Stmt::RollbackTo(n) => {
                let x = self.sess.get_mut(&id).unwrap();
                match x.saves.iter().rposition(|s| s.0 == n) {
                    Some(i) => {
                        let k = x.saves[i].1;
                        x.ops.truncate(k);
                        x.saves.truncate(i + 1);
                        x.st = St::Tx;
                        self.stale();
                    }
                    None => err("3B001", "savepoint does not exist")?,
                }
                done("ROLLBACK")
            }
            Stmt::Lock(ts, mode, nowait) => {
                if self.state(id) == St::Idle {
                    err("25P01", "LOCK TABLE can only be used in transaction blocks")?;
                }
                for t in ts {
                    let (s, n) = rkey(&t);
                    let v = self.view(id);
                    match v.schemas.get(&s).and_then(|x| x.rels.get(&n)) {
                        Some(CRel::Table(_) | CRel::View(_)) => {}
                        Some(_) => err("42809", format!("\"{n}\" is not a table"))?,
                        None => err("42P01", format!("relation \"{s}.{n}\" does not exist"))?,
                    }
                    match self.lock_rel(id, &t, mode) {
                        Err(Stop::Wait(_)) if nowait => err("55P03", "could not obtain lock on relation")?,
                        r => r?,
                    }
                }
                done("LOCK TABLE")
            }
            Stmt::Select(q) => {
                self.analysis_locks(id, &Stmt::Select(q.clone()))?;
                for (e, _) in &q.items {
                    if let E::Call(f, a) = e {
                        if f == "pg_advisory_xact_lock" || f == "pg_advisory_lock" {
                            let v = self.view(id);
                            if let Some(x) = a.first() {
                                let k = match (Ev { cat: &v, params }).eval(x, &vec![])? {
                                    V::I(i) => i,
                                    _ => 0,
                                };
                                self.lock(id, Key::Adv(k), 8)?;
                            }
                        }
                    }
                }
                let v = self.view(id);
                if q.lock {
                    if let [Src::Table(t, a, _)] = &q.from[..] {
                        let rows = Ev { cat: &v, params }.rows(&q, &vec![])?;
                        let (s, n) = rkey(t);
                        for r in rows {
                            let key = self.row_key(&v, &s, &n, &r.iter().filter(|c| *c.0 == **a).map(|c| store(&c.2)).collect::<Vec<_>>());
                            self.lock(id, Key::Row(s.clone(), n.clone(), key), 8)?;
                        }
                    }
                }
                let v = self.view(id);
                let (_, cols) = describe(&v, &Stmt::Select(q.clone()))?;
                let rows = Ev { cat: &v, params }.select(&q, &vec![])?;
                let n = rows.len();
                Ok(Res { cols, rows, tag: format!("SELECT {n}") })
            }
            Stmt::Insert { table, cols, rows, skip, ret } => self.insert(id, &table, &cols, &rows, skip, &ret, params),
            Stmt::Delete { table, filter, ret } => {
                let (n, out) = self.change(id, &table, &filter, None, &ret, params)?;
                Ok(Res { cols: self.ret_cols(id, &table, &ret)?, rows: out, tag: format!("DELETE {n}") })
            }
            Stmt::Update { table, sets, filter, ret } => {
                let (n, out) = self.change(id, &table, &filter, Some(&sets), &ret, params)?;
                Ok(Res { cols: self.ret_cols(id, &table, &ret)?, rows: out, tag: format!("UPDATE {n}") })
            }
            Stmt::Ddl(d) => {
                self.ddl_locks(id, &d)?;
                let mut c = (*self.view(id)).clone();
                c.exec(sql)?;
                self.sess.get_mut(&id).unwrap().ops.push(Op::Ddl(sql.to_owned()));
                done("DDL")
            }
        }
    }

    fn ret_cols(&self, id: u32, t: &QName, ret: &Vec<(E, Option<String>)>) -> X<Option<Vec<(String, String)>>> {
        if ret.is_empty() {
            return Ok(None);
        }
        let d = Stmt::Delete { table: t.clone(), filter: None, ret: ret.clone() };
        Ok(describe(&self.view(id), &d)?.1)
    }

    /// What identifies a row to other transactions: its primary key.
    fn row_key(&self, c: &Cat, s: &str, t: &str, row: &[Val]) -> Vec<Val> {
        if let Ok(tab) = c.table(s, t) {
            for k in tab.cons.values() {
                if let CKind::Pk(v) = &k.kind {
                    return v.iter().filter_map(|n| tab.cols.iter().position(|c| c.name == *n).map(|i| row[i].clone())).collect();
                }
            }
        }
        row.to_vec()
    }

    fn insert(&mut self, id: u32, table: &QName, cols: &[String], rows: &[Vec<E>], skip: bool, ret: &Vec<(E, Option<String>)>, params: &[V]) -> X<Res> {
        self.lock_rel(id, table, 3)?;
        describe(&self.view(id), &Stmt::Insert { table: table.clone(), cols: cols.to_vec(), rows: rows.to_vec(), skip, ret: ret.clone() })?;
        let (s, t) = rkey(table);
        let mut n = 0;
        let mut out = vec![];
        for r in rows {
            let v = self.view(id);
            let tab = v.table(&s, &t)?.clone();
            let names: Vec<String> = if cols.is_empty() { tab.cols.iter().map(|c| c.name.clone()).collect() } else { cols.to_vec() };
            let mut row: Vec<Option<V>> = vec![None; tab.cols.len()];
            for (e, n) in r.iter().zip(&names) {
                let i = tab.cols.iter().position(|c| c.name == *n).unwrap();
                if *e != E::Default {
                    row[i] = Some(Ev { cat: &v, params }.eval(e, &vec![])?);
                }
            }
            let mut seqs = vec![];
            let mut full: Vec<Val> = vec![];
            for (c, x) in tab.cols.iter().zip(row) {
                let x = match x {
                    Some(x) => x,
                    None => match (&c.serial, &c.def) {
                        (Some(q), _) => {
                            let k = self.nextval(id, &s, q)?;
                            seqs.push(Op::Seq(s.clone(), q.clone(), k + 1));
                            V::I(k)
                        }
                        (_, Some(d)) if d.text.contains("now") || d.text.contains("current_timestamp") => V::S("2024-01-01 00:00:00".into()),
                        (_, Some(d)) => {
                            let mut p = P::new(&format!("select {}", d.text))?;
                            let _ = p.kw("select");
                            match parse(&format!("select {}", d.text))? {
                                Stmt::Select(q) => Ev { cat: &v, params }.select(&q, &vec![])?[0][0].clone(),
                                _ => V::Null,
                            }
                        }
                        _ => V::Null,
                    },
                };
                full.push(self.coerce(&x, c)?);
            }
            let key = |cols: &[String]| -> Vec<Val> { cols.iter().filter_map(|n| tab.cols.iter().position(|c| c.name == *n).map(|i| full[i].clone())).collect() };
            // unique keys: another transaction's uncommitted row with the same key is waited for
            let mut dup = false;
            for (cn, c) in &tab.cons {
                if let CKind::Pk(k) | CKind::Uq(k) = &c.kind {
                    let kv = key(k);
                    if kv.contains(&None) {
                        continue;
                    }
                    if matches!(c.kind, CKind::Pk(_)) {
                        self.lock(id, Key::Row(s.clone(), t.clone(), kv.clone()), 8)?;
                    } else {
                        self.lock(id, Key::Obj(format!("{s}.{t}.{cn}={kv:?}")), 8)?;
                    }
                    let now = self.view(id);
                    let tab2 = now.table(&s, &t)?;
                    let idx: Vec<usize> = k.iter().filter_map(|n| tab2.cols.iter().position(|c| c.name == *n)).collect();
                    if tab2.rows.iter().any(|r| idx.iter().map(|i| r[*i].clone()).collect::<Vec<_>>() == kv) {
                        if skip {
                            dup = true;
                        } else {
                            err("23505", format!("duplicate key value violates unique constraint \"{cn}\""))?;
                        }
                    }
                }
            }
            if dup {
                continue;
            }
            self.references(id, &tab, &t, &full)?;
            let x = self.sess.get_mut(&id).unwrap();
            x.ops.extend(seqs);
            x.ops.push(Op::Insert(s.clone(), t.clone(), full.clone()));
            n += 1;
            out.push(self.returned(id, &tab, &t, &full, ret, params)?);
        }
        Ok(Res { cols: self.ret_cols(id, table, ret)?, rows: if ret.is_empty() { vec![] } else { out }, tag: format!("INSERT 0 {n}") })
    }

    fn returned(&self, id: u32, tab: &CTable, t: &str, full: &[Val], ret: &Vec<(E, Option<String>)>, params: &[V]) -> X<Vec<V>> {
        let row: Row = tab.cols.iter().zip(full).map(|(c, v)| (t.into(), c.name.as_str().into(), load(&c.ty, v))).collect();
        let v = self.view(id);
        let mut o = vec![];
        for (e, _) in ret {
            if *e == E::Star {
                o.extend(row.iter().map(|c| c.2.clone()));
            } else {
                o.push(Ev { cat: &v, params }.eval(e, &row)?);
            }
        }
        Ok(o)
    }

    /// Foreign keys of a new row.
    fn references(&mut self, id: u32, tab: &CTable, t: &str, full: &[Val]) -> X<()> {
        for (cn, c) in &tab.cons {
            if let CKind::Fk { cols, ts, tt, tc, .. } = &c.kind {
                let kv: Vec<Val> = cols.iter().filter_map(|n| tab.cols.iter().position(|c| c.name == *n).map(|i| full[i].clone())).collect();
                if kv.contains(&None) {
                    continue;
                }
                self.lock_rel(id, &(Some(ts.clone()), tt.clone()), 2)?;
                self.lock(id, Key::Row(ts.clone(), tt.clone(), kv.clone()), 1)?;
                let v = self.view(id);
                let other = v.table(ts, tt)?;
                let idx: Vec<usize> = tc.iter().filter_map(|n| other.cols.iter().position(|c| c.name == *n)).collect();
                let itself = tt == t && idx.iter().map(|i| full[*i].clone()).collect::<Vec<_>>() == kv;
                if !itself && !other.rows.iter().any(|r| idx.iter().map(|i| r[*i].clone()).collect::<Vec<_>>() == kv) {
                    err("23503", format!("insert or update on table \"{t}\" violates foreign key constraint \"{cn}\""))?;
                }
            }
        }
        Ok(())
    }

    fn coerce(&self, x: &V, c: &CCol) -> X<Val> {
        let y = cast(x.clone(), &c.ty)?;
        if y == V::Null && (c.nn || c.serial.is_some()) {
            err("23502", format!("null value in column \"{}\" violates not-null constraint", c.name))?;
        }
        let max = c.ty.strip_prefix("varchar(").or_else(|| c.ty.strip_prefix("char(")).and_then(|s| s.trim_end_matches(')').parse::<usize>().ok());
        if let (Some(m), V::S(s)) = (max, &y) {
            if s.chars().count() > m {
                err("22001", format!("value too long for type {}", c.ty))?;
            }
        }
        Ok(store(&y))
    }

    /// Sequences advance at once and for all.
    fn nextval(&mut self, id: u32, s: &str, q: &str) -> X<i64> {
        let v = self.view(id);
        let k = match v.schemas.get(s).and_then(|x| x.rels.get(q)) {
            Some(CRel::Seq(x)) => x.last,
            _ => return err("42P01", format!("relation \"{q}\" does not exist")).map_err(Stop::Err),
        };
        if let Some(CRel::Seq(x)) = self.base.schemas.get_mut(s).and_then(|x| x.rels.get_mut(q)) {
            x.last = x.last.max(k + 1);
        }
        self.stale();
        Ok(k)
    }

    fn change(&mut self, id: u32, table: &QName, filter: &Option<E>, sets: Option<&Vec<(String, E)>>, ret: &Vec<(E, Option<String>)>, params: &[V]) -> X<(usize, Vec<Vec<V>>)> {
        self.lock_rel(id, table, 3)?;
        match sets {
            Some(x) => describe(&self.view(id), &Stmt::Update { table: table.clone(), sets: x.clone(), filter: filter.clone(), ret: ret.clone() })?,
            None => describe(&self.view(id), &Stmt::Delete { table: table.clone(), filter: filter.clone(), ret: ret.clone() })?,
        };
        let (s, t) = rkey(table);
        let v = self.view(id);
        let tab = v.table(&s, &t)?.clone();
        let mut hit = vec![];
        for r in &tab.rows {
            let row: Row = tab.cols.iter().zip(r).map(|(c, v)| (t.as_str().into(), c.name.as_str().into(), load(&c.ty, v))).collect();
            let m = match filter {
                None => true,
                Some(f) => Ev { cat: &v, params }.eval(f, &row)? == V::B(true),
            };
            if m {
                hit.push((r.clone(), row));
            }
        }
        for (r, _) in &hit {
            let k = self.row_key(&v, &s, &t, r);
            self.lock(id, Key::Row(s.clone(), t.clone(), k), 8)?;
        }
        // rows whose referencing rows stay behind
        let gone: Vec<&Vec<Val>> = hit.iter().map(|h| &h.0).collect();
        let mut new_rows = vec![];
        if let Some(x) = sets {
            for (r, row) in &hit {
                let mut n = r.clone();
                for (c, e) in x {
                    let i = tab.cols.iter().position(|k| k.name == *c).unwrap();
                    let val = Ev { cat: &v, params }.eval(e, row)?;
                    n[i] = self.coerce(&val, &tab.cols[i])?;
                }
                new_rows.push(n);
            }
        }
        for (sn, sc) in &v.schemas {
            for (tn, rel) in &sc.rels {
                let CRel::Table(o) = rel else { continue };
                for (cn, c) in &o.cons {
                    let CKind::Fk { cols, ts, tt, tc, .. } = &c.kind else { continue };
                    if *ts != s || *tt != t {
                        continue;
                    }
                    let from: Vec<usize> = cols.iter().filter_map(|n| o.cols.iter().position(|c| c.name == *n)).collect();
                    let to: Vec<usize> = tc.iter().filter_map(|n| tab.cols.iter().position(|c| c.name == *n)).collect();
                    let same = *sn == s && *tn == t;
                    for r in &o.rows {
                        if same && gone.contains(&r) && sets.is_none() {
                            continue;
                        }
                        let kv: Vec<Val> = from.iter().map(|i| r[*i].clone()).collect();
                        if kv.contains(&None) {
                            continue;
                        }
                        let was = gone.iter().any(|g| to.iter().map(|i| g[*i].clone()).collect::<Vec<_>>() == kv);
                        let is = new_rows.iter().any(|g| to.iter().map(|i| g[*i].clone()).collect::<Vec<_>>() == kv);
                        if was && !is {
                            err("23503", format!("update or delete on table \"{t}\" violates foreign key constraint \"{cn}\" on table \"{tn}\""))?;
                        }
                    }
                }
            }
        }
        let mut out = vec![];
        for (i, (r, _)) in hit.iter().enumerate() {
            self.sess.get_mut(&id).unwrap().ops.push(Op::Delete(s.clone(), t.clone(), r.clone()));
            let shown = new_rows.get(i).unwrap_or(r).clone();
            if let Some(n) = new_rows.get(i) {
                self.references(id, &tab, &t, n)?;
                self.sess.get_mut(&id).unwrap().ops.push(Op::Insert(s.clone(), t.clone(), n.clone()));
            }
            if !ret.is_empty() {
                out.push(self.returned(id, &tab, &t, &shown, ret, params)?);
            }
        }
        Ok((hit.len(), out))
    }

    /// The locks a DDL statement takes before it acts.
    fn ddl_locks(&mut self, id: u32, d: &Ddl) -> X<()> {
        let name = |q: &QName| {
            let (s, n) = rkey(q);
            Key::Obj(format!("name {s}.{n}"))
        };
        let schema = |q: &QName| Key::Obj(format!("schema {}", rkey(q).0));
        match d {
            Ddl::CreateSchema(n, _) => self.lock(id, Key::Obj(format!("schema {n}")), 8)?,
            Ddl::CreateTable(q, cols, cons, _) => {
                if self.base.schemas.contains_key(&rkey(q).0) {
                    self.lock(id, schema(q), 1)?;
                }
                self.lock(id, name(q), 8)?;
                for (_, c) in cols.iter().flat_map(|c| &c.cons).chain(cons) {
                    if let TConKind::Fk { target, .. } = &c.kind {
                        self.lock_rel(id, target, 6)?;
                    }
                }
            }
            Ddl::AlterTable(q, acts) => {
                self.lock_rel(id, q, 8)?;
                for a in acts {
                    if let Act::AddCon(_, TCon { kind: TConKind::Fk { target, .. }, .. }) = a {
                        self.lock_rel(id, target, 6)?;
                    }
                }
            }
            Ddl::CreateIndex { name: n, table, .. } => {
                self.lock_rel(id, table, 5)?;
                if let Some(n) = n {
                    self.lock(id, name(&(table.0.clone(), n.clone())), 8)?;
                }
            }
            Ddl::CreateSeq(q, ..) => {
                if self.base.schemas.contains_key(&rkey(q).0) {
                    self.lock(id, schema(q), 1)?;
                }
                self.lock(id, name(q), 8)?
            }
            Ddl::AlterSeq(q, _) => self.lock_rel(id, q, 6)?,
            Ddl::CreateView(q, ..) => {
                if self.base.schemas.contains_key(&rkey(q).0) {
                    self.lock(id, schema(q), 1)?;
                }
                self.lock(id, name(q), 8)?
            }
            Ddl::CreateFn { name: q, .. } => {
                if self.base.schemas.contains_key(&rkey(q).0) {
                    self.lock(id, schema(q), 1)?;
                }
                self.lock(id, Key::Obj(format!("function {:?}", rkey(q))), 8)?
            }
            Ddl::DropSchema(v, ..) => {
                for n in v {
                    self.lock(id, Key::Obj(format!("schema {n}")), 8)?;
                }
            }
            Ddl::Drop(_, v, ..) => {
                for q in v {
                    self.lock_rel(id, q, 8)?;
                }
            }
            Ddl::DropFn(q, ..) => self.lock(id, Key::Obj(format!("function {:?}", rkey(q))), 8)?,
        }
        Ok(())
    }
}

fn replay(c: &mut Cat, o: &Op) {
    match o {
        Op::Ddl(s) => {
            // locks keep others from invalidating it
            let _ = c.exec(s);
        }
        Op::Insert(s, t, r) => {
            if let Ok(t) = c.table_mut(s, t) {
                t.rows.push(r.clone());
            }
        }
        Op::Delete(s, t, r) => {
            if let Ok(t) = c.table_mut(s, t) {
                if let Some(i) = t.rows.iter().position(|x| x == r) {
                    t.rows.remove(i);
                }
            }
        }
        Op::Seq(s, q, v) => {
            if let Some(CRel::Seq(x)) = c.schemas.get_mut(s).and_then(|x| x.rels.get_mut(q)) {
                x.last = x.last.max(*v);
            }
        }
    }
}
