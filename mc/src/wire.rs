//! PostgreSQL's wire protocol (version 3) on the engine: messages in, bytes out.
use crate::engine::*;
use crate::pglex::PgErr;
use crate::sql::{self, V};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Msg {
    Startup,
    Ssl,
    Cancel,
    Parse(String, String),
    DescribeStmt(String),
    DescribePortal(String),
    /// portal, statement, parameter formats and values, result formats
    Bind(String, String, Vec<i16>, Vec<Option<Vec<u8>>>, Vec<i16>),
    Execute(String),
    CloseStmt(String),
    ClosePortal(String),
    Sync,
    Flush,
    Query(String),
    Terminate,
    Other(u8),
}

/// Everything up to a point where the client expects an answer.
pub type Unit = Vec<Msg>;

pub fn show(u: &Unit) -> String {
    u.iter()
        .filter_map(|m| match m {
            Msg::Startup => Some("connect".into()),
            Msg::Parse(_, s) => Some(format!("prepare {s}")),
            Msg::Bind(_, s, _, p, _) => Some(format!(
                "execute {s}({})",
                p.iter().map(|x| x.as_ref().map_or("NULL".into(), |b| String::from_utf8_lossy(b).into_owned())).collect::<Vec<_>>().join(", ")
            )),
            Msg::Query(s) => Some(s.clone()),
            Msg::CloseStmt(s) => Some(format!("close {s}")),
            Msg::Terminate => Some("disconnect".into()),
            _ => None,
        })
        .collect::<Vec<_>>()
        .join("; ")
}

/// Reads units from a connection.
pub struct Reader<R: Read> {
    r: R,
    started: bool,
    pub bytes: u64,
}

impl<R: Read> Reader<R> {
    pub fn new(r: R) -> Self {
        Reader { r, started: false, bytes: 0 }
    }
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        let mut b = vec![0; n];
        self.r.read_exact(&mut b).ok()?;
        self.bytes += n as u64;
        Some(b)
    }
    pub fn unit(&mut self) -> Option<Unit> {
        let mut u = vec![];
        loop {
            let m = self.msg()?;
            let end = matches!(m, Msg::Startup | Msg::Ssl | Msg::Cancel | Msg::Sync | Msg::Flush | Msg::Query(_) | Msg::Terminate | Msg::Other(_));
            u.push(m);
            if end {
                return Some(u);
            }
        }
    }
    fn msg(&mut self) -> Option<Msg> {
        if !self.started {
            let n = u32::from_be_bytes(self.take(4)?.try_into().ok()?) as usize;
            let b = self.take(n.checked_sub(4)?)?;
            let code = u32::from_be_bytes(b.get(0..4)?.try_into().ok()?);
            if code == 80877103 {
                return Some(Msg::Ssl);
            }
            if code == 80877102 {
                return Some(Msg::Cancel);
            }
            self.started = true;
            return Some(Msg::Startup);
        }
        let t = self.take(1)?[0];
        let n = u32::from_be_bytes(self.take(4)?.try_into().ok()?) as usize;
        let b = self.take(n.checked_sub(4)?)?;
        let mut c = Cur { b: &b, i: 0 };
        Some(match t {
            b'P' => Msg::Parse(c.str(), c.str()),
            b'D' => {
                if c.u8() == b'S' {
                    Msg::DescribeStmt(c.str())
                } else {
                    Msg::DescribePortal(c.str())
                }
            }
            b'B' => {
                let (p, s) = (c.str(), c.str());
                let nf = c.i16();
                let f = (0..nf).map(|_| c.i16()).collect();
                let np = c.i16();
                let v = (0..np)
                    .map(|_| {
                        let n = c.i32();
                        if n < 0 {
                            None
                        } else {
                            Some(c.bytes(n as usize))
                        }
                    })
                    .collect();
                let nr = c.i16();
                let r = (0..nr).map(|_| c.i16()).collect();
                Msg::Bind(p, s, f, v, r)
            }
            b'E' => Msg::Execute(c.str()),
            b'C' => {
                if c.u8() == b'S' {
                    Msg::CloseStmt(c.str())
                } else {
                    Msg::ClosePortal(c.str())
                }
            }
            b'S' => Msg::Sync,
            b'H' => Msg::Flush,
            b'Q' => Msg::Query(c.str()),
            b'X' => Msg::Terminate,
            x => Msg::Other(x),
        })
    }
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn u8(&mut self) -> u8 {
        self.i += 1;
        self.b.get(self.i - 1).copied().unwrap_or(0)
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let r = self.b.get(self.i..self.i + n).map(|x| x.to_vec()).unwrap_or_default();
        self.i += n;
        r
    }
    fn i16(&mut self) -> i16 {
        i16::from_be_bytes([self.u8(), self.u8()])
    }
    fn i32(&mut self) -> i32 {
        i32::from_be_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
    }
    fn str(&mut self) -> String {
        let st = self.i;
        while self.i < self.b.len() && self.b[self.i] != 0 {
            self.i += 1;
        }
        let s = String::from_utf8_lossy(&self.b[st..self.i]).into_owned();
        self.i += 1;
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Conn {
    stmts: BTreeMap<String, String>,
    portals: BTreeMap<String, (String, Vec<V>, Vec<i16>)>,
    skip: bool,
    /// progress within a unit that had to wait
    pos: usize,
    out: Vec<u8>,
}

pub enum Reply {
    Bytes(Vec<u8>),
    Wait(BTreeSet<u32>),
    Close,
}

fn msg(t: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![t];
    v.extend((body.len() as u32 + 4).to_be_bytes());
    v.extend(body);
    v
}
fn cstr(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.push(0);
    v
}

pub fn error(sev: &str, code: &str, text: &str) -> Vec<u8> {
    let mut b = vec![];
    for (k, v) in [(b'S', sev), (b'V', sev), (b'C', code), (b'M', text)] {
        b.push(k);
        b.extend(cstr(v));
    }
    b.push(0);
    msg(b'E', &b)
}

fn oid(t: &str) -> u32 {
    if let Some(e) = t.strip_suffix("[]") {
        return match e.split('(').next().unwrap_or("") {
            "bool" => 1000,
            "\"char\"" => 1002,
            "name" => 1003,
            "int8" => 1016,
            "int2" => 1005,
            "int4" => 1007,
            "oid" => 1028,
            "varchar" => 1015,
            "bpchar" => 1014,
            "regclass" => 2210,
            _ => 1009,
        };
    }
    match t.split('(').next().unwrap_or("") {
        "bool" => 16,
        "\"char\"" => 18,
        "name" => 19,
        "int8" => 20,
        "int2" => 21,
        "int4" => 23,
        "oid" => 26,
        "regclass" => 2205,
        "json" => 114,
        "bpchar" => 1042,
        "varchar" => 1043,
        "jsonb" => 3802,
        "timestamp" => 1114,
        "timestamptz" => 1184,
        "void" => 2278,
        _ => 25,
    }
}

fn int(i: i64, ty: &str) -> Option<Vec<u8>> {
    Some(match ty {
        "int2" => (i as i16).to_be_bytes().to_vec(),
        "int8" => i.to_be_bytes().to_vec(),
        "int4" | "oid" | "regclass" => (i as i32).to_be_bytes().to_vec(),
        _ => return None,
    })
}

fn binary(v: &V, ty: &str) -> Option<Vec<u8>> {
    Some(match v {
        V::Null => return None,
        V::B(b) => vec![*b as u8],
        V::I(i) => int(*i, ty).unwrap_or_else(|| i.to_string().into_bytes()),
        V::S(s) => {
            if ty.starts_with("timestamp") {
                0i64.to_be_bytes().to_vec()
            } else if let Some(b) = s.parse().ok().and_then(|i| int(i, ty)) {
                b
            } else {
                s.as_bytes().to_vec()
            }
        }
        V::A(a) => {
            let e = ty.strip_suffix("[]").unwrap_or("text");
            let mut b = vec![];
            b.extend((!a.is_empty() as i32).to_be_bytes());
            b.extend((a.iter().any(|x| x.is_none()) as i32).to_be_bytes());
            b.extend(oid(e).to_be_bytes());
            if !a.is_empty() {
                b.extend((a.len() as i32).to_be_bytes());
                b.extend(1i32.to_be_bytes());
            }
            for x in a {
                match x {
                    None => b.extend((-1i32).to_be_bytes()),
                    Some(s) => {
                        let x = match e {
                            "bool" => vec![(s == "t" || s == "true") as u8],
                            _ => s.parse().ok().and_then(|i| int(i, e)).unwrap_or_else(|| s.as_bytes().to_vec()),
                        };
                        b.extend((x.len() as i32).to_be_bytes());
                        b.extend(x);
                    }
                }
            }
            b
        }
    })
}
fn text(v: &V) -> Option<Vec<u8>> {
    sql::store(v).map(|s| s.into_bytes())
}

fn decode(b: &Option<Vec<u8>>, ty: &str, fmt: i16) -> Result<V, PgErr> {
    let bad = || PgErr { code: "22P03", msg: "incorrect binary data format".into() };
    let Some(b) = b else { return Ok(V::Null) };
    let utf = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|_| PgErr { code: "22021", msg: "invalid byte sequence for encoding \"UTF8\"".into() });
    if fmt == 0 {
        return sql::cast(V::S(utf(b)?), ty);
    }
    Ok(match ty {
        "bool" => V::B(b.first() == Some(&1)),
        "int2" => V::I(i16::from_be_bytes(b[..].try_into().map_err(|_| bad())?) as i64),
        "int4" | "oid" | "regclass" => V::I(i32::from_be_bytes(b[..].try_into().map_err(|_| bad())?) as i64),
        "int8" => V::I(i64::from_be_bytes(b[..].try_into().map_err(|_| bad())?)),
        t if t.ends_with("[]") => {
            let mut c = Cur { b, i: 0 };
            let dims = c.i32();
            c.i32();
            c.i32();
            let mut a = vec![];
            let e = t.strip_suffix("[]").unwrap_or("text");
            if dims > 0 {
                let n = c.i32();
                c.i32();
                for _ in 0..n {
                    let l = c.i32();
                    a.push(if l < 0 {
                        None
                    } else {
                        let b = c.bytes(l as usize);
                        match e {
                            "int2" | "int4" | "int8" | "oid" | "regclass" | "bool" => match decode(&Some(b), e, 1)? {
                                V::I(i) => Some(i.to_string()),
                                V::B(x) => Some(if x { "t" } else { "f" }.into()),
                                _ => None,
                            },
                            _ => Some(utf(&b)?),
                        }
                    });
                }
            }
            if a.iter().flatten().any(|s: &String| s.contains('\0')) {
                return Err(PgErr { code: "22021", msg: "invalid byte sequence for encoding \"UTF8\": 0x00".into() });
            }
            V::A(a)
        }
        _ => {
            let s = utf(b)?;
            if s.contains('\0') {
                return Err(PgErr { code: "22021", msg: "invalid byte sequence for encoding \"UTF8\": 0x00".into() });
            }
            V::S(s)
        }
    })
}

fn row_desc(cols: &[(String, String)], fmt: &dyn Fn(usize) -> i16) -> Vec<u8> {
    let mut b = (cols.len() as i16).to_be_bytes().to_vec();
    for (i, (n, t)) in cols.iter().enumerate() {
        b.extend(cstr(n));
        b.extend(0u32.to_be_bytes());
        b.extend(0i16.to_be_bytes());
        b.extend(oid(t).to_be_bytes());
        b.extend((-1i16).to_be_bytes());
        b.extend((-1i32).to_be_bytes());
        b.extend(fmt(i).to_be_bytes());
    }
    msg(b'T', &b)
}
fn data_row(vals: Vec<Option<Vec<u8>>>) -> Vec<u8> {
    let mut b = (vals.len() as i16).to_be_bytes().to_vec();
    for v in vals {
        match v {
            None => b.extend((-1i32).to_be_bytes()),
            Some(x) => {
                b.extend((x.len() as i32).to_be_bytes());
                b.extend(x);
            }
        }
    }
    msg(b'D', &b)
}

impl Conn {
    pub fn ready(pg: &Pg, id: u32) -> Vec<u8> {
        let s = match pg.state(id) {
            St::Idle => b'I',
            St::Tx => b'T',
            St::Failed => b'E',
        };
        msg(b'Z', &[s])
    }
    /// What follows an injected error: ready for query.
    pub fn refused(&mut self, pg: &mut Pg, id: u32, code: &str, text: &str) -> Vec<u8> {
        pg.fail(id);
        self.pos = 0;
        self.skip = false;
        self.out.clear();
        let mut v = error("ERROR", code, text);
        v.extend(Conn::ready(pg, id));
        v
    }

    pub fn handle(&mut self, pg: &mut Pg, id: u32, u: &Unit) -> Reply {
        while self.pos < u.len() {
            match self.one(pg, id, &u[self.pos]) {
                Ok(true) => {}
                Ok(false) => {
                    pg.disconnect(id);
                    return Reply::Close;
                }
                Err(w) => return Reply::Wait(w),
            }
            self.pos += 1;
        }
        self.pos = 0;
        Reply::Bytes(std::mem::take(&mut self.out))
    }

    fn err(&mut self, e: &PgErr) {
        self.out.extend(error("ERROR", e.code, &e.msg));
        self.skip = true;
    }

    fn one(&mut self, pg: &mut Pg, id: u32, m: &Msg) -> Result<bool, BTreeSet<u32>> {
        if self.skip && !matches!(m, Msg::Sync | Msg::Terminate) {
            return Ok(true);
        }
        match m {
            Msg::Ssl => self.out.push(b'N'),
            Msg::Cancel => return Ok(false),
            Msg::Startup => {
                pg.connect(id);
                self.out.extend(msg(b'R', &0u32.to_be_bytes()));
                for (k, v) in [("server_version", "15.4"), ("client_encoding", "UTF8"), ("standard_conforming_strings", "on"), ("TimeZone", "UTC")] {
                    let mut b = cstr(k);
                    b.extend(cstr(v));
                    self.out.extend(msg(b'S', &b));
                }
                let mut k = 77u32.to_be_bytes().to_vec();
                k.extend(99u32.to_be_bytes());
                self.out.extend(msg(b'K', &k));
                self.out.extend(Conn::ready(pg, id));
            }
            Msg::Parse(n, s) => match pg.prepare(id, s) {
                Ok(Ex::Ok(_)) => {
                    self.stmts.insert(n.clone(), s.clone());
                    self.out.extend(msg(b'1', &[]));
                }
                Ok(Ex::Err(e)) => self.err(&e),
                Ok(Ex::Wait(w)) => return Err(w),
                Err(()) => {}
            },
            Msg::DescribeStmt(n) => {
                let Some(s) = self.stmts.get(n).cloned() else {
                    self.err(&PgErr { code: "26000", msg: format!("prepared statement \"{n}\" does not exist") });
                    return Ok(true);
                };
                match sql::parse(&s).and_then(|s| sql::describe(&pg.view(id), &s)) {
                    Ok((p, cols)) => {
                        let mut b = (p.len() as i16).to_be_bytes().to_vec();
                        for t in &p {
                            b.extend(oid(t).to_be_bytes());
                        }
                        self.out.extend(msg(b't', &b));
                        match cols {
                            Some(c) => self.out.extend(row_desc(&c, &|_| 0)),
                            None => self.out.extend(msg(b'n', &[])),
                        }
                    }
                    Err(e) => {
                        pg.fail(id);
                        self.err(&e)
                    }
                }
            }
            Msg::DescribePortal(n) => {
                let Some((s, _, f)) = self.portals.get(n).cloned() else {
                    self.err(&PgErr { code: "34000", msg: format!("portal \"{n}\" does not exist") });
                    return Ok(true);
                };
                match sql::parse(&s).and_then(|s| sql::describe(&pg.view(id), &s)) {
                    Ok((_, Some(c))) => self.out.extend(row_desc(&c, &|i| fmt(&f, i))),
                    Ok(_) => self.out.extend(msg(b'n', &[])),
                    Err(e) => self.err(&e),
                }
            }
            Msg::Bind(p, n, f, v, r) => {
                let Some(s) = self.stmts.get(n).cloned() else {
                    self.err(&PgErr { code: "26000", msg: format!("prepared statement \"{n}\" does not exist") });
                    return Ok(true);
                };
                let types = match sql::parse(&s).and_then(|s| sql::describe(&pg.view(id), &s)) {
                    Ok((p, _)) => p,
                    Err(e) => {
                        pg.fail(id);
                        self.err(&e);
                        return Ok(true);
                    }
                };
                if types.len() != v.len() {
                    pg.fail(id);
                    self.err(&PgErr { code: "08P01", msg: "bind message supplies a wrong number of parameters".into() });
                    return Ok(true);
                }
                let mut vals = vec![];
                for (i, x) in v.iter().enumerate() {
                    match decode(x, &types[i], fmt(f, i)) {
                        Ok(x) => vals.push(x),
                        Err(e) => {
                            pg.fail(id);
                            self.err(&e);
                            return Ok(true);
                        }
                    }
                }
                self.portals.insert(p.clone(), (s, vals, r.clone()));
                self.out.extend(msg(b'2', &[]));
            }
            Msg::Execute(p) => {
                let Some((s, v, f)) = self.portals.get(p).cloned() else {
                    self.err(&PgErr { code: "34000", msg: format!("portal \"{p}\" does not exist") });
                    return Ok(true);
                };
                match pg.exec(id, &s, &v) {
                    Ex::Ok(r) => {
                        let types: Vec<String> = r.cols.unwrap_or_default().into_iter().map(|c| c.1).collect();
                        for row in &r.rows {
                            let b = row.iter().enumerate().map(|(i, x)| if fmt(&f, i) == 1 { binary(x, types.get(i).map_or("text", |t| t)) } else { text(x) }).collect();
                            self.out.extend(data_row(b));
                        }
                        self.out.extend(if r.tag.is_empty() { msg(b'I', &[]) } else { msg(b'C', &cstr(&r.tag)) });
                    }
                    Ex::Err(e) => self.err(&e),
                    Ex::Wait(w) => return Err(w),
                }
            }
            Msg::CloseStmt(n) => {
                self.stmts.remove(n);
                self.out.extend(msg(b'3', &[]));
            }
            Msg::ClosePortal(n) => {
                self.portals.remove(n);
                self.out.extend(msg(b'3', &[]));
            }
            Msg::Sync => {
                self.skip = false;
                if pg.state(id) == St::Idle {
                    self.portals.clear();
                }
                self.out.extend(Conn::ready(pg, id));
            }
            Msg::Flush => {}
            Msg::Query(s) => {
                // several statements are possible here; the ones podo sends are single
                match pg.exec(id, s, &[]) {
                    Ex::Ok(r) => {
                        if let Some(c) = &r.cols {
                            self.out.extend(row_desc(c, &|_| 0));
                        }
                        for row in &r.rows {
                            self.out.extend(data_row(row.iter().map(text).collect()));
                        }
                        self.out.extend(if r.tag.is_empty() { msg(b'I', &[]) } else { msg(b'C', &cstr(&r.tag)) });
                    }
                    Ex::Err(e) => self.out.extend(error("ERROR", e.code, &e.msg)),
                    Ex::Wait(w) => return Err(w),
                }
                self.out.extend(Conn::ready(pg, id));
            }
            Msg::Terminate => return Ok(false),
            Msg::Other(_) => {
                self.out.extend(error("FATAL", "08P01", "invalid frontend message type"));
                return Ok(false);
            }
        }
        Ok(true)
    }
}

fn fmt(f: &[i16], i: usize) -> i16 {
    match f.len() {
        0 => 0,
        1 => f[0],
        _ => f.get(i).copied().unwrap_or(0),
    }
}
