//! C04 and C05: definition files, written and read by podo, against a reference reader.
use crate::json::J;
use crate::model::*;
use crate::report::{par, Ctx};
use crate::sut::*;
use crate::universe::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------------------------------------
// C04

/// Whether the notation of definitions has a form for this name.
fn name_ok(n: &str) -> bool {
    !n.is_empty() && n.trim() == n
}

pub fn representable(d: &Db) -> bool {
    let names = |v: &[String]| !v.is_empty();
    d.schemas.iter().all(|(sn, s)| {
        name_ok(sn)
            && s.fns.keys().all(|f| name_ok(f))
            && s.rels.iter().all(|(rn, r)| {
                name_ok(rn)
                    && match r {
                        Rel::View(q) => !q.is_empty(),
                        Rel::Seq(q) => q.owned.as_ref().map_or(true, |o| name_ok(&o.0)) && is_int(&q.ty),
                        Rel::Index(i) => name_ok(&i.table) && names(&i.keys),
                        Rel::Table(t) => {
                            t.cols.iter().all(|c| {
                                name_ok(&c.name)
                                    && name_ok(&c.ty)
                                    && !c.ty.contains(['=', '!'])
                                    && c.def.as_ref().map_or(true, |d| name_ok(d))
                            }) && t.cons.iter().all(|(n, c)| {
                                name_ok(n)
                                    && match &c.kind {
                                        ConKind::Pk { cols } | ConKind::Uq { cols } => names(cols),
                                        ConKind::Ck { .. } => true,
                                        ConKind::Fk { cols, ts, tt, tc, .. } => names(cols) && names(tc) && name_ok(ts) && name_ok(tt),
                                    }
                            })
                        }
                    }
            })
    })
}

fn is_int(t: &str) -> bool {
    ["int2", "int4", "int8", "smallint", "integer", "bigint", "int"].contains(&t.to_lowercase().as_str())
}

fn sorted(j: &J) -> J {
    match j {
        J::O(o) => {
            let mut v: Vec<(String, J)> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::O(v)
        }
        J::A(a) => J::A(a.iter().map(sorted).collect()),
        x => x.clone(),
    }
}

fn round_trip(sut: &dyn Sut, dir: &Path, d: &Db) -> Result<bool, String> {
    std::fs::create_dir_all(dir).unwrap();
    let f = dir.join("a.yaml");
    std::fs::remove_file(&f).ok();
    match sut.save_defs(&f, d) {
        Out::Ok(()) => {}
        Out::Err(e) if !representable(d) => {
            if f.exists() {
                return Err(format!("writing fails ({e}) but leaves a file"));
            }
            return Ok(false);
        }
        x => return Err(format!("writing fails: {}", x.show())),
    }
    let text1 = std::fs::read_to_string(&f).map_err(|e| format!("nothing is written: {e}"))?;
    let got = match sut.load_defs(dir) {
        Out::Ok(g) => g,
        x => return Err(format!("what is written cannot be read: {} in\n{text1}", x.show())),
    };
    if got != *d {
        return Err(format!("what is read back differs: {} in\n{text1}", got.diff_text(d)));
    }
    match sut.save_defs(&f, &got) {
        Out::Ok(()) => {}
        x => return Err(format!("writing what was read fails: {}", x.show())),
    }
    let text2 = std::fs::read_to_string(&f).unwrap();
    if text1 != text2 {
        let (a, b) = (sut.yaml(&text1), sut.yaml(&text2));
        match (a, b) {
            (Ok(a), Ok(b)) if sorted(&a) == sorted(&b) => {}
            _ => return Err(format!("writing what was read gives another file:\n{text1}\n---\n{text2}")),
        }
    }
    Ok(true)
}

/// A schema with every kind of object, in which slot `k` holds the text; None if there is no such slot.
pub fn slot_db(k: usize, x: &str) -> Option<(&'static str, Db)> {
    let t = || Table::new(vec![Col::new("id", "int4"), Col::new("n", "text").def("'x'")]);
    let d = Db::init();
    Some(match k {
        0 => ("schema name", d.table(x, "t", t())),
        1 => ("table name", d.table("public", x, t())),
        2 => ("column name", d.table("public", "t", Table::new(vec![Col::new(x, "int4"), Col::new("zz", "text").nn().def("1")]))),
        3 => ("column type", d.table("public", "t", Table::new(vec![Col::new("c", x), Col::new("d", x).nn(), Col::new("e", x).nn().def("1")]))),
        4 => ("column default", d.table("public", "t", Table::new(vec![Col::new("c", "text").def(x), Col::new("d", "text").nn().def(x)]))),
        5 => ("constraint name", d.table("public", "t", t().con(x, Con::pk(&["id", "n"])))),
        6 => ("check expression", d.table("public", "t", t().con("c", Con::ck(x).defer(true, false)))),
        7 => ("primary key column", d.table("public", "t", t().con("c", Con::pk(&[x])).con("u", Con::pk(&["id", x])))),
        8 => ("unique column", d.table("public", "t", t().con("c", Con::uq(&[x]).defer(true, true)).con("u", Con::uq(&[x, "id"])))),
        9 => ("foreign key column", d.table("public", "t", t().con("f", Con::fk(&[x], "public", "u", &["id"])))),
        10 => ("referenced schema", d.table("public", "t", t().con("f", Con::fk(&["id"], x, "u", &["id"])))),
        11 => ("referenced table", d.table("public", "t", t().con("f", Con::fk(&["id"], "public", x, &["id"])).con("g", Con::fk(&["id"], "app", x, &["id", "n"])))),
        12 => ("referenced column", d.table("public", "t", t().con("f", Con::fk(&["id"], "public", "u", &[x])))),
        13 => ("rules", d.table("public", "t", t().con("f", Con::fk(&["id"], "public", "u", &["id"]).rules(x, x, x).defer(true, true)))),
        14 => ("index name", d.rel("public", x, Rel::Index(Index::new("t", &["id"])))),
        15 => ("table of index", d.rel("public", "i", Rel::Index(Index { unique: true, ..Index::new(x, &["id", "n"]) }))),
        16 => ("index key", d.rel("public", "i", Rel::Index(Index::new("t", &[x]))).rel("public", "j", Rel::Index(Index::new("t", &[x, "b"])))),
        17 => ("index method", d.rel("public", "i", Rel::Index(Index { method: x.into(), ..Index::new("t", &["id"]) }))),
        18 => ("view name", d.rel("public", x, Rel::View("SELECT 1".into()))),
        19 => ("view query", d.rel("public", "v", Rel::View(x.into()))),
        20 => ("sequence name", d.rel("public", x, Rel::Seq(Seq::new("int4", -2, Some(-5), Some(7), Some(3))))),
        21 => ("table of sequence", d.rel("public", "s", Rel::Seq(Seq { owned: Some((x.into(), "c".into())), ..Seq::plain() }))),
        22 => ("column of sequence", d.rel("public", "s", Rel::Seq(Seq { owned: Some(("t".into(), x.into())), ..Seq::plain() }))),
        23 => ("function name", d.func("public", x, Func::new("b"))),
        24 => ("function body", d.func("public", "f()", Func::new(x))),
        25 => ("function language", d.func("public", "f()", Func { lang: x.into(), ..Func::new("b") })),
        26 => ("function result", d.func("public", "f()", Func { ret: x.into(), ..Func::new("b") })),
        27 => ("function volatility", d.func("public", "f()", Func { vol: x.into(), ..Func::new("b") })),
        _ => return None,
    })
}

pub fn words_list() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "yes", "no", "on", "off", "true", "false", "True", "null", "Null", "~", "1", "-1", "+1", "1.0", "1.", ".5", "0x1F", "0o7", "0b1", "1e3", "1_000",
        ".inf", "-.inf", ".nan", "- a", "-", "a: b", "a:b", ":", "a:", "# x", "a # b", "a#b", "? x", "?", "!t", "! t", "!!str a", "&a", "*a", "%x", "@x", "`x",
        "|", "|-", ">", ">-", "---", "...", "--- a", "2001-01-01", "12:30:45", "<<", "=", "{}", "[]", "{a: b}", "[a, b]", "a, b", "\"", "'", "\"a\"", "'a'",
        "it's", "a\"b", "\\", "\\n", "a\\", "$1", "${A}", "%", "a.b", "a.b.c", ".", ".a", "a.", "\".\"", "a\".b", "\"a.b\"", "a\tb", "a\nb", "a\n\nb", "a\n b\n  c",
        "\ta", "a\t", "a\n", "\na", "a\r\nb", "a\rb", "a\u{85}b", "a\u{2028}b", "a\u{a0}b", "\u{a0}a", "\u{feff}a", "é", "日本", "😀", "İ", "\u{212a}", "check\u{212a}",
        "update", "delete", "on update", "on delete", "update x", "DELETE", "table", "table x", "column", "column c", "constraint", "references", "index", "unique", "view",
        "schema", "as", "check", "not null", "primary key", "cycle", "cache", "start", "increment", "using", "name with blanks", "UPPER", "MixedCase", "under_score",
        "public", "app", "t", "u", "f(a int4, b text)", "f(\"A\" int4 DEFAULT 1)", "now()", "'a!b=c'::text", "a > 1 AND b = 'x'", "SELECT a,\n  b\nFROM t\nWHERE x = 'y: z'",
        "BEGIN\n  RETURN 1; -- comment: \"x\"\nEND", "BEGIN\r\n\tRETURN 1;\r\nEND;\r\n", "int4", "int8", "numeric(10,2)", "timestamp with time zone", "character varying(20)", "int4[]",
        "btree", "gin", "SIMPLE", "FULL", "NO ACTION", "CASCADE", "SET NULL", "sql", "SQL", "plpgsql", "void", "VOLATILE", "IMMUTABLE",
        "(1 + 2)", "(a)", "((a) + (b))", "(a)::int4", "ARRAY[1, 2]", "{1,2}", "'{}'::jsonb", "(now() AT TIME ZONE 'utc'::text)", "a;b", "a; -- b", "/* a */ b", "!", "!=", "a != b", "a = 'b!'", "a == b",
        "UPPER(\"Name\")", "E'\\n'", "$$a$$", "$x$ a $x$", "a::\"T\"", "select", "SELECT", "Select * From t;", "0", "00", "007", "1e", "0.1", "-0", "y", "n", "Y", "N", "NULL", "None", "nil",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [63, 64, 65, 127, 128, 129, 255, 256, 1024] {
        v.push("x".repeat(n));
        v.push("y z".repeat(n / 3 + 1));
    }
    v.push("word ".repeat(40) + "end");
    v.push("line one\n".repeat(30));
    v.push(("  ".to_owned() + &"long ".repeat(30) + "\n").repeat(3));
    v
}

pub fn strings(alpha: &[char], n: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for s in &cur {
            for c in alpha {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}

pub fn run_c04(ctx: &Ctx, sut: &dyn Sut) {
    let work = crate::work();
    let dir_of = |i: usize| work.join(format!("d{:?}-{}", std::thread::current().id(), i % 1).replace(['(', ')'], ""));
    // every schema of C01's universes
    for sl in slices() {
        let states = sl.states(&wf_loose);
        ctx.count("states", states.len() as u64);
        par(ctx, &states, |i, s| {
            match round_trip(sut, &dir_of(i), &s.db) {
                Ok(_) => {
                    ctx.count("schemas written and read back", 1);
                    ctx.count("transitions", 3);
                }
                Err(e) => ctx.fail(None, e, J::obj(vec![("schema", J::A(s.db.facts().into_iter().map(J::S).collect()))]), s.db.size()),
            }
        });
    }
    // attributes of sequences, alone and together
    let mut seqs = vec![];
    for ty in ["int2", "int4", "int8", "bigint", "integer", "smallint"] {
        let (lo, hi) = type_range(match ty {
            "bigint" => "int8",
            "integer" => "int4",
            "smallint" => "int2",
            t => t,
        });
        for inc in [1, 2, -1, -3, i64::MAX, i64::MIN] {
            for min in [1, 0, -1, lo, hi, -7] {
                for max in [hi, -1, 100, lo, 1] {
                    for start in [min, max, 5, 0, -1] {
                        for (cache, cycle) in [(1, false), (20, true)] {
                            for owned in [None, Some(("t".to_owned(), "id".to_owned()))] {
                                seqs.push(Seq { ty: ty.into(), inc, min, max, start, cache, cycle, owned: owned.clone() });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.count("states", seqs.len() as u64);
    par(ctx, &seqs, |i, q| {
        let d = Db::init().rel("public", "s", Rel::Seq(q.clone()));
        match round_trip(sut, &dir_of(i), &d) {
            Ok(_) => ctx.count("transitions", 3),
            Err(e) => ctx.fail(None, e, J::obj(vec![("schema", J::A(d.facts().into_iter().map(J::S).collect()))]), 5),
        }
    });
    // every text in every place for a text
    let alpha: Vec<char> = " \n\t'\":#-\\a1=!,.[{&*|>%@`~?é\r\u{85}\u{2028}\u{feff}$_T()]}+/;<^".chars().collect();
    let small: Vec<char> = " \n:#-'\"a\\\t".chars().collect();
    let mut texts: BTreeSet<String> = words_list().into_iter().collect();
    texts.extend(strings(&alpha, 2));
    texts.extend(strings(&small, if ctx.thorough { 5 } else { 3 }));
    texts.insert(String::new());
    if ctx.thorough {
        texts.extend(strings(&alpha, 3));
    }
    let mut wide: BTreeSet<String> = BTreeSet::new();
    if !ctx.thorough {
        wide.extend(strings(&alpha[..36], 3));
        wide.extend(strings(&small, 4));
    }
    ctx.bound("texts in every slot", J::I(texts.len() as i64));
    ctx.bound("further texts in function bodies and names", J::I(wide.len() as i64));
    let mut items: Vec<(usize, String)> = vec![];
    for k in 0..28 {
        items.extend(texts.iter().map(|t| (k, t.clone())));
    }
    for k in [1, 24] {
        items.extend(wide.iter().map(|t| (k, t.clone())));
    }
    ctx.count("states", items.len() as u64);
    par(ctx, &items, |i, (k, x)| {
        let (what, d) = slot_db(*k, x).unwrap();
        match round_trip(sut, &dir_of(i), &d) {
            Ok(w) => {
                ctx.count("transitions", 3);
                ctx.count(if w { "texts written and read back" } else { "texts without a notation refused" }, 1);
                if i % 9973 == 0 {
                    ctx.sample(J::obj(vec![("slot", J::s(what)), ("text", J::s(x.as_str())), ("written", J::B(w))]));
                }
            }
            Err(e) => ctx.fail(None, format!("{what} {x:?}: {e}"), J::obj(vec![("slot", J::s(what)), ("text", J::s(x.as_str()))]), x.len()),
        }
    });
    // pairs of words: two names of one table, and of two kinds of objects
    let words = words_list();
    let pairs: Vec<(usize, usize)> = (0..words.len()).flat_map(|i| (0..words.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    ctx.count("states", pairs.len() as u64);
    par(ctx, &pairs, |n, (i, j)| {
        let (x, y) = (&words[*i], &words[*j]);
        let d = Db::init()
            .table(x, y, Table::new(vec![Col::new(x, "int4"), Col::new(y, "text").nn().def("'a = !'")]).con(x, Con::fk(&[x, y], y, x, &[y, x])).con(y, Con::ck(x)))
            .rel(x, x, Rel::Index(Index::new(y, &[x, y])))
            .func(x, y, Func::new(x));
        let d = if x == "public" || y == "public" { d } else { d.rel("public", x, Rel::View(y.clone())) };
        match round_trip(sut, &dir_of(n), &d) {
            Ok(_) => ctx.count("transitions", 3),
            Err(e) => ctx.fail(None, format!("{x:?} and {y:?}: {e}"), J::obj(vec![("texts", J::strs(&[x, y]))]), x.len() + y.len()),
        }
    });
    ctx.count("traces_validated_against_impl", items.len() as u64 + pairs.len() as u64);
    ctx.assume("names, types and defaults that begin or end in blanks, and types with = or !, have no notation in definitions: an error is expected for them");
}

// ---------------------------------------------------------------------------------------------
// C05: the reference reader

pub enum Want {
    Accept(Db),
    Reject(String),
    /// may be refused, but if accepted then as this
    Either(Db),
}

const KEYS: &[&str] = &[
    "foreign key", "initially deferred", "on delete", "on update", "owned by", "primary key", "as", "cache", "check", "column", "constraint", "cycle", "deferrable", "function",
    "volatility", "increment", "index", "language", "match", "maxvalue", "minvalue", "on", "references", "returns", "schema", "sequence", "start", "table", "unique", "using", "view",
];

struct Bad(String);
type L<T> = Result<T, Bad>;
fn bad<T>(s: impl Into<String>) -> L<T> {
    Err(Bad(s.into()))
}

/// keyword and name
fn key(k: &str, parent: &str) -> L<(&'static str, Option<String>)> {
    let mut best: Option<&'static str> = None;
    for kw in KEYS {
        if parent == "index" && kw.starts_with("on ") {
            continue;
        }
        let ok = k.len() >= kw.len() && k.is_char_boundary(kw.len()) && k[..kw.len()].eq_ignore_ascii_case(kw) && k[kw.len()..].chars().next().map_or(true, |c| c.is_whitespace());
        if ok && best.map_or(true, |b| b.len() < kw.len()) {
            best = Some(kw);
        }
    }
    let Some(kw) = best else { return bad(format!("unknown key {k:?}")) };
    let n = k[kw.len()..].trim();
    Ok((kw, if n.is_empty() { None } else { Some(n.to_owned()) }))
}

struct Entry<'a> {
    kw: &'static str,
    name: Option<String>,
    val: &'a J,
}

fn entries<'a>(j: &'a J, parent: &str) -> L<Vec<Entry<'a>>> {
    match j {
        J::Null => Ok(vec![]),
        J::O(o) => {
            let mut v = vec![];
            let mut seen = BTreeSet::new();
            for (k, val) in o {
                if !seen.insert(k.as_str()) {
                    return bad(format!("repeated key {k:?}"));
                }
                let (kw, name) = key(k, parent)?;
                v.push(Entry { kw, name, val });
            }
            Ok(v)
        }
        _ => bad("a mapping is required"),
    }
}

fn named(e: &Entry) -> L<String> {
    e.name.clone().ok_or_else(|| Bad(format!("{} needs a name", e.kw)))
}
fn unnamed(e: &Entry) -> L<()> {
    match &e.name {
        None => Ok(()),
        Some(n) => bad(format!("{} takes no name {n:?}", e.kw)),
    }
}
fn st(j: &J) -> L<String> {
    j.str().map(|s| s.to_owned()).ok_or_else(|| Bad(format!("a text is required, not {}", j.show())))
}
fn bo(j: &J) -> L<bool> {
    match j {
        J::B(b) => Ok(*b),
        _ => bad(format!("a boolean is required, not {}", j.show())),
    }
}
fn int(j: &J) -> L<i64> {
    match j {
        J::I(b) => Ok(*b),
        _ => bad(format!("an integer is required, not {}", j.show())),
    }
}
fn list(j: &J) -> L<Vec<String>> {
    match j {
        J::S(s) => Ok(vec![s.clone()]),
        J::A(a) if !a.is_empty() => a.iter().map(st).collect(),
        _ => bad(format!("texts are required, not {}", j.show())),
    }
}
fn once<T>(slot: &mut Option<T>, v: T, what: &str) -> L<()> {
    if slot.is_some() {
        return bad(format!("{what} is given twice"));
    }
    *slot = Some(v);
    Ok(())
}

fn column(s: &str, soft: &mut bool) -> L<(String, bool, Option<String>)> {
    let end = s.find(['=', '!']).unwrap_or(s.len());
    let ty = s[..end].trim();
    if ty.is_empty() {
        return bad("no type");
    }
    let mut rest = &s[end..];
    let nn = rest.starts_with('!');
    if nn {
        rest = &rest[1..];
    }
    let r = rest.trim_start();
    let def = if r.is_empty() {
        if !rest.is_empty() {
            *soft = true;
        }
        None
    } else if let Some(d) = r.strip_prefix('=') {
        let d = d.trim();
        if d.is_empty() {
            return bad("no default after =");
        }
        Some(d.to_owned())
    } else {
        return bad("the type is followed by something else");
    };
    Ok((ty.to_owned(), nn, def))
}

fn reference(s: &str, schema: &str) -> L<(String, String)> {
    // quoted parts may contain dots
    let mut parts: Vec<String> = vec![];
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    loop {
        let mut p = String::new();
        if cs.get(i) == Some(&'"') {
            i += 1;
            loop {
                match cs.get(i) {
                    None => return bad("unterminated quote"),
                    Some('"') if cs.get(i + 1) == Some(&'"') => {
                        p.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(c) => {
                        p.push(*c);
                        i += 1;
                    }
                }
            }
            if i < cs.len() && cs[i] != '.' {
                return bad("text after the quote");
            }
        } else {
            while i < cs.len() && cs[i] != '.' {
                p.push(cs[i]);
                i += 1;
            }
        }
        if p.is_empty() {
            return bad("empty name in a reference");
        }
        parts.push(p);
        if i >= cs.len() {
            break;
        }
        i += 1;
    }
    match parts.len() {
        1 => Ok((schema.to_owned(), parts.remove(0))),
        2 => Ok((parts[0].clone(), parts[1].clone())),
        _ => bad("too many parts in a reference"),
    }
}

fn put<V>(m: &mut BTreeMap<String, V>, k: String, v: V, what: &str) -> L<()> {
    if m.contains_key(&k) {
        return bad(format!("duplicate {what} {k:?}"));
    }
    m.insert(k, v);
    Ok(())
}

fn constraint(schema: &str, j: &J, soft: &mut bool) -> L<Con> {
    let (mut pk, mut uq, mut fk, mut ck) = (None, None, None, None);
    let (mut refs, mut def, mut idef, mut m, mut u, mut d) = (None, None, None, None, None, None);
    for e in entries(j, "constraint")? {
        if e.kw != "references" {
            unnamed(&e)?;
        }
        match e.kw {
            "primary key" => once(&mut pk, list(e.val)?, e.kw)?,
            "unique" => once(&mut uq, list(e.val)?, e.kw)?,
            "foreign key" => once(&mut fk, list(e.val)?, e.kw)?,
            "check" => once(&mut ck, st(e.val)?, e.kw)?,
            "references" => {
                let r = reference(&named(&e)?, schema)?;
                once(&mut refs, (r, list(e.val)?), e.kw)?
            }
            "deferrable" => once(&mut def, bo(e.val)?, e.kw)?,
            "initially deferred" => once(&mut idef, bo(e.val)?, e.kw)?,
            "match" => once(&mut m, st(e.val)?, e.kw)?,
            "on update" => once(&mut u, st(e.val)?, e.kw)?,
            "on delete" => once(&mut d, st(e.val)?, e.kw)?,
            k => return bad(format!("{k} in a constraint")),
        }
    }
    let kinds = pk.is_some() as u8 + uq.is_some() as u8 + fk.is_some() as u8 + ck.is_some() as u8;
    if kinds != 1 {
        return bad("not exactly one kind of constraint");
    }
    let fk_only = refs.is_some() || m.is_some() || u.is_some() || d.is_some();
    if fk.is_none() && fk_only {
        return bad("attributes of foreign keys");
    }
    let kind = if let Some(cols) = pk {
        ConKind::Pk { cols }
    } else if let Some(cols) = uq {
        ConKind::Uq { cols }
    } else if let Some(expr) = ck {
        ConKind::Ck { expr }
    } else {
        let Some(((ts, tt), tc)) = refs else { return bad("references is missing") };
        let cols = fk.unwrap();
        if cols.len() != tc.len() {
            *soft = true;
        }
        let rule = |o: Option<String>, dflt: &str| o.unwrap_or_else(|| dflt.into());
        ConKind::Fk { cols, ts, tt, tc, m: rule(m, "SIMPLE"), u: rule(u, "NO ACTION"), d: rule(d, "NO ACTION") }
    };
    let (deferrable, deferred) = (def.unwrap_or(false), idef.unwrap_or(false));
    if deferred && !deferrable {
        *soft = true;
    }
    Ok(Con { kind, deferrable, deferred })
}

fn read_into(db: &mut Db, j: &J, soft: &mut bool) -> L<()> {
    if matches!(j, J::Null) {
        *soft = true; // an empty file
        return Ok(());
    }
    for e in entries(j, "")? {
        if e.kw != "schema" {
            return bad(format!("{} outside of a schema", e.kw));
        }
        let sn = named(&e)?;
        let s = db.schemas.entry(sn.clone()).or_default();
        for o in entries(e.val, "schema")? {
            let n = named(&o)?;
            match o.kw {
                "table" => {
                    let mut t = Table::default();
                    for x in entries(o.val, "table")? {
                        let xn = named(&x)?;
                        match x.kw {
                            "column" => {
                                if t.col(&xn).is_some() {
                                    return bad(format!("duplicate column {xn:?}"));
                                }
                                let (ty, nn, def) = column(&st(x.val)?, soft)?;
                                t.cols.push(Col { name: xn, ty, nn, def });
                            }
                            "constraint" => {
                                let c = constraint(&sn, x.val, soft)?;
                                put(&mut t.cons, xn, c, "constraint")?
                            }
                            k => return bad(format!("{k} in a table")),
                        }
                    }
                    put(&mut s.rels, n, Rel::Table(t), "relation")?
                }
                "view" => {
                    let mut q = None;
                    for x in entries(o.val, "view")? {
                        unnamed(&x)?;
                        match x.kw {
                            "as" => once(&mut q, st(x.val)?, "as")?,
                            k => return bad(format!("{k} in a view")),
                        }
                    }
                    let Some(q) = q else { return bad("as is missing") };
                    put(&mut s.rels, n, Rel::View(q), "relation")?
                }
                "index" => {
                    let (mut on, mut unique, mut using) = (None, None, None);
                    for x in entries(o.val, "index")? {
                        match x.kw {
                            "on" => {
                                let t = named(&x)?;
                                once(&mut on, (t, list(x.val)?), "on")?
                            }
                            "unique" => {
                                unnamed(&x)?;
                                once(&mut unique, bo(x.val)?, "unique")?
                            }
                            "using" => {
                                unnamed(&x)?;
                                once(&mut using, st(x.val)?, "using")?
                            }
                            k => return bad(format!("{k} in an index")),
                        }
                    }
                    let Some((table, keys)) = on else { return bad("on is missing") };
                    put(&mut s.rels, n, Rel::Index(Index { table, keys, unique: unique.unwrap_or(false), method: using.unwrap_or("btree".into()) }), "relation")?
                }
                "sequence" => {
                    let (mut ty, mut inc, mut min, mut max, mut start, mut cache, mut cycle, mut owned) = (None, None, None, None, None, None, None, None);
                    for x in entries(o.val, "sequence")? {
                        if x.kw != "owned by" {
                            unnamed(&x)?;
                        }
                        match x.kw {
                            "as" => once(&mut ty, st(x.val)?, x.kw)?,
                            "increment" => once(&mut inc, int(x.val)?, x.kw)?,
                            "minvalue" => once(&mut min, int(x.val)?, x.kw)?,
                            "maxvalue" => once(&mut max, int(x.val)?, x.kw)?,
                            "start" => once(&mut start, int(x.val)?, x.kw)?,
                            "cache" => once(&mut cache, int(x.val)?, x.kw)?,
                            "cycle" => once(&mut cycle, bo(x.val)?, x.kw)?,
                            "owned by" => {
                                let t = named(&x)?;
                                once(&mut owned, (t, st(x.val)?), x.kw)?
                            }
                            k => return bad(format!("{k} in a sequence")),
                        }
                    }
                    let ty = ty.unwrap_or("int8".into());
                    if !is_int(&ty) {
                        return bad(format!("{ty:?} is no integer type"));
                    }
                    let canon = match ty.to_lowercase().as_str() {
                        "int2" | "smallint" => "int2",
                        "int4" | "int" | "integer" => "int4",
                        _ => "int8",
                    };
                    let mut q = Seq::new(canon, inc.unwrap_or(1), min, max, start);
                    if q.inc == 0 || q.min >= q.max || q.start < q.min || q.start > q.max {
                        *soft = true;
                    }
                    q.ty = ty;
                    q.cache = cache.unwrap_or(1);
                    if q.cache < 1 {
                        *soft = true;
                    }
                    q.cycle = cycle.unwrap_or(false);
                    q.owned = owned;
                    put(&mut s.rels, n, Rel::Seq(q), "relation")?
                }
                "function" => {
                    let (mut body, mut lang, mut ret, mut vol) = (None, None, None, None);
                    for x in entries(o.val, "function")? {
                        unnamed(&x)?;
                        match x.kw {
                            "as" => once(&mut body, st(x.val)?, x.kw)?,
                            "language" => once(&mut lang, st(x.val)?, x.kw)?,
                            "returns" => once(&mut ret, st(x.val)?, x.kw)?,
                            "volatility" => once(&mut vol, st(x.val)?, x.kw)?,
                            k => return bad(format!("{k} in a function")),
                        }
                    }
                    let Some(body) = body else { return bad("as is missing") };
                    let f = Func { body, lang: lang.unwrap_or("SQL".into()), ret: ret.unwrap_or("void".into()), vol: vol.unwrap_or("VOLATILE".into()) };
                    put(&mut s.fns, n, f, "function")?
                }
                k => return bad(format!("{k} in a schema")),
            }
        }
    }
    Ok(())
}

pub fn want(files: &[J]) -> Want {
    let mut db = Db::default();
    let mut soft = false;
    for f in files {
        if let Err(Bad(e)) = read_into(&mut db, f, &mut soft) {
            return Want::Reject(e);
        }
    }
    if soft {
        Want::Either(db)
    } else {
        Want::Accept(db)
    }
}

pub fn judge(w: &Want, got: &Out<Db>) -> Result<bool, String> {
    match (w, got) {
        (_, Out::Panic(e)) => Err(format!("loading crashes: {e}")),
        (Want::Accept(d), Out::Ok(g)) | (Want::Either(d), Out::Ok(g)) => {
            if g.canon() == d.canon() {
                Ok(true)
            } else {
                Err(format!("loading misreads the definitions: {}", g.diff_text(d)))
            }
        }
        (Want::Accept(_), Out::Err(e)) => Err(format!("valid definitions are refused: {e}")),
        (Want::Either(_), Out::Err(_)) => Ok(false),
        (Want::Reject(e), Out::Ok(g)) => Err(format!("malformed definitions ({e}) are accepted as {}", g.show().replace('\n', ", "))),
        (Want::Reject(_), Out::Err(_)) => Ok(false),
    }
}

/// Documents to start from: all attributes of every kind of object.
fn bases() -> Vec<J> {
    let s = |x: &str| J::s(x);
    let l = |x: &[&str]| J::strs(x);
    let in_schema = |k: &str, o: J| J::obj(vec![("schema public", J::obj(vec![(k, o)]))]);
    let in_table = |k: &str, o: J| J::obj(vec![("schema public", J::obj(vec![("table t", J::obj(vec![("column a", s("int4")), (k, o)]))]))]);
    vec![
        in_table("column b", s("text! = 'x'")),
        in_table("constraint c", J::obj(vec![("primary key", s("a")), ("deferrable", J::B(true)), ("initially deferred", J::B(true))])),
        in_table("constraint c", J::obj(vec![("unique", l(&["a", "b"])), ("deferrable", J::B(true))])),
        in_table("constraint c", J::obj(vec![("check", s("a > 0")), ("deferrable", J::B(false))])),
        in_table(
            "constraint c",
            J::obj(vec![
                ("foreign key", l(&["a", "b"])),
                ("references app.u", l(&["c", "d"])),
                ("match", s("FULL")),
                ("on update", s("CASCADE")),
                ("on delete", s("SET NULL")),
                ("deferrable", J::B(true)),
            ]),
        ),
        in_schema("index i", J::obj(vec![("on t", l(&["a", "lower(b)"])), ("unique", J::B(true)), ("using", s("gin"))])),
        in_schema("index i", J::obj(vec![("on update", s("a"))])),
        in_schema("view v", J::obj(vec![("as", s("SELECT 1"))])),
        in_schema(
            "sequence q",
            J::obj(vec![
                ("as", s("int4")),
                ("increment", J::I(-2)),
                ("minvalue", J::I(-10)),
                ("maxvalue", J::I(50)),
                ("start", J::I(7)),
                ("cache", J::I(3)),
                ("cycle", J::B(true)),
                ("owned by t", s("a")),
            ]),
        ),
        in_schema("function f(a int4)", J::obj(vec![("as", s("SELECT 1")), ("language", s("plpgsql")), ("returns", s("int4")), ("volatility", s("STABLE"))])),
        J::obj(vec![("schema public", J::obj(vec![("table t", J::Null), ("view v", J::obj(vec![("as", s("x"))]))])), ("schema app", J::Null)]),
    ]
}

fn values() -> Vec<J> {
    vec![
        J::Null,
        J::B(true),
        J::B(false),
        J::I(5),
        J::I(-5),
        J::F(1.5),
        J::F(1e300),
        J::s(""),
        J::s("a"),
        J::s("true"),
        J::s("5"),
        J::s("int2"),
        J::s("numeric"),
        J::s("x! = 1\n+ 2"),
        J::s("x !"),
        J::s(" = 3"),
        J::s("x = "),
        J::s("x!y"),
        J::s("word ".repeat(60).trim()),
        J::I(i64::MAX),
        J::I(i64::MIN),
        J::A(vec![]),
        J::A(vec![J::s("z")]),
        J::A(vec![J::s("z"), J::s("y"), J::s("x")]),
        J::A(vec![J::I(1)]),
        J::A(vec![J::Null]),
        J::A(vec![J::A(vec![J::s("z")])]),
        J::A(vec![J::obj(vec![("column a", J::s("b"))])]),
        J::O(vec![]),
        J::obj(vec![("as", J::s("x"))]),
        J::obj(vec![("column z", J::s("int4"))]),
        J::obj(vec![("check", J::s("z"))]),
        J::obj(vec![("nonsense", J::s("z"))]),
    ]
}

fn key_variants(k: &str) -> Vec<String> {
    let kw = KEYS.iter().filter(|w| k.starts_with(**w)).max_by_key(|w| w.len()).map(|w| w.len()).unwrap_or(0);
    let (w, n) = k.split_at(kw);
    let mut v = vec![
        format!("{}{n}", w.to_uppercase()),
        format!("{w}x{n}"),
        format!("x{w}{n}"),
        format!("{w} {n}"),
        format!(" {w}{n}"),
        format!("{w}{n} "),
        format!("{w}\t{n}"),
        w.to_string(),
        format!("{w} z"),
        format!("{w} \"z\""),
        format!("{w} a.b.c"),
        format!("{w} é K"),
        w[..w.len().saturating_sub(1)].to_string(),
        w.replace(' ', "  "),
        w.replace('k', "\u{212a}").replace('s', "\u{17f}") + n,
        String::new(),
        "İ x".into(),
        "日本".into(),
        "~".into(),
        "5".into(),
        format!("{w} {}", "n".repeat(64)),
        format!("{w} {}", "é".repeat(130)),
    ];
    v.extend(KEYS.iter().map(|k| k.to_string()));
    v.extend(KEYS.iter().map(|k| format!("{k} z")));
    v.extend(["type", "not null", "default", "method", "nonsense", "nonsense z"].iter().map(|s| s.to_string()));
    v.retain(|x| x != k);
    v.dedup();
    v
}

/// All paths to entries of mappings.
fn paths(j: &J, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if let J::O(o) = j {
        for (i, (_, v)) in o.iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            paths(v, at, out);
            at.pop();
        }
    }
}

fn parent_mut<'a>(j: &'a mut J, p: &[usize]) -> Option<&'a mut Vec<(String, J)>> {
    let J::O(o) = j else { return None };
    if p.len() == 1 {
        return Some(o);
    }
    parent_mut(&mut o.get_mut(p[0])?.1, &p[1..])
}

/// All documents one edit away.
fn edits(j: &J, small: bool) -> Vec<J> {
    let mut ps = vec![];
    paths(j, &mut vec![], &mut ps);
    let mut out = vec![];
    let vals = values();
    for p in &ps {
        let last = *p.last().unwrap();
        let mut apply = |f: &dyn Fn(&mut Vec<(String, J)>)| {
            let mut d = j.clone();
            if let Some(o) = parent_mut(&mut d, p) {
                f(o);
                out.push(d);
            }
        };
        apply(&|o| {
            o.remove(last);
        });
        apply(&|o| {
            let e = o[last].clone();
            o.push(e);
        });
        apply(&|o| {
            let mut e = o[last].clone();
            e.0 = e.0.to_uppercase();
            o.insert(0, e);
        });
        apply(&|o| {
            let e = o.remove(last);
            o.insert(0, e);
        });
        apply(&|o| {
            let e = o.remove(last);
            o.push(e);
        });
        for (i, v) in vals.iter().enumerate() {
            if !small || i % 3 == 0 {
                apply(&|o| o[last].1 = v.clone());
            }
        }
        // the entries of lists
        let mut old = j.clone();
        let items = match parent_mut(&mut old, p).map(|o| o[last].1.clone()) {
            Some(J::A(a)) => a,
            Some(J::S(s)) => vec![J::S(s)],
            _ => vec![],
        };
        let mut lists: Vec<Vec<J>> = vec![];
        for (i, v) in vals.iter().enumerate() {
            if small && i % 3 != 0 {
                continue;
            }
            for k in 0..items.len() {
                let mut l = items.clone();
                l[k] = v.clone();
                lists.push(l);
            }
            for k in 0..=items.len() {
                if !items.is_empty() {
                    let mut l = items.clone();
                    l.insert(k, v.clone());
                    lists.push(l);
                }
            }
        }
        for k in 0..items.len() {
            let mut l = items.clone();
            l.remove(k);
            lists.push(l);
            let mut l = items.clone();
            l.rotate_left(k);
            lists.push(l);
        }
        for l in lists {
            apply(&|o| o[last].1 = J::A(l.clone()));
        }
        let k = j_key(j, p);
        for (i, kv) in key_variants(&k).into_iter().enumerate() {
            if small && i % 4 != 1 {
                continue;
            }
            apply(&|o| o[last].0 = kv.clone());
            // the variant besides the original
            if !small {
                apply(&|o| {
                    let v = o[last].1.clone();
                    o.push((kv.clone(), v));
                });
                apply(&|o| o.push((kv.clone(), J::s("a"))));
                apply(&|o| o.insert(0, (kv.clone(), J::B(true))));
            }
        }
    }
    out
}

fn j_key(j: &J, p: &[usize]) -> String {
    let J::O(o) = j else { return String::new() };
    if p.len() == 1 {
        return o[p[0]].0.clone();
    }
    j_key(&o[p[0]].1, &p[1..])
}

/// Ways to write the same objects into files: an object is (schema, key, value).
fn distributions(objs: &[(String, String, J)], nfiles: usize) -> Vec<Vec<J>> {
    let mut out = vec![];
    let n = objs.len();
    let total = nfiles.pow(n as u32);
    for code in 0..total {
        let mut c = code;
        let mut files: Vec<Vec<(String, J)>> = vec![vec![]; nfiles];
        for (s, k, v) in objs {
            let f = &mut files[c % nfiles];
            c /= nfiles;
            let sk = format!("schema {s}");
            match f.iter_mut().find(|(x, _)| *x == sk) {
                Some((_, J::O(o))) => o.push((k.clone(), v.clone())),
                _ => f.push((sk, J::O(vec![(k.clone(), v.clone())]))),
            }
        }
        out.push(files.into_iter().filter(|f| !f.is_empty()).map(J::O).collect());
    }
    out
}

pub fn run_c05(ctx: &Ctx, sut: &dyn Sut) {
    // the reference reader agrees with serde_yaml on what JSON means
    let one = |text: &str, doc: &J, size: usize| {
        let w = want(std::slice::from_ref(doc));
        let got = sut.load_str(text);
        ctx.count("transitions", 1);
        ctx.count("traces_validated_against_impl", 1);
        match judge(&w, &got) {
            Ok(a) => ctx.count(if a { "documents accepted" } else { "documents refused" }, 1),
            Err(e) => ctx.fail(None, e, J::obj(vec![("file", J::s(text))]), size),
        }
    };
    let bases = bases();
    let mut docs: Vec<J> = bases.clone();
    for b in &bases {
        docs.extend(edits(b, false));
    }
    ctx.bound("documents one edit away from the base documents", J::I(docs.len() as i64));
    ctx.count("states", docs.len() as u64);
    par(ctx, &docs, |i, d| {
        let text = d.show();
        // the text must mean what the document says
        if let Ok(back) = sut.yaml(&text) {
            if back.show() != text && !text.contains("1e") {
                panic!("the documents are not written as they are meant: {text} {}", back.show());
            }
        }
        one(&text, d, text.len());
        if i % 997 == 0 {
            ctx.sample(J::obj(vec![("file", J::s(text)), ("expected", J::s(match want(&[d.clone()]) {
                Want::Accept(_) => "accepted",
                Want::Reject(_) => "refused",
                Want::Either(_) => "either",
            }))]));
        }
    });
    // two edits
    let firsts: Vec<J> = bases.iter().flat_map(|b| edits(b, !ctx.thorough)).collect();
    ctx.bound("documents whose single edits are all tried (second edits)", J::I(firsts.len() as i64));
    par(ctx, &firsts, |_, d| {
        let mut n = 0;
        for e in edits(d, true) {
            let text = e.show();
            one(&text, &e, text.len() + 1000);
            n += 1;
        }
        ctx.count("states", n);
    });
    // all orders of the attributes
    par(ctx, &bases, |_, b| {
        let mut ps = vec![];
        paths(b, &mut vec![], &mut ps);
        for p in ps {
            let mut d = b.clone();
            let n = parent_mut(&mut d, &p).unwrap().len();
            if *p.last().unwrap() != 0 || n < 2 {
                continue;
            }
            let max = if ctx.thorough { 8 } else { 7 };
            for perm in perms(n.min(max)) {
                let mut d = b.clone();
                let o = parent_mut(&mut d, &p).unwrap();
                let old = o.clone();
                for (i, k) in perm.iter().enumerate() {
                    o[i] = old[*k].clone();
                }
                let text = d.show();
                one(&text, &d, text.len());
                ctx.count("states", 1);
            }
        }
    });
    // YAML beyond JSON
    for text in yaml_texts() {
        ctx.count("states", 1);
        match sut.yaml(text) {
            Ok(doc) => one(text, &doc, text.len()),
            Err(_) => match sut.load_str(text) {
                Out::Err(_) => ctx.count("documents refused", 1),
                x => ctx.fail(None, format!("text that is no YAML: {}", x.show()), J::obj(vec![("file", J::s(text))]), text.len()),
            },
        }
        // what is expected, stated directly
    }
    // objects distributed over files, listed in any order, in subdirectories
    let work = crate::work();
    let t = |x: &str| J::obj(vec![(x, J::s("int4"))]);
    let pool: Vec<(String, String, J)> = vec![
        ("public".into(), "table t".into(), t("column a")),
        ("public".into(), "index i".into(), J::obj(vec![("on t", J::s("a"))])),
        ("public".into(), "view v".into(), J::obj(vec![("as", J::s("SELECT 1"))])),
        ("public".into(), "function f".into(), J::obj(vec![("as", J::s("x"))])),
        ("app".into(), "table t".into(), t("column b")),
        ("app".into(), "sequence s".into(), J::Null),
        ("public".into(), "Table  t".into(), t("column c")),
        ("public".into(), "view i".into(), J::obj(vec![("as", J::s("SELECT 2"))])),
        ("public".into(), "FUNCTION f".into(), J::obj(vec![("as", J::s("y"))])),
        ("app".into(), "table s".into(), J::Null),
        ("app".into(), "nonsense".into(), J::Null),
    ];
    let n = if ctx.thorough { 5 } else { 4 };
    let mut sets: Vec<Vec<usize>> = vec![];
    for mask in 0u32..(1 << pool.len()) {
        if (1..=n).contains(&mask.count_ones()) {
            sets.push((0..pool.len()).filter(|i| mask >> i & 1 == 1).collect());
        }
    }
    ctx.bound("sets of objects distributed over up to 3 files", J::I(sets.len() as i64));
    par(ctx, &sets, |i, set| {
        let dir = work.join(format!("c05-{i}"));
        let objs: Vec<_> = set.iter().map(|k| pool[*k].clone()).collect();
        let mut expect: Option<String> = None;
        for files in distributions(&objs, 3) {
            for (order, sub) in [(0, false), (1, true)] {
                std::fs::remove_dir_all(&dir).ok();
                std::fs::create_dir_all(dir.join("sub.yaml/x")).unwrap();
                std::fs::write(dir.join("readme.txt"), "schema: [").unwrap();
                for (k, f) in files.iter().enumerate() {
                    let k2 = if order == 0 { k } else { files.len() - 1 - k };
                    let p: PathBuf = if sub && k == 1 { dir.join("sub.yaml/x/b.yaml") } else { dir.join(format!("{k2}.yaml")) };
                    std::fs::write(p, f.show()).unwrap();
                }
                let w = want(&files);
                let got = sut.load_defs(&dir);
                ctx.count("transitions", 1);
                ctx.count("states", 1);
                let show = match &got {
                    Out::Ok(d) => d.canon().show(),
                    _ => "refused".into(),
                };
                let e = match judge(&w, &got) {
                    Err(e) => Some(e),
                    Ok(_) if expect.as_ref().map_or(false, |e| *e != show) => Some("the result depends on the distribution over files".into()),
                    Ok(_) => None,
                };
                expect = Some(show);
                if let Some(e) = e {
                    ctx.fail(None, e, J::obj(vec![("files", J::A(files.clone())), ("reverse order", J::B(order == 1))]), files.len() * 100 + objs.len());
                }
            }
        }
        std::fs::remove_dir_all(&dir).ok();
    });
    ctx.assume("the YAML parser (serde_yaml) is trusted to map text to values");
    ctx.assume("definitions that PostgreSQL would refuse for their meaning only (INITIALLY DEFERRED without DEFERRABLE, impossible sequence ranges, differing numbers of foreign key columns) may be refused or accepted as written");
}

fn yaml_texts() -> Vec<&'static str> {
    vec![
        "",
        "# nothing\n",
        "~",
        "[]",
        "5",
        "text",
        "{}",
        "--- {}\n",
        "schema public:\n",
        "schema public: ~\n",
        "schema public: {}\n",
        "schema public:\n  table t:\n    column a: yes\n",
        "schema public:\n  table t:\n    column a: 1\n",
        "schema public:\n  table t:\n    column a: true\n",
        "schema public:\n  table t:\n    column a: |\n      text! =\n        'a'\n        || 'b'\n",
        "schema public:\n  table t:\n    column a: >-\n      text\n      = 'a'\n",
        "schema public:\n  table t:\n    column a: &x text\n    column b: *x\n",
        "schema public:\n  table t: &t\n    column a: text\n  table u: *t\n",
        "schema public:\n  table t: &t\n    column a: text\n  table u:\n    <<: *t\n    column b: text\n",
        "schema public:\n  table t:\n    column a: !!str 5\n",
        "schema public:\n  table t:\n    column a: !foo text\n",
        "schema public:\n  table t: !foo\n    column a: text\n",
        "schema public:\n  view v:\n    as: |\n      SELECT 1\n      FROM t\n",
        "schema public:\n  view v:\n    as: [SELECT, 1]\n",
        "schema public:\n  sequence s:\n    start: 0x10\n",
        "schema public:\n  sequence s:\n    start: 1.0\n",
        "schema public:\n  sequence s:\n    start: 1e3\n",
        "schema public:\n  sequence s:\n    start: '5'\n",
        "schema public:\n  sequence s:\n    maxvalue: 9223372036854775807\n",
        "schema public:\n  sequence s:\n    maxvalue: 9223372036854775808\n",
        "schema public:\n  sequence s:\n    minvalue: -9223372036854775808\n",
        "schema public:\n  sequence s:\n    minvalue: -9223372036854775809\n",
        "schema public:\n  sequence s:\n    start: .inf\n",
        "schema public:\n  sequence s:\n    cycle: on\n",
        "schema public:\n  sequence s:\n    cycle: True\n",
        "schema public:\n  sequence s:\n    cycle: 'true'\n",
        "schema public:\n  sequence s:\n    cycle: 1\n",
        "? schema public\n: table t:\n    column a: int4\n",
        "? [schema public]\n: {}\n",
        "5: {}\n",
        "null: {}\n",
        "true: {}\n",
        "schema public: {}\nschema public: {}\n",
        "schema public: {}\n---\nschema app: {}\n",
        "schema public: {}\n...\n",
        "schema public:\n\ttable t:\n",
        "schema public:\n  table t:\n   column a: int4\n  column b: int4\n",
        "schema public:\n  table t:\n    column a: int4\n    column a: int8\n",
        "schema \"public\":\n  table t:\n",
        "\"schema public\":\n  'table t':\n    \"column \\u0061\": int4\n",
        "schema public:\n  table t:\n    constraint c:\n      deferrable: true\n      check: a > 0\n",
        "schema public:\n  table t:\n    constraint c:\n",
        "schema public:\n  table t:\n    constraint c: []\n",
        "schema public:\n  table t:\n    constraint c: check\n",
        "schema public:\n  table t: [column a]\n",
        "schema public: [table t]\n",
        "schema public:\n- table t:\n",
        "table t:\n  column a: int4\n",
        "public:\n  t:\n    a: int4\n",
        "schema:\n  table t:\n",
        "schema public:\n  table:\n",
        "schema public:\n  index i:\n    unique: true\n",
        "schema public:\n  index i:\n    on: t\n",
        "schema public:\n  index i:\n    on t:\n",
        "schema public:\n  index i:\n    on t: [1]\n",
        "schema public:\n  index i:\n    on delete: a\n    on update: b\n",
        "schema public:\n  index i:\n    on t: a\n    using: {}\n",
        "schema public: {\n",
        "\u{feff}schema public: {}\n",
        "schema public: 'a\n",
        "%YAML 1.2\n---\nschema public: {}\n",
    ]
}
