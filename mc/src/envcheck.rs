//! C14: every text over the characters that matter, against a reference expansion; and the fields of the configuration.
use crate::cli::*;
use crate::engine::Pg;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg::Cat;
use crate::report::{par, Ctx};
use crate::sut::*;
use std::collections::BTreeMap;

type Env = BTreeMap<String, String>;

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// $NAME and ${NAME}; the longest name; everything else stays.
fn reference(s: &str, env: &Env) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '$' {
            let brace = c.get(i + 1) == Some(&'{');
            let from = i + 1 + brace as usize;
            let mut to = from;
            while to < c.len() && word(c[to]) {
                to += 1;
            }
            if to > from && (!brace || c.get(to) == Some(&'}')) {
                let name: String = c[from..to].iter().collect();
                o += env.get(&name).map(|x| x.as_str()).unwrap_or("");
                i = to + brace as usize;
                continue;
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}

fn env(v: &[(&str, &str)]) -> Env {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// All texts of exactly `n` of these characters, split by their first two.
fn heads(abc: &[char], n: usize) -> Vec<(String, usize)> {
    if n < 2 {
        let mut v: Vec<(String, usize)> = vec![];
        if n == 0 {
            v.push((String::new(), 0));
        } else {
            v.extend(abc.iter().map(|c| (c.to_string(), 0)));
        }
        return v;
    }
    abc.iter().flat_map(|a| abc.iter().map(move |b| (format!("{a}{b}"), n - 2))).collect()
}
fn each(head: &str, abc: &[char], n: usize, f: &mut dyn FnMut(&str)) {
    if n == 0 {
        return f(head);
    }
    let mut s = head.to_string();
    for c in abc {
        s.push(*c);
        each(&s, abc, n - 1, f);
        s.pop();
    }
}

pub fn run_c14(ctx: &Ctx, sut: &dyn Sut) {
    let all = ['$', '{', '}', 'A', 'b', '_', '1', 'é', '-', ' ', '\n'];
    let few = ['$', '{', '}', 'A', '1', '-'];
    let names = ["A", "b", "Ab", "AA", "_", "A_", "1", "A1", "é", "Aé", "bA", "11"];
    let envs = [
        env(&[("A", "x"), ("b", "$A"), ("Ab", ""), ("AA", "${A}"), ("_", "u"), ("1", "n"), ("A1", "$1"), ("é", "{"), ("A_", "}"), ("11", " two\nlines ")]),
        env(&[]),
        env(&[("A", "$"), ("b", "${"), ("_", "A}"), ("1", "$0"), ("A1", "\\$A"), ("é", "é$$A")]),
    ];
    for (k, e) in envs.iter().enumerate() {
        for n in names {
            match e.get(n) {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
        let mut jobs: Vec<(String, usize, &[char])> = vec![];
        let depth = if ctx.thorough { 5 } else { 4 };
        for n in 0..=depth {
            jobs.extend(heads(&all, n).into_iter().map(|(h, n)| (h, n, &all[..])));
        }
        let deep = if ctx.thorough { 8 } else { 6 };
        if k == 0 {
            for n in depth + 1..=deep {
                jobs.extend(heads(&few, n).into_iter().map(|(h, n)| (h, n, &few[..])));
            }
        }
        par(ctx, &jobs, |_, (h, n, abc)| {
            let mut cnt = 0u64;
            let mut refs = 0u64;
            each(h, abc, *n, &mut |s| {
                cnt += 1;
                let want = reference(s, e);
                refs += (want != s) as u64;
                let got = sut.expand(s);
                if !matches!(&got, Out::Ok(g) if *g == want) {
                    let g = match &got {
                        Out::Ok(g) => format!("{g:?}"),
                        o => o.show(),
                    };
                    let vars = J::O(e.iter().map(|(a, b)| (a.clone(), J::s(b.as_str()))).collect());
                    ctx.fail(None, format!("{s:?} is expanded to {g} instead of {want:?}"), J::obj(vec![("text", J::s(s)), ("environment", vars)]), s.chars().count() * 10 + k);
                }
            });
            ctx.count("states", cnt);
            ctx.count("transitions", cnt);
            ctx.count("texts_with_references", refs);
        });
    }
    for n in names {
        std::env::remove_var(n);
    }
    // the fields of the configuration
    let e = env(&[("A", "x"), ("b", "$A"), ("AA", "u/v"), ("A1", ""), ("ABS", "")]);
    let pool = Pool::new(ctx, true);
    let mut texts: Vec<String> = vec![];
    let chars = ['$', '{', '}', 'A', 'b', '-'];
    for n in 0..=if ctx.thorough { 5 } else { 3 } {
        for (h, n) in heads(&chars, n) {
            each(&h, &chars, n, &mut |s| texts.push(s.to_string()));
        }
    }
    texts.extend(["$A1", "${AA}", "$AA/w", "${A}/$A1/y", "é${A}é", "a b$A", "$A1$A1", "./$A", "../p/$A", "'$A'", "\"$A\"", "%$A", "#$A", ": $A", "x ", " x", "$A ", "${A} /$A ", "x\t", "~", "~/$A", "%41", "a//b", "a/./b", "*", "$A*", "?", "[A]", "a\\$A", "\\$A", "$$", "$$A", "x:y", "x;y", "&$A", "UPPER/Case", "a.b.", "..."].map(|s| s.to_string()));
    let init = |s: &dyn Sut, dir: &std::path::Path| -> (Vec<u8>, Vec<u8>) {
        let f = |n: &str, p: Option<&str>, from: &Db, to: &Db| {
            s.version_file(dir, n, p, from, to);
            std::fs::read(dir.join(format!("{n}.yaml"))).unwrap_or_default()
        };
        (f("init", None, &Db::default(), &Db::init()), f("stage", Some("init"), &Db::init(), &Db::init()))
    };
    let dir = base_dir().join("mk");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let (i, s) = init(sut, &dir);
    let table = |n: &str| doc_text(&Db::init().table("public", n, Table::new(vec![Col::new("k", "int4")])));
    // field, text
    let jobs: Vec<(usize, &String)> = texts.iter().flat_map(|t| (0..3).map(move |f| (f, t))).collect();
    par(ctx, &jobs, |_, (f, t)| {
        pool.with(|w| {
            let want = reference(t, &e);
            let root = w.root.display().to_string();
            let (mut hist, mut defs, mut db) = ("h".to_string(), "d".to_string(), format!("host={root}/db user=u dbname=d"));
            let mut tr = Tree::new();
            let (mut hd, mut dd) = ("h".to_string(), "d".to_string());
            let place = |base: &str| {
                // below the project, whatever the text says
                let mut parts: Vec<&str> = vec![];
                let whole = format!("{base}{want}");
                for p in whole.split('/') {
                    match p {
                        "" | "." => {}
                        ".." => {
                            parts.pop();
                        }
                        x => parts.push(x),
                    }
                }
                parts.join("/")
            };
            let link = w.root.join(format!("s{}", want.replace('/', "!")));
            match f {
                0 => {
                    hist = format!("h/{t}");
                    hd = place("h/");
                }
                1 => {
                    defs = format!("d/{t}");
                    dd = place("d/");
                }
                _ => {
                    if want.contains(['/', ' ', '\t', '\'', '\\', '"']) || want.is_empty() {
                        return;
                    }
                    let _ = std::os::unix::fs::symlink(w.root.join("db"), &link);
                    db = format!("host={root}/s{t} user=u dbname=d");
                }
            }
            let put = |tr: &mut Tree, p: String, b: Vec<u8>| {
                let mut at = String::new();
                let parts: Vec<&str> = p.split('/').collect();
                for x in &parts[..parts.len() - 1] {
                    at += x;
                    at.push('/');
                    tr.insert(at.clone(), vec![]);
                }
                tr.insert(p, b);
            };
            if *f < 2 && want.contains("..") {
                // through an existing directory
                tr.insert(if *f == 0 { "h/" } else { "d/" }.into(), vec![]);
            }
            put(&mut tr, format!("{hd}/init.yaml"), i.clone());
            put(&mut tr, format!("{hd}/stage.yaml"), s.clone());
            put(&mut tr, format!("{dd}/public.yaml"), table("marker").into_bytes());
            tr.insert(".podo.yaml".into(), config(&[("database", &db, &hist, &defs, META)]).into_bytes());
            restore(&w.project(), &tr);
            w.srv().reset(Pg::new(Cat::new()));
            let mut r = run(&["up"]);
            r.env = e.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            let d1 = w.run(&r);
            let log = w.srv().log().len();
            r.args = vec!["stage".into()];
            let d2 = w.run(&r);
            let now = tree(&w.project());
            let _ = std::fs::remove_file(&link);
            ctx.count("executions", 2);
            let field = ["history", "definitions", "database_url"][*f];
            let bad = |e: String| {
                ctx.fail(
                    None,
                    format!("{field} with {t:?}, which is {want:?} expanded: {e}"),
                    J::obj(vec![("field", J::s(field)), ("text", J::s(t.as_str())), ("expanded", J::s(want.as_str())), ("files", J::S(show_tree(&tr))), ("up", J::s(d1.show())), ("stage", J::s(d2.show()))]),
                    200 + t.len(),
                )
            };
            if !d1.ok() || log == 0 {
                return bad(format!("podo up does not find it: {}", d1.show()));
            }
            if !d2.ok() {
                return bad(format!("podo stage does not find it: {}", d2.show()));
            }
            let diff = tree_diff(&tr, &now);
            if diff != [format!("{hd}/stage.yaml changed")] || !d2.out.contains("marker") {
                bad(format!("podo stage uses other files: {}; {}", diff.join(", "), d2.show()));
            }
        });
    });
    ctx.sample(J::obj(vec![("text", J::s("${A$A}-$b")), ("expanded", J::s(reference("${A$A}-$b", &e)))]));
    for t in texts.iter().filter(|t| t.contains('$')).step_by(97).take(8) {
        ctx.sample(J::obj(vec![("text", J::s(t.as_str())), ("expanded", J::s(reference(t, &e)))]));
    }
    let v = ctx.get("states") + ctx.get("executions");
    ctx.count("traces_validated_against_impl", v);
    ctx.bound("texts", J::s(if ctx.thorough { "all of up to 5 characters over {$ { } A b _ 1 é - blank newline}, up to 8 over {$ { } A 1 -}" } else { "all of up to 4 characters over {$ { } A b _ 1 é - blank newline}, up to 6 over {$ { } A 1 -}" }));
    ctx.bound("environments", J::s("three: values that look like references, groups and braces; nothing set; values of single signs"));
    ctx.bound("fields", J::s("history, definitions and database_url with every text of up to 3 (thorough: 5) characters over {$ { } A b -} and some others, through the program"));
}
