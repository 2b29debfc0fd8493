//! C01, C02 and C03 on what the real program records: `podo stage` and `podo make` on every schema of the universes.
use crate::cli::*;
use crate::diffcheck;
use crate::fix::*;
use crate::json::J;
use crate::model::*;
use crate::pg;
use crate::report::{par, Ctx};
use crate::sqlcheck;
use crate::sut::{Out, Sut};
use crate::universe::*;
use std::collections::BTreeMap;

const DEFS: &str = "database/definitions/public.yaml";
const STAGE: &str = "database/history/stage.yaml";

struct Seen {
    text: String,
    up: Vec<String>,
    down: Vec<String>,
}

/// Everything a version that leads from `s` to `t` must do; None if it does.
fn judge(ctx: &Ctx, sut: &dyn Sut, w: &World, s: &Db, t: &Db, up: &[String], down: &[String], n: &mut u64) -> Option<String> {
    if ctx.id == "C01" {
        return match sut.hist_snapshot(&w.path("database/history"), "stage") {
            Out::Ok(d) if d.canon() == t.canon() => None,
            Out::Ok(d) => Some(format!("the recorded changes do not lead to the definitions: {}", d.diff_text(t))),
            o => Some(format!("the recorded changes cannot be replayed: {}", o.show())),
        };
    }
    if ctx.id == "C19" {
        return pg::build(s).ok().and_then(|c| crate::datacheck::judge_data(&c, s, t, up, down, n));
    }
    let (Ok(mut c), Ok(ns), Ok(nt)) = (pg::build(s), pg::norm(s), pg::norm(t)) else { return None };
    let c03 = ctx.id == "C03";
    for x in up {
        *n += 1;
        if let Err(e) = c.exec(x) {
            return c03.then(|| format!("PostgreSQL refuses `{x}`: {} {}", e.code, e.msg));
        }
    }
    let got = c.to_db();
    if got != nt {
        return c03.then(|| format!("the recorded statements do not lead to the definitions: {}", got.diff_text(&nt)));
    }
    for x in down {
        *n += 1;
        if let Err(e) = c.exec(x) {
            return Some(format!("PostgreSQL refuses `{x}` (reverting as recorded): {} {}", e.code, e.msg));
        }
    }
    let got = c.to_db();
    (got != ns).then(|| format!("reverting as recorded does not restore the schema: {}", got.diff_text(&ns)))
}

fn lists(sut: &dyn Sut, w: &World) -> Result<Seen, String> {
    let text = std::fs::read_to_string(w.path(STAGE)).map_err(|e| format!("the stage cannot be read: {e}"))?;
    let r = rec_file(sut, text.as_bytes()).map_err(|e| format!("the stage cannot be read: {e}"))?;
    Ok(Seen { text, up: r.up, down: r.down })
}

/// One sequence: stage `a`, stage `b` on top, make, stage `a` again.
fn walk(ctx: &Ctx, sut: &dyn Sut, w: &World, start: &Tree, slice: &str, a: &Db, b: &Db, names: &[String], counts: &mut BTreeMap<&'static str, u64>) {
    restore(&w.project(), start);
    let init = Db::init();
    let mut path: Vec<String> = vec!["podo init".into()];
    let mut n = 0;
    for (k, (from, to, made)) in [(&init, a, false), (&init, b, false), (b, a, true)].into_iter().enumerate() {
        if made {
            let mut r = run(&["make", "--version", "x"]);
            r.clock = Some(d2024(k as i64));
            let before = std::fs::read_to_string(w.path(STAGE)).unwrap_or_default();
            let d = w.run(&r);
            path.push("podo make".into());
            // an empty stage cannot be made; the rest is C08's business
            if !d.ok() || before.contains("changes: []") {
                break;
            }
        }
        put(&w.project(), DEFS, &doc_text(to));
        let mut r = run(&["stage"]);
        r.names = names.to_vec();
        let d = w.run(&r);
        path.push(format!("define {}; podo stage", to.facts().into_iter().collect::<Vec<_>>().join(", ")));
        *counts.entry("commands").or_default() += 1;
        let case = |what: &str, up: &[String], down: &[String]| {
            J::obj(vec![
                ("universe", J::s(slice)),
                ("steps", J::strs(&path)),
                ("order of names", J::strs(names)),
                ("result", J::s(what)),
                ("up", J::strs(up)),
                ("down", J::strs(down)),
            ])
        };
        let size = 3 + from.size() + to.size();
        if !d.ok() {
            if ctx.id == "C01" {
                ctx.fail(None, format!("podo stage fails: {}", d.show()), case(&d.show(), &[], &[]), size);
            }
            return;
        }
        let got = match lists(sut, w) {
            Ok(x) => x,
            Err(e) => {
                if ctx.id == "C01" {
                    ctx.fail(None, e.clone(), case(&e, &[], &[]), size);
                }
                return;
            }
        };
        *counts.entry("stages").or_default() += 1;
        if let Some(bad) = judge(ctx, sut, w, from, to, &got.up, &got.down, &mut n) {
            let kf = [(from, to), (a, b), (&init, a)].into_iter().find_map(|(s, t)| sqlcheck::known(s, t, &bad));
            ctx.fail(kf, bad.clone(), case(&bad, &got.up, &got.down), size);
            return;
        }
        if ctx.id == "C01" {
            let d = w.run(&r);
            *counts.entry("commands").or_default() += 1;
            match lists(sut, w) {
                Ok(x) if d.ok() && x.text == got.text => {}
                Ok(x) => {
                    ctx.fail(None, format!("staging again is not without effect: {}", d.show()), case(&d.show(), &x.up, &x.down), size);
                    return;
                }
                Err(e) => {
                    ctx.fail(None, format!("staging again breaks the stage: {e}"), case(&e, &[], &[]), size);
                    return;
                }
            }
        }
    }
    *counts.entry("statements").or_default() += n;
}

pub fn run_recorded(ctx: &Ctx, sut: &dyn Sut) {
    let pool = Pool::new(ctx, false);
    let start = pool.with(|w| {
        restore(&w.project(), &Tree::new());
        let d = w.run(&run(&["init"]));
        d.ok().then(|| tree(&w.project())).ok_or(d.show())
    });
    let start = match start {
        Ok(t) => t,
        Err(e) => {
            ctx.note(format!("podo init fails ({e}): nothing recorded by the commands could be judged"));
            return;
        }
    };
    let controlled = diffcheck::check_order_hook(sut);
    for sl in slices() {
        let states = sl.states(&wf_strict);
        let n = states.len();
        // a state and its partner: with strides every state occurs as the first and as the second one
        let strides: Vec<usize> = if ctx.thorough { vec![1, 2, n / 3 + 1, n / 2, n - 1] } else { vec![n / 2] };
        let mut jobs = vec![];
        for i in 0..n {
            for s in &strides {
                jobs.push((i, (i + s) % n));
            }
        }
        par(ctx, &jobs, |_, &(i, j)| {
            if ctx.too_many() {
                return;
            }
            let (a, b) = (&states[i].db, &states[j].db);
            let orders = if controlled { diffcheck::order_pairs(a, b, true, false) } else { vec![] };
            let names = if orders.is_empty() { vec![] } else { orders[(i * 7 + j) % orders.len()].0.clone() };
            let mut counts = BTreeMap::new();
            pool.with(|w| walk(ctx, sut, w, &start, sl.name, a, b, &names, &mut counts));
            for (k, v) in counts {
                ctx.count(&format!("recorded_{k}"), v);
                if k == "stages" {
                    ctx.count("traces_validated_against_impl", v);
                }
            }
        });
    }
    ctx.bound("recorded by the commands", J::s("every schema of every universe: staged from nothing, another schema staged on top, made, and staged back; judged by the stage file"));
}
