//! C01 and C02: every ordered pair of a universe's schemas, in every enumeration order.
use crate::json::J;
use crate::model::*;
use crate::report::{par, Ctx};
use crate::sut::*;
use crate::universe::*;

pub fn check_order_hook(sut: &dyn Sut) -> bool {
    let n: Vec<String> = ["a", "b", "c", "d"].iter().map(|s| s.to_string()).collect();
    for p in perms(4) {
        let o: Vec<String> = p.iter().map(|i| n[*i].clone()).collect();
        sut.set_order(&o);
        if sut.schema_order(&n) != o {
            return false;
        }
    }
    true
}

/// The pairs of orders of the names that key maps in `s` and `t`.
pub fn order_pairs(s: &Db, t: &Db, controlled: bool, thorough: bool) -> Vec<(Vec<String>, Vec<String>)> {
    let mut all = s.map_names();
    all.extend(t.map_names());
    // names that are alone in their maps in both need no order
    let all: Vec<String> = all.into_iter().filter(|n| !alone(s, n) || !alone(t, n)).collect();
    if !controlled {
        return vec![(vec![], vec![]); 2];
    }
    let ps: Vec<Vec<String>> = if all.len() <= 4 || (thorough && all.len() <= 5) {
        perms(all.len()).into_iter().map(|p| p.iter().map(|i| all[*i].clone()).collect()).collect()
    } else {
        // rotations and their reverses: every name first, every name last, both relative orders of every pair
        let n = all.len();
        let mut v = Vec::new();
        // of very many names some
        let some = if n <= 16 { 1 } else { n / 3 };
        for r in (0..n).step_by(some) {
            let a: Vec<String> = (0..n).map(|i| all[(i + r) % n].clone()).collect();
            let mut b = a.clone();
            b.reverse();
            v.push(a);
            v.push(b);
        }
        v
    };
    let full = ps.len() <= 6 || thorough;
    let mut out = Vec::new();
    for (i, a) in ps.iter().enumerate() {
        if full {
            for b in &ps {
                out.push((a.clone(), b.clone()));
            }
        } else {
            let mut rev = a.clone();
            rev.reverse();
            out.push((a.clone(), a.clone()));
            out.push((a.clone(), rev));
            let _ = i;
        }
    }
    out
}

fn alone(d: &Db, n: &str) -> bool {
    let in_map = |keys: Vec<&String>| keys.len() > 1 && keys.iter().any(|k| *k == n);
    if in_map(d.schemas.keys().collect()) {
        return false;
    }
    for s in d.schemas.values() {
        if in_map(s.rels.keys().collect()) || in_map(s.fns.keys().collect()) {
            return false;
        }
        for r in s.rels.values() {
            if let Rel::Table(t) = r {
                if in_map(t.cons.keys().collect()) {
                    return false;
                }
            }
        }
    }
    true
}

pub fn replay(slice: &str, s: &Db, t: &Db, o: &(Vec<String>, Vec<String>), run: Option<&Run>) -> J {
    let mut v = vec![
        ("universe", J::s(slice)),
        ("recorded", J::A(s.facts().into_iter().map(J::S).collect())),
        ("defined", J::A(t.facts().into_iter().map(J::S).collect())),
        ("order of names", J::A(vec![J::strs(&o.0), J::strs(&o.1)])),
    ];
    if let Some(r) = run {
        v.push((
            "changes",
            J::A(r.steps
                .iter()
                .map(|s| {
                    J::obj(vec![
                        ("change", J::s(s.text.as_str())),
                        ("up", J::s(s.up.as_str())),
                        ("down", J::s(match &s.down {
                            Ok(d) => d.clone(),
                            Err(e) => format!("none: {e}"),
                        })),
                    ])
                })
                .collect()),
        ));
    }
    J::obj(v)
}

/// What C01 says about one run.
pub fn judge_forward(t: &Db, run: &Run, same: bool) -> Option<String> {
    if same && !run.steps.is_empty() {
        return Some(format!("nothing differs but {} is staged", run.steps[0].text));
    }
    if let Some((i, e)) = &run.apply_err {
        return Some(format!("change {} ({}) cannot be applied: {e}", i + 1, run.steps[*i].text));
    }
    let after = run.after.as_ref().unwrap();
    if after.canon() != t.canon() {
        return Some(format!("the changes do not lead to the definitions: {}", after.diff_text(t)));
    }
    if !run.left.is_empty() {
        return Some(format!("something is left to stage: {}", run.left[0]));
    }
    None
}

/// What C02 says about one run.
pub fn judge_back(s: &Db, run: &Run) -> Option<String> {
    for st in &run.steps {
        if let Err(e) = &st.down {
            return Some(format!("no reversal of {}: {e}", st.text));
        }
    }
    if let Some((i, e)) = &run.back_err {
        return Some(format!("the reversal of change {} ({}) fails: {e}", i + 1, run.steps[*i].text));
    }
    if let Some(b) = &run.back {
        if b.canon() != s.canon() {
            return Some(format!("reverting does not restore the schema: {}", b.diff_text(s)));
        }
    }
    None
}

pub fn run(ctx: &Ctx, sut: &dyn Sut) {
    let controlled = check_order_hook(sut);
    ctx.count("enumeration_orders_controlled", controlled as u64);
    let fwd = ctx.id == "C01";
    for sl in slices() {
        let states = sl.states(&wf_loose);
        ctx.count("states", states.len() as u64);
        ctx.bound(sl.name, J::s(format!("{} schemas, pairs within {} slots", states.len(), if ctx.thorough { sl.dist.1 } else { sl.dist.0 })));
        let idx: Vec<usize> = (0..states.len()).collect();
        par(ctx, &idx, |_, &i| {
            let s = &states[i];
            let (mut pairs, mut runs, mut steps) = (0u64, 0u64, 0u64);
            for t in &states {
                if !sl.near(s, t, ctx.thorough) || ctx.too_many() {
                    continue;
                }
                pairs += 1;
                for o in order_pairs(&s.db, &t.db, controlled, ctx.thorough) {
                    runs += 1;
                    let out = sut.run(&s.db, &o.0, &t.db, &o.1);
                    let size = s.db.size() + t.db.size();
                    match out {
                        Out::Ok(r) => {
                            steps += r.steps.len() as u64;
                            let bad = if fwd {
                                judge_forward(&t.db, &r, s.db.canon() == t.db.canon())
                            } else if r.apply_err.is_some() {
                                None // C01's business
                            } else {
                                judge_back(&s.db, &r)
                            };
                            if let Some(b) = bad {
                                ctx.fail(None, b, replay(sl.name, &s.db, &t.db, &o, Some(&r)), size);
                            } else if r.steps.len() > 3 && i % 7 == 0 {
                                ctx.sample(replay(sl.name, &s.db, &t.db, &o, Some(&r)));
                            }
                        }
                        other => ctx.fail(None, format!("staging fails: {}", other.show()), replay(sl.name, &s.db, &t.db, &o, None), size),
                    }
                }
            }
            ctx.count("pairs", pairs);
            ctx.count(&format!("runs in {}", sl.name), runs);
            ctx.count("traces_validated_against_impl", runs);
            ctx.count("transitions", steps);
        });
    }
    crate::recorded::run_recorded(ctx, sut);
}
