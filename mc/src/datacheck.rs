//! C19: what both schemas have keeps its data while the recorded SQL is executed on tables with rows, up and down.
use crate::diffcheck::*;
use crate::json::J;
use crate::model::*;
use crate::pg::*;
use crate::report::{par, Ctx};
use crate::sut::*;
use crate::universe::*;
use std::collections::BTreeSet;

/// Rows in all tables, each value telling where it comes from; sequences somewhere in their range.
fn fill(c: &mut Cat) {
    for (sn, s) in &mut c.schemas {
        for (rn, r) in &mut s.rels {
            match r {
                CRel::Table(t) => {
                    let cols: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
                    t.rows = (1..=2).map(|k| cols.iter().map(|n| Some(format!("{sn}.{rn}.{n}.{k}"))).collect()).collect();
                }
                CRel::Seq(q) => q.last = q.s.start + (q.s.max - q.s.start).min(2) + if q.s.start == q.s.max { -(q.s.max - q.s.min).min(2) } else { 0 },
                _ => {}
            }
        }
    }
}

/// What has been lost between two states of a database, of what both schemas have.
fn lost(before: &Cat, after: &Cat, restarted: &BTreeSet<(String, String)>, what: &str) -> Option<String> {
    for (sn, s) in &before.schemas {
        let Some(z) = after.schemas.get(sn) else { continue };
        for (rn, r) in &s.rels {
            match (r, z.rels.get(rn)) {
                (CRel::Table(a), Some(CRel::Table(b))) => {
                    if a.rows.len() != b.rows.len() {
                        return Some(format!("{what} loses rows of table {sn}.{rn}: {} of {} are left", b.rows.len(), a.rows.len()));
                    }
                    for (i, c) in a.cols.iter().enumerate() {
                        let Some(j) = b.cols.iter().position(|x| x.name == c.name) else { continue };
                        for (x, y) in a.rows.iter().zip(&b.rows) {
                            if x[i] != y[j] {
                                return Some(format!("{what} changes the values of column {} of table {sn}.{rn}: {:?} becomes {:?}", c.name, x[i], y[j]));
                            }
                        }
                    }
                }
                (CRel::Seq(a), Some(CRel::Seq(b))) => {
                    if a.last != b.last && !restarted.contains(&(sn.clone(), rn.clone())) {
                        return Some(format!("{what} sets sequence {sn}.{rn} from {} to {}", a.last, b.last));
                    }
                }
                _ => {}
            }
        }
    }
    None
}

/// Sequences that cannot go on where they were: the value they started at is outside of the range they get.
fn restarted(s: &Db, t: &Db) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    for (sn, a) in &s.schemas {
        let Some(b) = t.schemas.get(sn) else { continue };
        for (rn, r) in &a.rels {
            if let (Rel::Seq(x), Some(Rel::Seq(y))) = (r, b.rels.get(rn)) {
                let inside = |q: &Seq, v: i64| q.min <= v && v <= q.max;
                // where it is as well, or PostgreSQL refuses
                if !inside(y, x.start) || !inside(x, y.start) {
                    out.insert((sn.clone(), rn.clone()));
                }
            }
        }
    }
    out
}

/// Whether rows stand in the way of what is asked for: a new column that takes no NULLs has no default.
fn needs_values(s: &Db, t: &Db) -> bool {
    s.schemas.iter().any(|(sn, a)| {
        a.rels.iter().any(|(rn, r)| match (r, t.schemas.get(sn).and_then(|b| b.rels.get(rn))) {
            (Rel::Table(x), Some(Rel::Table(y))) => y.cols.iter().any(|c| c.nn && c.def.is_none() && x.col(&c.name).is_none()),
            _ => false,
        })
    })
}

/// None if the data are kept, or if the database refuses for a reason that is not podo's or C03's business.
pub fn judge_data(cs: &Cat, s: &Db, t: &Db, up: &[String], down: &[String], n: &mut u64) -> Option<String> {
    let mut c = cs.clone();
    fill(&mut c);
    let re = restarted(s, t);
    for (what, stmts, from, to) in [("the migration", up, s, t), ("reverting the migration", down, t, s)] {
        let before = c.clone();
        for x in stmts {
            *n += 1;
            if let Err(e) = c.exec(x) {
                let told = match e.code {
                    "23502" => !needs_values(from, to),
                    "42601" => true,
                    _ => false,
                };
                return told.then(|| format!("{what} fails on tables with rows: `{x}`: {} {}", e.code, e.msg));
            }
        }
        if let Some(bad) = lost(&before, &c, &re, what) {
            return Some(bad);
        }
    }
    None
}

pub fn run(ctx: &Ctx, sut: &dyn Sut) {
    let controlled = check_order_hook(sut);
    ctx.count("enumeration_orders_controlled", controlled as u64);
    for sl in slices() {
        let states = sl.states(&wf_strict);
        let cats: Vec<Cat> = states.iter().map(|st| build(&st.db).unwrap_or_else(|e| panic!("the model cannot hold {}: {e:?}", st.db.show()))).collect();
        ctx.count("states", states.len() as u64);
        ctx.bound(sl.name, J::s(format!("{} schemas, pairs within {} slots", states.len(), if ctx.thorough { sl.dist.1 } else { sl.dist.0 })));
        let idx: Vec<usize> = (0..states.len()).collect();
        par(ctx, &idx, |_, &i| {
            let s = &states[i];
            let (mut pairs, mut runs, mut steps, mut seqs) = (0u64, 0u64, 0u64, 0u64);
            for (j, t) in states.iter().enumerate() {
                if !sl.near(s, t, ctx.thorough) || ctx.too_many() {
                    continue;
                }
                let _ = j;
                pairs += 1;
                let mut seen = BTreeSet::new();
                for o in order_pairs(&s.db, &t.db, controlled, ctx.thorough) {
                    runs += 1;
                    // what podo refuses or cannot revert is C01's and C02's business
                    let Out::Ok(r) = sut.run(&s.db, &o.0, &t.db, &o.1) else { continue };
                    if !seen.insert(crate::sqlcheck::sql_key(&r)) {
                        continue;
                    }
                    seqs += 1;
                    let up: Vec<String> = r.steps.iter().map(|x| x.up.clone()).collect();
                    let down: Vec<String> = r.steps.iter().rev().filter_map(|x| x.down.clone().ok()).collect();
                    if let Some(b) = judge_data(&cats[i], &s.db, &t.db, &up, &down, &mut steps) {
                        ctx.fail(None, b, replay(sl.name, &s.db, &t.db, &o, Some(&r)), s.db.size() + t.db.size());
                    } else if r.steps.len() > 3 && i % 7 == 0 {
                        ctx.sample(replay(sl.name, &s.db, &t.db, &o, Some(&r)));
                    }
                }
            }
            ctx.count("pairs", pairs);
            ctx.count("traces_validated_against_impl", runs);
            ctx.count("schedules", seqs);
            ctx.count("transitions", steps);
        });
    }
    ctx.bound("rows", J::s("two rows in every table, every value distinct; every sequence two after its start, or at the end of its range"));
    ctx.assume("whether the rows satisfy new constraints is not judged: keys, checks and foreign keys are added as if they did");
    crate::recorded::run_recorded(ctx, sut);
}
