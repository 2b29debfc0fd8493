//! C03 and C16: the recorded SQL, executed statement by statement on the catalogue model, up and down.
use crate::diffcheck::*;
use crate::json::J;
use crate::model::*;
use crate::pg::*;
use crate::report::{par, Ctx};
use crate::sut::*;
use crate::universe::*;
use std::collections::BTreeSet;

/// Up from `s` to `t` and down again; what is wrong, if anything. Counts statements.
pub fn judge_sql(cs: &Cat, ns: &Db, nt: &Db, run: &Run, n: &mut u64) -> Option<String> {
    let mut c = cs.clone();
    for st in &run.steps {
        *n += 1;
        if let Err(e) = c.exec(&st.up) {
            return Some(format!("PostgreSQL refuses `{}`: {} {}", st.up, e.code, e.msg));
        }
    }
    let got = c.to_db();
    if got != *nt {
        return Some(format!("the statements do not lead to the definitions: {}", got.diff_text(nt)));
    }
    for st in run.steps.iter().rev() {
        let Ok(d) = &st.down else { return Some(format!("no SQL that reverts {}", st.text)) };
        *n += 1;
        if let Err(e) = c.exec(d) {
            return Some(format!("PostgreSQL refuses `{}` (reverting): {} {}", d, e.code, e.msg));
        }
    }
    let got = c.to_db();
    if got != *ns {
        return Some(format!("reverting does not restore the schema: {}", got.diff_text(ns)));
    }
    None
}

pub fn sql_key(r: &Run) -> Vec<String> {
    r.steps
        .iter()
        .flat_map(|s| {
            [s.up.clone(), match &s.down {
                Ok(d) => d.clone(),
                Err(e) => format!("!{e}"),
            }]
        })
        .collect()
}

pub fn run(ctx: &Ctx, sut: &dyn Sut) {
    let controlled = check_order_hook(sut);
    ctx.count("enumeration_orders_controlled", controlled as u64);
    for sl in slices() {
        let states = sl.states(&wf_strict);
        let mut cats = vec![];
        for st in &states {
            match build(&st.db).and_then(|c| Ok((c, norm(&st.db)?))) {
                Ok((c, n)) => {
                    if c.to_db() != n {
                        panic!("the model does not hold {}: {}", st.db.show(), c.to_db().diff_text(&n));
                    }
                    cats.push((c, n))
                }
                Err(e) => panic!("the model cannot hold {}: {e:?}", st.db.show()),
            }
        }
        ctx.count("states", states.len() as u64);
        ctx.bound(sl.name, J::s(format!("{} schemas, pairs within {} slots", states.len(), if ctx.thorough { sl.dist.1 } else { sl.dist.0 })));
        let idx: Vec<usize> = (0..states.len()).collect();
        par(ctx, &idx, |_, &i| {
            let s = &states[i];
            let (mut pairs, mut runs, mut steps, mut seqs) = (0u64, 0u64, 0u64, 0u64);
            for (j, t) in states.iter().enumerate() {
                if !sl.near(s, t, ctx.thorough) || ctx.too_many() {
                    continue;
                }
                pairs += 1;
                let mut seen = BTreeSet::new();
                for o in order_pairs(&s.db, &t.db, controlled, ctx.thorough) {
                    runs += 1;
                    let size = s.db.size() + t.db.size();
                    match sut.run(&s.db, &o.0, &t.db, &o.1) {
                        Out::Ok(r) => {
                            if !seen.insert(sql_key(&r)) {
                                continue;
                            }
                            seqs += 1;
                            if let Some(b) = judge_sql(&cats[i].0, &cats[i].1, &cats[j].1, &r, &mut steps) {
                                ctx.fail(known(&s.db, &t.db, &b), b, replay(sl.name, &s.db, &t.db, &o, Some(&r)), size);
                            } else if r.steps.len() > 3 && i % 7 == 0 {
                                ctx.sample(replay(sl.name, &s.db, &t.db, &o, Some(&r)));
                            }
                        }
                        Out::Err(_) | Out::Panic(_) => {} // C01's business
                    }
                }
            }
            ctx.count("pairs", pairs);
            ctx.count("traces_validated_against_impl", runs);
            ctx.count("schedules", seqs);
            ctx.count("transitions", steps);
        });
    }
    crate::recorded::run_recorded(ctx, sut);
}

/// The recorded finding a pair belongs to.
pub fn known(s: &Db, t: &Db, what: &str) -> Option<&'static str> {
    if !what.contains("ALTER CONSTRAINT") || !what.contains(": 42809 ") {
        return None;
    }
    for (sn, a) in &s.schemas {
        let Some(b) = t.schemas.get(sn) else { continue };
        for (rn, r) in &a.rels {
            let (Rel::Table(x), Some(Rel::Table(y))) = (r, b.rels.get(rn)) else { continue };
            // a unique constraint of which only the deferrability changes
            for (cn, c) in &x.cons {
                if let Some(d) = y.cons.get(cn) {
                    if matches!(c.kind, ConKind::Uq { .. }) && c.kind == d.kind && c != d {
                        return Some("alter-unique");
                    }
                }
            }
        }
    }
    None
}
