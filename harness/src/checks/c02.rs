//! C02: every operation returns, within a budget of work and output size that
//! depends on the number of input pieces and of places where they come close.
use super::*;
use crate::{budget, common::*, driver::*, gen, oracle, run};
use linesweeper::{BinaryOp, FillRule};

pub fn workload(seed: u64, i: u64) -> gen::Case {
    let k = gen::known();
    let i = match k.get(i as usize) {
        Some(c) => return c.clone(),
        None => i - k.len() as u64,
    };
    let n = gen::regressions().len() as u64;
    if i < n {
        return gen::workload(seed, i);
    }
    let i = i - n;
    let c = if i % 2 == 0 { gen::case(seed, i / 2) } else { gen::ext_case(seed, i / 2) };
    if gen::has_subeps_slopes(&c) {
        // Replaced: see KNOWN_FINDINGS.
        return gen::family_case("rects", seed, i);
    }
    c
}

/// Number of pieces, and of pairs of pieces whose bounding boxes come within eps.
pub fn size(c: &gen::Case) -> (usize, usize) {
    let mut cs = oracle::Curves::new(&c.a);
    cs.extend(&c.b);
    let e = 4.0 * c.eps();
    let mut bx: Vec<_> = cs
        .monos
        .iter()
        .map(|m| {
            // a tighter box than the control polygon's for pieces of curves
            let s = &cs.segs[m.seg];
            let sub = kurbo::ParamCurve::subsegment(s, m.t0..m.t1);
            oracle::cubic_box(&sub)
        })
        .collect();
    bx.sort_by(|a, b| a.1.total_cmp(&b.1));
    let mut pairs = 0;
    for i in 0..bx.len() {
        for j in i + 1..bx.len() {
            if bx[j].1 > bx[i].3 + e {
                break;
            }
            if bx[i].0 <= bx[j].2 + e && bx[j].0 <= bx[i].2 + e {
                pairs += 1;
            }
        }
    }
    (bx.len() + c.a.segments().count() + c.b.segments().count(), pairs)
}

/// Allowed allocations and output elements per unit, depending on the accuracy
/// relative to the size of the coordinates. About ten times what was observed.
fn limits(c: &gen::Case) -> (f64, f64, bool) {
    let rel = c.eps() / gen::max_abs(&c.a).max(gen::max_abs(&c.b)).max(1e-300);
    if rel > 0.9e-6 {
        (2000.0, 60.0, true)
    } else {
        (20000.0, 500.0, false)
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(60_000, 2_500_000), move |i| {
        let mut o = Outcome::default();
        let c = workload(seed, i);
        let mut r = case_rng(seed, 2, i);
        let (n, pairs) = size(&c);
        let units = (8 + n + pairs) as f64;
        let (max_allocs, max_els, coarse) = limits(&c);
        o.count(c.family, 1);
        if n > 0 {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        let combos: Vec<_> = if c.family == "known" {
            vec![(BinaryOp::Union, FillRule::EvenOdd)]
        } else if i % 16 == 0 || c.family == "regression" {
            OPS.iter().flat_map(|o| RULES.iter().map(move |r| (*o, *r))).collect()
        } else {
            vec![(*r.pick(&OPS), *r.pick(&RULES))]
        };
        for (op, rule) in combos {
            let before = budget::used();
            let res = run::guarded(|| boolop(&c, rule, op));
            let allocs = budget::used() - before;
            o.evals += 1;
            match res {
                Err(p) => o.violate(sig(&c, rule, op), format!("panic at {}: {} | {op:?} {rule:?} {}", p.loc, p.msg, c.describe())),
                Ok(Err(e)) => o.violate(sig(&c, rule, op), format!("valid input refused: {e:?} | {op:?} {rule:?} {}", c.describe())),
                Ok(Ok(out)) => {
                    let els: usize = out.contours().map(|c| c.path.elements().len()).sum();
                    o.count(if coarse { "max:allocations per unit of input" } else { "max:allocations per unit of input, fine eps" }, (allocs as f64 / units) as u64);
                    o.count(if coarse { "max:output elements per 1000 units" } else { "max:output elements per 1000 units, fine eps" }, (1000.0 * els as f64 / units) as u64);
                    if allocs as f64 > max_allocs * units {
                        o.violate(sig(&c, rule, op), format!("{allocs} allocations for {n} pieces and {pairs} close pairs | {op:?} {rule:?} {}", c.describe()));
                    }
                    if els as f64 > max_els * units {
                        o.violate(sig(&c, rule, op), format!("{els} output elements for {n} pieces and {pairs} close pairs | {op:?} {rule:?} {}", c.describe()));
                    }
                }
            }
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "Regression inputs, random cases of the 25 general families and 11 families stressing termination (extreme scales and offsets, collinear edges, stacks of equal figures, everything within a few eps, empty and one-point subpaths, combs, spirals, cusps). An evaluation is one boolean operation that has to return without a panic, within an allocation budget and with an output size linear in the number of monotone input pieces and of pairs of pieces with touching bounding boxes; an allocation counter and a thread CPU clock stop runaways. Non-trivial: there is at least one input piece.".into(),
        assumptions: vec!["work is measured as allocations; a computation that allocates nothing is bounded by a generous CPU-time limit per case".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| workload(seed, i).describe()),
    }
}
