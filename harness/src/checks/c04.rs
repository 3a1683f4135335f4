//! C04: shape, closedness and orientation of output contours.
use super::*;
use crate::{common::*, driver::*, gen, oracle, sample};
use kurbo::PathEl;
use linesweeper::*;

/// In the winding convention of the oracle, a contour with the set on its left.
pub const INSIDE: i32 = 1;
/// Winding number inside a curve with positive signed area.
const TURN: i32 = -1;

pub fn check_op(c: &gen::Case, rule: FillRule, op: BinaryOp, ss: &[sample::Sample], o: &mut Outcome) {
    let Some(out) = observe(c, rule, op, o) else { return };
    let s = || sig(c, rule, op);
    let tail = || format!("{op:?} {rule:?} {}", c.describe());
    for (k, x) in out.contours().enumerate() {
        let els = x.path.elements();
        o.evals += 1;
        let moves = els.iter().filter(|e| matches!(e, PathEl::MoveTo(_))).count();
        let closes = els.iter().filter(|e| matches!(e, PathEl::ClosePath)).count();
        if moves != 1
            || closes != 1
            || !matches!(els.first(), Some(PathEl::MoveTo(_)))
            || !matches!(els.last(), Some(PathEl::ClosePath))
            || els.len() < 3
        {
            o.violate(s(), format!("contour {k} is not one closed path: {} | {}", x.path.to_svg(), tail()));
            return;
        }
        if !els.iter().flat_map(gen::el_points).all(|p| p.is_finite()) {
            o.violate(s(), format!("contour {k} is not finite: {} | {}", x.path.to_svg(), tail()));
            return;
        }
        // The path has to come back to its start by itself, so that closing it adds nothing
        // that can be noticed. (Merging pieces of an input curve moves a vertex a little, so
        // this is not exact.)
        let first = gen::el_points(&els[0])[0];
        let last = *gen::el_points(&els[els.len() - 2]).last().unwrap();
        if first.distance(last) > c.tol() {
            o.violate(s(), format!("contour {k} ends at {last:?}, far from its start {first:?} | {}", tail()));
        }
        let oc = oracle::Curves::new(&x.path);
        let area = oracle::signed_area(&x.path);
        let slack = c.tol() * length(&oc);
        o.evals += 1;
        if area.abs() > slack {
            o.count(if x.outer { "outer contours with a clear area" } else { "holes with a clear area" }, 1);
            // signed_area is positive for curves that run from +x to +y.
            let turn = if area > 0.0 { TURN } else { -TURN };
            let want = if x.outer { INSIDE } else { -INSIDE };
            if turn != want {
                o.violate(
                    s(),
                    format!("contour {k} (outer: {}) has the wrong orientation (area {area}): {} | {}", x.outer, x.path.to_svg(), tail()),
                );
            }
        } else {
            o.count("contours thinner than the tolerance", 1);
        }
        // No vertex twice.
        let mut vs: Vec<(f64, f64)> =
            els[..els.len() - 1].iter().skip(1).map(|e| *gen::el_points(e).last().unwrap()).map(|p| (p.x, p.y)).collect();
        vs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let n = vs.len();
        vs.dedup();
        if vs.len() != n {
            o.count("contours with repeated vertices", 1);
        }
    }
    let oc = out_curves(&out);
    for x in ss {
        o.evals += 1;
        let w = oc.winding(x.p);
        if w == INSIDE {
            o.count("points wound around once", 1);
        }
        if w != 0 && w != INSIDE {
            o.violate(s(), format!("the contours wind {w} times around {:?} | {}", x.p, tail()));
            return;
        }
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(60_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 4, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        let ss = sample::samples(&inp, c.tol(), 5, 10, &mut r);
        if interesting(&ss) {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        if i % 8 == 0 || c.family == "regression" {
            for op in OPS {
                for rule in RULES {
                    check_op(&c, rule, op, &ss, &mut o);
                }
            }
        } else {
            check_op(&c, *r.pick(&RULES), *r.pick(&OPS), &ss, &mut o);
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload; an evaluation is one output contour checked for its shape (one closed finite path that returns to its start) or for its orientation (signed area against the outer flag, if the area exceeds the tolerance times the length), or one point away from all input curves around which the output has to wind exactly zero times or once in the documented direction. Non-trivial: some point has a nonzero winding number in an input.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
