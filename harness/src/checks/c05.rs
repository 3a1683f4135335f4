//! C05: output curves stay close to the input curves and lie on the boundary of the result.
use super::*;
use crate::{common::*, driver::*, gen, oracle, rng::Rng, run, sample};
use kurbo::{ParamCurve, Shape, Vec2};
use linesweeper::*;

pub fn check_op(c: &gen::Case, rule: FillRule, op: BinaryOp, inp: &sample::Inputs, r: &mut Rng, o: &mut Outcome) {
    let Some(out) = observe(c, rule, op, o) else { return };
    let s = || sig(c, rule, op);
    let tail = || format!("{op:?} {rule:?} {}", c.describe());
    let oc = out_curves(&out);
    let tol = c.tol();
    let e = c.eps();
    let Some(bb) = inp.all.bbox() else {
        if !oc.segs.is_empty() {
            o.violate(s(), format!("output from nothing | {}", tail()));
        }
        return;
    };
    let n = oc.segs.len();
    // All curves if there are few of them, a sample otherwise.
    let stride = (n / 150).max(1);
    let mut k = if stride > 1 { r.below(stride) } else { 0 };
    let mut worst = (0.0f64, 0.0);
    while k < n {
        let seg = oc.segs[k];
        let b = oc.boxes[k];
        o.evals += 1;
        let out_by = (bb.0 - b.0).max(bb.1 - b.1).max(b.2 - bb.2).max(b.3 - bb.3);
        if out_by > tol {
            o.violate(
                s(),
                format!("the control polygon of {seg:?} leaves the inputs' extent by {:.1} eps | {}", out_by / e, tail()),
            );
        }
        worst.1 = out_by.max(worst.1);
        let mut ts = vec![0.0, 0.25, 0.5, 0.75];
        ts.push(r.f());
        if oc.is_line[k] {
            ts = vec![0.0, 0.5, r.f()];
        }
        for t in ts {
            let p = seg.eval(t);
            o.evals += 1;
            if inp.all.closer_than(p, e * 0.5) {
                continue;
            }
            let d = inp.all.dist(p);
            worst.0 = worst.0.max(d / e);
            if d > tol {
                o.violate(s(), format!("output point {p:?} is {:.1} eps away from all input curves | {}", d / e, tail()));
                return;
            }
        }
        // Does the output run along a boundary of the result here, just once?
        let p = seg.eval(r.range(0.3, 0.7));
        let v = seg.p3 - seg.p0;
        let l = v.hypot();
        if oc.is_line[k] && l > 8.0 * tol && v.y.abs() > 0.2 * l && isolated(inp, p, 8.0 * tol) {
            let nrm = Vec2::new(-v.y, v.x) / l;
            let (p1, p2) = (p + nrm * (3.0 * tol), p - nrm * (3.0 * tol));
            if !inp.all.closer_than(p1, tol) && !inp.all.closer_than(p2, tol) {
                o.evals += 1;
                o.count("straight stretches of output next to a single input line", 1);
                let f = |w: &[i32]| expect(op, fill(rule, w[0]), fill(rule, w[1]));
                let (w1, w2) = (inp.windings(p1), inp.windings(p2));
                if f(&w1) == f(&w2) {
                    o.violate(
                        s(),
                        format!(
                            "the output runs through {p:?}, but both sides ({w1:?} and {w2:?}) are {} the result | {}",
                            if f(&w1) { "inside" } else { "outside" },
                            tail()
                        ),
                    );
                    return;
                }
                let passes = oc.crossings(p.y).iter().filter(|x| (x.0 - p.x).abs() < 4.0 * tol).count();
                if passes != 1 {
                    o.violate(s(), format!("{passes} output curves run along a single input line at {p:?} | {}", tail()));
                    return;
                }
            }
        }
        k += stride;
    }
    // The result's vertices: each lies near an input curve, too.
    o.count("max:distance of output from input in eps / 1000", (worst.0 * 1000.0) as u64);
    o.count("max:control polygon outside extent in eps / 1000", ((worst.1 / e).max(0.0) * 1000.0) as u64);
    o.count("output curves observed", n.div_ceil(stride) as u64);
}

/// The extent that the arrangement reports is that of the input curves.
fn check_extent(c: &gen::Case, inp: &sample::Inputs, o: &mut Outcome) {
    let fail = |o: &mut Outcome, d: String| o.violate(format!("extent-{:016x}", hash_str(&c.describe())), format!("{d} | {}", c.describe()));
    let b = match run::guarded(|| topology::Topology::from_paths_binary(&c.a, &c.b, c.eps()).map(|t| t.bounding_box())) {
        Ok(Ok(b)) => b,
        Ok(Err(_)) => return fail(o, "valid input refused".into()),
        Err(p) => return fail(o, format!("panic at {}: {}", p.loc, p.msg)),
    };
    o.evals += 1;
    o.count("extents of arrangements", 1);
    // The curves themselves, not their control polygons. Repeated points draw
    // nothing, and of (almost) horizontal curves going out and back only the ends matter.
    let tol = c.tol();
    let join = |a: kurbo::Rect, b: kurbo::Rect| a.union(b);
    let boxes = || inp.all.segs.iter().map(|s| (s, s.bounding_box()));
    let most = boxes().map(|b| b.1).reduce(join);
    let least = boxes().map(|(s, b)| if b.height() <= tol { kurbo::Rect::from_points(s.p0, s.p3) } else { b });
    let least = least.filter(|b| b.width() > 0.0 || b.height() > 0.0).reduce(join);
    if let Some(w) = least {
        if !(b.x0 <= w.x0 + tol && b.y0 <= w.y0 + tol && b.x1 >= w.x1 - tol && b.y1 >= w.y1 - tol) {
            return fail(o, format!("the arrangement's bounding box is {b:?}, but the input curves' {w:?}"));
        }
    }
    if b.x0 <= b.x1 && b.y0 <= b.y1 && (b.width() > 0.0 || b.height() > 0.0) {
        let inside = most.is_some_and(|w| b.x0 >= w.x0 - tol && b.y0 >= w.y0 - tol && b.x1 <= w.x1 + tol && b.y1 <= w.y1 + tol);
        if !inside {
            fail(o, format!("the arrangement's bounding box is {b:?}, but the input curves only extend over {most:?}"));
        }
    }
}

/// Is there just one input curve within `d`, and is it a line?
fn isolated(inp: &sample::Inputs, p: kurbo::Point, d: f64) -> bool {
    let a = &inp.all;
    let near: Vec<usize> =
        (0..a.segs.len()).filter(|i| oracle::seg_closer_than(&a.segs[*i], &a.boxes[*i], a.is_line[*i], p, d)).collect();
    near.len() == 1 && a.is_line[near[0]]
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(60_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 5, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        if !inp.all.segs.is_empty() {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        if i % 4 == 0 {
            check_extent(&c, &inp, &mut o);
        }
        if i % 8 == 0 || c.family == "regression" {
            for op in OPS {
                for rule in RULES {
                    check_op(&c, rule, op, &inp, &mut r, &mut o);
                }
            }
        } else {
            check_op(&c, *r.pick(&RULES), *r.pick(&OPS), &inp, &mut r, &mut o);
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload; an evaluation is one point of an output curve (its distance from the input curves), one output curve (its control polygon against the inputs' extent), the extent of an arrangement (Topology::bounding_box against the input curves'), or one stretch of output next to a single input curve (the result's membership on its two sides, from the oracle, must differ). Non-trivial: there is an input curve.".into(),
        assumptions: vec!["the harness's own distance and winding-number computations".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
