//! C22: the contours' parent links are the real nesting.
use super::*;
use crate::{common::*, driver::*, gen, oracle, rng::Rng, sample};
use kurbo::Point;
use linesweeper::topology::ContourIdx;
use linesweeper::*;

fn check_op(c: &gen::Case, rule: FillRule, op: BinaryOp, inp: &sample::Inputs, ss: &[sample::Sample], r: &mut Rng, o: &mut Outcome) {
    let Some(out) = observe(c, rule, op, o) else { return };
    let s = || sig(c, rule, op);
    let tail = || format!("{op:?} {rule:?} {}", c.describe());
    let cs: Vec<_> = out.contours().collect();
    let n = cs.len();
    // Forest, alternation.
    let mut depth = vec![0usize; n];
    for i in 0..n {
        o.evals += 1;
        let mut k = i;
        let mut d = 0;
        while let Some(p) = cs[k].parent {
            if p.0 >= n || d > n {
                o.violate(s(), format!("parent links of contour {i} are not those of a forest | {}", tail()));
                return;
            }
            k = p.0;
            d += 1;
        }
        depth[i] = d;
        if cs[i].outer != (d % 2 == 0) {
            o.violate(s(), format!("contour {i} at nesting depth {d} has outer = {} | {}", cs[i].outer, tail()));
            return;
        }
        if d > 0 {
            o.count("nested contours", 1);
        }
    }
    o.count("max:nesting depth", depth.iter().copied().max().unwrap_or(0) as u64);
    // The index operator and the iterator agree.
    for i in 0..n {
        if !std::ptr::eq(&out[ContourIdx(i)], cs[i]) {
            o.violate(s(), format!("Contours[{i}] is not the {i}th contour | {}", tail()));
        }
    }
    // Grouping.
    let groups = out.grouped();
    let mut seen = vec![false; n];
    for g in &groups {
        o.evals += 1;
        let ok = g.first().is_some_and(|t| t.0 < n && cs[t.0].parent.is_none() && cs[t.0].outer);
        if !ok {
            o.violate(s(), format!("a group doesn't start with a top-level outer contour: {groups:?} | {}", tail()));
            return;
        }
        for x in g {
            let mut k = *x;
            while let Some(p) = cs[k.0].parent {
                k = p;
            }
            if k != g[0] || seen[x.0] {
                o.violate(s(), format!("contour {} is in a wrong group: {groups:?} | {}", x.0, tail()));
                return;
            }
            seen[x.0] = true;
        }
    }
    if seen.iter().any(|x| !x) {
        o.violate(s(), format!("groups don't contain all contours: {groups:?} | {}", tail()));
    }
    // Containment at points away from all input curves.
    let curves: Vec<_> = cs.iter().map(|x| oracle::Curves::new(&x.path)).collect();
    let mut pts: Vec<Point> = ss.iter().map(|x| x.p).collect();
    // Points inside contours: in the middle between two neighbouring curves.
    for q in &curves {
        let Some(b) = q.bbox() else { continue };
        if (b.3 - b.1) < 2.0 * c.tol() || (b.2 - b.0) < 2.0 * c.tol() {
            continue;
        }
        for _ in 0..2 {
            let y = r.range(b.1, b.3);
            let xs = inp.all.crossings(y);
            let w: Vec<_> = xs.windows(2).filter(|w| w[1].0 - w[0].0 > 2.0 * c.tol() && w[1].0 > b.0 && w[0].0 < b.2).collect();
            if w.is_empty() {
                continue;
            }
            let w = r.pick(&w);
            let p = Point::new(0.5 * (w[0].0 + w[1].0), y);
            if !inp.all.closer_than(p, c.tol()) {
                pts.push(p);
            }
        }
    }
    for p in pts {
        o.evals += 1;
        let around: Vec<usize> = (0..n).filter(|i| curves[*i].winding(p) != 0).collect();
        // They must be a chain: exactly the contour nested deepest and its ancestors.
        let Some(&deepest) = around.iter().max_by_key(|i| depth[**i]) else { continue };
        o.count("points inside contours", 1);
        if depth[deepest] > 0 {
            o.count("points inside nested contours", 1);
        }
        let mut chain = vec![deepest];
        let mut k = deepest;
        while let Some(q) = cs[k].parent {
            chain.push(q.0);
            k = q.0;
        }
        chain.sort();
        if chain != around {
            o.violate(
                s(),
                format!(
                    "{p:?} lies inside the contours {around:?}, but contour {deepest} and its ancestors are {chain:?} (parents {:?}) | {}",
                    cs.iter().map(|c| c.parent.map(|p| p.0)).collect::<Vec<_>>(),
                    tail()
                ),
            );
            return;
        }
        let w = inp.windings(p);
        if expect(op, fill(rule, w[0]), fill(rule, w[1])) != cs[deepest].outer {
            o.violate(
                s(),
                format!(
                    "the innermost contour {deepest} around {p:?} has outer = {}, but the point is {}inside the result | {}",
                    cs[deepest].outer,
                    if cs[deepest].outer { "not " } else { "" },
                    tail()
                ),
            );
            return;
        }
    }
}

fn case_of(seed: u64, i: u64) -> gen::Case {
    if i >= gen::regressions().len() as u64 && i % 3 == 0 {
        gen::nest_case(seed, i)
    } else {
        gen::workload(seed, i)
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(50_000, 2_500_000), move |i| {
        let mut o = Outcome::default();
        let c = case_of(seed, i);
        let mut r = case_rng(seed, 22, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        let ss = sample::samples(&inp, c.tol(), 4, 8, &mut r);
        if interesting(&ss) {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        if i % 8 == 0 || c.family == "regression" {
            for op in OPS {
                for rule in RULES {
                    check_op(&c, rule, op, &inp, &ss, &mut r, &mut o);
                }
            }
        } else {
            check_op(&c, *r.pick(&RULES), *r.pick(&OPS), &inp, &ss, &mut r, &mut o);
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload, and for every third case drawings with deep and wide nesting (boxes, circles and stars inside each other, side by side and touching). An evaluation is one contour (forest, alternation of outer and hole), one group of contours, or one point away from the input curves: the contours that wind around it must be exactly one contour and its ancestors, and the innermost one must be outer exactly if the oracle says the point is in the result. Non-trivial: some point has a nonzero winding number in an input.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| case_of(seed, i).describe()),
    }
}
