//! C06: the winding numbers of the arrangement against the true ones.
use super::*;
use crate::{arr, common::*, driver::*, gen, run, sample};
use kurbo::{ParamCurve, ParamCurveDeriv, Point, Vec2};
use linesweeper::topology::{BinaryWindingNumber, Topology};

fn bw(w: &[i32]) -> BinaryWindingNumber {
    BinaryWindingNumber { shape_a: w[0], shape_b: w[1] }
}

fn check(c: &gen::Case, inp: &sample::Inputs, ss: &[sample::Sample], r: &mut crate::rng::Rng, o: &mut Outcome) {
    let eps = c.eps();
    let fail = |o: &mut Outcome, what: &str, d: String| {
        o.violate(format!("{what}-{:016x}", hash_str(&c.describe())), format!("{d} | {}", c.describe()))
    };
    let t = match run::guarded(|| Topology::from_paths_binary(&c.a, &c.b, eps).map(|t| { let a = arr::Arr::new(&t); (t, a) })) {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => return fail(o, "refused", "valid input refused".into()),
        Err(p) => return fail(o, "panic", format!("panic at {}: {}", p.loc, p.msg)),
    };
    let (t, a) = t;
    o.count("pieces", a.pieces.len() as u64);
    for q in &a.pieces {
        o.evals += 1;
        let h2 = q.idx.second_half();
        if *t.winding_clockwise(h2) != q.left || *t.winding_counter_clockwise(h2) != q.right {
            return fail(o, "ends", format!("the two ends of the piece from {:?} to {:?} disagree about its sides", q.top, q.bot));
        }
        if q.left == q.right {
            return fail(o, "trivial", format!("the piece from {:?} to {:?} has {:?} on both sides", q.top, q.bot, q.left));
        }
        if (q.bot.y, q.bot.x) <= (q.top.y, q.top.x) {
            return fail(o, "direction", format!("the piece from {:?} to {:?} does not run down", q.top, q.bot));
        }
    }
    o.evals += 1;
    if let Some((p, f)) = a.unbalanced_vertex() {
        return fail(o, "vertex", format!("around the vertex {p:?} the winding numbers of neighbouring sides don't agree: {f:?}"));
    }
    for s in ss {
        o.evals += 1;
        let f = a.formal(s.p);
        if !arr::says(&f, &bw(&s.w)) {
            return fail(o, "point", format!("at {:?} the winding numbers are {:?}, but crossing the pieces to its west gives {f:?}", s.p, s.w));
        }
    }
    // Next to the middles of pieces.
    if a.pieces.is_empty() {
        return;
    }
    for _ in 0..24 {
        let i = r.below(a.pieces.len());
        let q = &a.pieces[i];
        if q.segs.is_empty() {
            continue;
        }
        let s = *r.pick(&q.segs);
        let u = r.f();
        let (m, d) = (s.eval(u), s.deriv().eval(u).to_vec2());
        let l = d.hypot();
        if !(l > 0.0) {
            continue;
        }
        // With y pointing down, the left of direction (0, 1) is (1, 0).
        let n = Vec2::new(d.y, -d.x) / l;
        for (side, w) in [(1.0, &q.left), (-1.0, &q.right)] {
            let step = 1.3 * c.tol();
            let p: Point = m + n * (side * step);
            if inp.all.closer_than(p, c.tol()) {
                continue;
            }
            // Only this piece may be near.
            let alone = a.curves.iter().enumerate().all(|(j, k)| j == i || !k.closer_than(m, 1.4 * step));
            if !alone || q.segs.iter().filter(|z| crate::oracle::seg_closer_than(z, &crate::oracle::cubic_box(z), false, m, 1.4 * step)).count() != 1 {
                continue;
            }
            // A curve that turns back sharply has its other side here.
            if [0.0, 0.5, 1.0].iter().any(|t| s.deriv().eval(*t).to_vec2().dot(d) < 0.5 * l * s.deriv().eval(*t).to_vec2().hypot()) {
                continue;
            }
            o.evals += 1;
            o.count("sides of pieces looked at directly", 1);
            let want = bw(&inp.windings(p));
            if *w != want {
                return fail(o, "side", format!("the piece from {:?} to {:?} claims {w:?} on the side of {p:?}, where it is {want:?}", q.top, q.bot));
            }
        }
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(60_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 6, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        let ss = sample::samples(&inp, c.tol(), 4, 8, &mut r);
        if interesting(&ss) {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        check(&c, &inp, &ss, &mut r, &mut o);
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload. For each arrangement: both ends of every piece name the same two different sides; around every vertex each winding number is entered and left equally often; at points away from all input curves, walking there from the outside across the drawn pieces and their claimed sides must lead to exactly the winding number the oracle finds (as a formal sum, so that wrong numbers cannot cancel); and the claimed sides of pieces that lie alone are compared with the oracle right next to them. An evaluation is one piece, vertex set, point or side. Non-trivial: some point has a nonzero winding number.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
