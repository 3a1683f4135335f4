//! C01: point membership of the result of a boolean operation, decided by an
//! independent winding-number oracle on the inputs.
use super::*;
use crate::{common::*, driver::*, gen, oracle, sample};
use linesweeper::*;

pub fn check_op(
    c: &gen::Case, rule: FillRule, op: BinaryOp, inp: &sample::Inputs, ss: &[sample::Sample], o: &mut Outcome,
) {
    let Some(out) = observe(c, rule, op, o) else { return };
    let oc: oracle::Curves = out_curves(&out);
    let mut bad = 0;
    let mut worst: Option<(f64, String)> = None;
    let mut ins = 0;
    for s in ss {
        o.evals += 1;
        let want = expect(op, fill(rule, s.w[0]), fill(rule, s.w[1]));
        ins += want as u64;
        let w = oc.winding(s.p);
        if (w != 0) != want {
            bad += 1;
            let d = inp.all.dist(s.p) / c.eps();
            if worst.as_ref().is_none_or(|(x, _)| d > *x) {
                worst = Some((
                    d,
                    format!(
                        "point {:?} at {d:.1} eps from all input curves has input winding numbers {:?}, should be {} but output winding is {w}",
                        s.p, s.w, if want { "inside" } else { "outside" }
                    ),
                ));
            }
        }
    }
    o.count("points expected inside", ins);
    o.count("points expected outside", ss.len() as u64 - ins);
    if let Some((_, m)) = worst {
        o.violate(sig(c, rule, op), format!("{bad} of {} points wrong; {m} | {op:?} {rule:?} {}", ss.len(), c.describe()));
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(60_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 1, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        let ss = sample::samples(&inp, c.tol(), 8, 12, &mut r);
        if interesting(&ss) {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        o.count(c.family, 1);
        if i % 8 == 0 || c.family == "regression" {
            for op in OPS {
                for rule in RULES {
                    check_op(&c, rule, op, &inp, &ss, &mut o);
                }
            }
        } else {
            check_op(&c, *r.pick(&RULES), *r.pick(&OPS), &inp, &ss, &mut o);
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "Regression inputs and random cases from 25 generator families; an evaluation is one point, more than 20 eps (50 eps for the corpus of drawings full of eps-sized features) from all input curves, whose membership in the output is compared with an independent winding-number computation. A case is non-trivial if some point has a nonzero winding number in an input; cases are distinct if their text is.".into(),
        assumptions: vec!["the harness's own winding-number and distance computations".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
