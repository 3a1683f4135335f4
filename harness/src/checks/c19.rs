//! C19: the algebra of sets.
use super::*;
use crate::{common::*, driver::*, gen, oracle, oracle::Curves, sample};
use kurbo::BezPath;
use linesweeper::topology::Contours;
use linesweeper::*;

fn op_on(a: &BezPath, b: &BezPath, eps: f64, rule: FillRule, op: BinaryOp, c: &gen::Case, what: &str, o: &mut Outcome) -> Option<Contours> {
    match crate::run::guarded(|| binary_op_with_eps(a, b, rule, op, eps)) {
        Ok(Ok(r)) => Some(r),
        x => {
            let e = match x {
                Err(p) => format!("panic at {}: {}", p.loc, p.msg),
                Ok(Err(e)) => format!("{e:?}"),
                _ => unreachable!(),
            };
            o.violate(sig(c, rule, op), format!("{what} failed with {e} | {op:?} {rule:?} {}", c.describe()));
            None
        }
    }
}

fn path_of(x: &Contours) -> BezPath {
    x.contours().flat_map(|c| c.path.elements().iter().copied()).collect()
}

fn area(x: &Contours) -> f64 {
    x.contours().map(|c| oracle::signed_area(&c.path)).sum::<f64>().abs()
}

fn check(c: &gen::Case, rule: FillRule, ss: &[sample::Sample], far: &[bool], second: usize, o: &mut Outcome) {
    use BinaryOp::*;
    let eps = c.eps();
    let empty = BezPath::new();
    let fail = |o: &mut Outcome, law: &str, d: String| {
        o.violate(format!("{law}-{rule:?}-{:016x}", hash_str(&c.describe())), format!("{law}: {d} | {rule:?} {}", c.describe()))
    };
    // name, first operand, second operand, operation
    let runs: [(&str, &BezPath, &BezPath, BinaryOp); 16] = [
        ("A|B", &c.a, &c.b, Union),
        ("A&B", &c.a, &c.b, Intersection),
        ("A-B", &c.a, &c.b, Difference),
        ("A^B", &c.a, &c.b, Xor),
        ("B|A", &c.b, &c.a, Union),
        ("B&A", &c.b, &c.a, Intersection),
        ("B-A", &c.b, &c.a, Difference),
        ("B^A", &c.b, &c.a, Xor),
        ("A|0", &c.a, &empty, Union),
        ("B|0", &c.b, &empty, Union),
        ("A|A", &c.a, &c.a, Union),
        ("A&A", &c.a, &c.a, Intersection),
        ("A-A", &c.a, &c.a, Difference),
        ("A^A", &c.a, &c.a, Xor),
        ("A&0", &c.a, &empty, Intersection),
        ("0-A", &empty, &c.a, Difference),
    ];
    let mut outs = vec![];
    for (n, a, b, op) in runs {
        let Some(x) = op_on(a, b, eps, rule, op, c, n, o) else { return };
        outs.push(x);
    }
    let curves: Vec<Curves> = outs.iter().map(out_curves).collect();
    let [ab, i, d, x, ba, i2, d2, x2, a, b, aa, ia, da, xa, i0, d0] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    for s in ss {
        let m: Vec<bool> = curves.iter().map(|q| q.winding(s.p) != 0).collect();
        let laws: [(&str, bool); 16] = [
            ("A|B = B|A", m[ab] == m[ba]),
            ("A&B = B&A", m[i] == m[i2]),
            ("A^B = B^A", m[x] == m[x2]),
            ("A|B = A + B", m[ab] == (m[a] || m[b])),
            ("A&B = both", m[i] == (m[a] && m[b])),
            ("(A-B) + (A&B) = A", m[d] as u8 + m[i] as u8 == m[a] as u8),
            ("(B-A) + (A&B) = B", m[d2] as u8 + m[i] as u8 == m[b] as u8),
            ("A^B = (A-B) + (B-A)", m[x] as u8 == m[d] as u8 + m[d2] as u8),
            ("A|B = (A^B) + (A&B)", m[ab] as u8 == m[x] as u8 + m[i] as u8),
            ("A|A = A", m[aa] == m[a]),
            ("A&A = A", m[ia] == m[a]),
            ("A-A = 0", !m[da]),
            ("A^A = 0", !m[xa]),
            ("A&0 = 0", !m[i0]),
            ("0-A = 0", !m[d0]),
            ("A is A", m[a] == fill(rule, s.w[0]) && m[b] == fill(rule, s.w[1])),
        ];
        o.evals += laws.len() as u64;
        for (n, ok) in laws {
            if !ok {
                fail(o, n, format!("not at {:?}", s.p));
                return;
            }
        }
    }
    // Areas.
    let ar: Vec<f64> = outs.iter().map(area).collect();
    let len = length(&Curves::new(&c.a)) + length(&Curves::new(&c.b));
    let slack = 2.0 * c.tol() * len;
    for (n, l, r) in [
        ("area(A|B) + area(A&B) = area(A) + area(B)", ar[ab] + ar[i], ar[a] + ar[b]),
        ("area(A^B) = area(A|B) - area(A&B)", ar[x], ar[ab] - ar[i]),
        ("area(A-B) = area(A) - area(A&B)", ar[d], ar[a] - ar[i]),
        ("area(B-A) = area(B) - area(A&B)", ar[d2], ar[b] - ar[i]),
        ("area(A|A) = area(A)", ar[aa], ar[a]),
        ("area(A&A) = area(A)", ar[ia], ar[a]),
        ("area(A-A) = 0", ar[da], 0.0),
        ("area(A^A) = 0", ar[xa], 0.0),
        ("area(A&0) = 0", ar[i0] + ar[d0], 0.0),
    ] {
        o.evals += 1;
        if slack < 0.1 * (ar[a] + ar[b]) {
            o.count("area laws that could have failed by a tenth", 1);
        }
        if !((l - r).abs() <= slack) {
            fail(o, n, format!("{l} and {r} (slack {slack})"));
            return;
        }
    }
    // Operations on results.
    let pa = path_of(&outs[a]);
    let derived: [(&str, BezPath, BezPath, BinaryOp, usize); 10] = [
        ("A|0 again = A", pa.clone(), empty.clone(), Union, a),
        ("(A-B) | (A&B) = A", path_of(&outs[d]), path_of(&outs[i]), Union, a),
        ("(A^B) ^ B = A", path_of(&outs[x]), c.b.clone(), Xor, a),
        ("(A|B) - B = A-B", path_of(&outs[ab]), c.b.clone(), Difference, d),
        ("(A|B) & A = A", path_of(&outs[ab]), c.a.clone(), Intersection, a),
        ("(A&B) | A = A", path_of(&outs[i]), c.a.clone(), Union, a),
        ("(A^B) again = A^B", path_of(&outs[x]), empty.clone(), Union, x),
        ("(A|B) - (A&B) = A^B", path_of(&outs[ab]), path_of(&outs[i]), Difference, x),
        ("(A|B) - (A^B) = A&B", path_of(&outs[ab]), path_of(&outs[x]), Difference, i),
        ("A|0 ^ A = 0", pa, c.a.clone(), Xor, da),
    ];
    for k in 0..2 {
        let (n, p, q, op, want) = &derived[(second + 5 * k) % derived.len()];
        // The inputs' own rule applies to the inputs, both rules apply to results.
        let Some(y) = op_on(p, q, eps, rule, *op, c, n, o) else { return };
        let yc = out_curves(&y);
        o.count("operations on results", 1);
        for (s, far) in ss.iter().zip(far) {
            if !far {
                continue;
            }
            o.evals += 1;
            if (yc.winding(s.p) != 0) != (curves[*want].winding(s.p) != 0) {
                fail(o, n, format!("not at {:?}", s.p));
                return;
            }
        }
        let ya = area(&y);
        o.evals += 1;
        let l2 = len + length(&Curves::new(p)) + length(&Curves::new(q));
        if !((ya - ar[*want]).abs() <= 2.0 * c.tol() * l2) {
            fail(o, n, format!("areas are {ya} and {}", ar[*want]));
            return;
        }
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(12_000, 1_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 19, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        let mut ss = sample::samples(&inp, c.tol(), 4, 8, &mut r);
        let far_ss = sample::samples(&inp, 2.5 * c.tol(), 4, 8, &mut r);
        let mut far = vec![false; ss.len()];
        far.extend(vec![true; far_ss.len()]);
        ss.extend(far_ss);
        if interesting(&ss) {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        let rule = *r.pick(&RULES);
        check(&c, rule, &ss, &far, r.below(10), &mut o);
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload; for each case 16 operations on A, B and the empty path, two operations on their results. An evaluation is one law of set algebra at one point away from the input curves (2.5 times as far for operations on results), or one law about areas (up to the tolerance times the length of the curves). Non-trivial: some point has a nonzero winding number in an input.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
