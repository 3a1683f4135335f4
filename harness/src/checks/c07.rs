//! C07: any number of paths, caller-defined winding numbers and predicates.
use super::*;
use crate::{arr, common::*, driver::*, gen, run, sample};
use kurbo::{Affine, BezPath, PathEl, Vec2};
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology, WindingNumber};
use linesweeper::*;

/// Winding numbers with an entry for each of several sets, to which paths contribute
/// in different ways.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct W6([i32; 6]);

const WEIGHTS: [[i32; 6]; 8] = [
    [1, 0, 0, 0, 0, 0],
    [0, 1, 0, 0, 0, 0],
    [0, 0, 1, 0, 0, 0],
    [0, 0, 0, 1, 0, 0],
    [2, 0, 0, 0, 1, 0],
    [0, -1, 0, 0, 0, -3],
    [1, 1, 1, 1, 1, 1],
    // Counts for nothing.
    [0; 6],
];

impl std::ops::Add for W6 {
    type Output = W6;
    fn add(mut self, o: W6) -> W6 {
        self += o;
        self
    }
}
impl std::ops::AddAssign for W6 {
    fn add_assign(&mut self, o: W6) {
        for k in 0..6 {
            self.0[k] += o.0[k];
        }
    }
}
impl WindingNumber for W6 {
    type Tag = u8;
    fn single(tag: u8, positive: bool) -> W6 {
        let s = if positive { 1 } else { -1 };
        W6(WEIGHTS[tag as usize].map(|w| w * s))
    }
}

struct Scene {
    base: gen::Case,
    paths: Vec<(BezPath, u8)>,
}

impl Scene {
    fn describe(&self) -> String {
        let ps: Vec<_> = self.paths.iter().map(|(p, t)| format!("{t}:\"{}\"", p.to_svg())).collect();
        format!("family={} eps={:?} paths {}", self.base.family, self.base.eps(), ps.join(" "))
    }
}

fn scene(seed: u64, i: u64) -> Scene {
    let base = gen::workload(seed, i);
    let mut r = case_rng(seed, 7, i);
    let size = gen::max_abs(&base.a).max(gen::max_abs(&base.b));
    let mut ps: Vec<BezPath> = vec![base.a.clone(), base.b.clone()];
    let small = base.n_segs() < 60;
    let more = if small { r.below(5) } else { r.below(2) };
    for _ in 0..more {
        let k = r.below(ps.len());
        let p = match r.below(7) {
            0 => BezPath::new(),
            1 => gen::jitter(&mut r, &ps[k], base.eps() * 2.0),
            2 => gen::reverse(&ps[k]),
            3 => Affine::translate(Vec2::new(r.range(-0.5, 0.5), r.range(-0.5, 0.5)) * size) * ps[k].clone(),
            4 => {
                // One of the subpaths alone.
                let s = subpaths(&ps[k]);
                if s.is_empty() {
                    BezPath::new()
                } else {
                    s[r.below(s.len())].iter().copied().collect()
                }
            }
            _ => {
                let c = gen::case(seed ^ 0x77, r.u64() % 1_000_000);
                let m = gen::max_abs(&c.a);
                if c.n_segs() < 30 && m > 0.0 && size > 0.0 {
                    Affine::scale(size / m) * c.a
                } else {
                    BezPath::new()
                }
            }
        };
        ps.push(p);
    }
    r.shuffle(&mut ps);
    let mut paths: Vec<(BezPath, u8)> = vec![];
    for (k, p) in ps.into_iter().enumerate() {
        let t = if r.chance(0.7) { (k % 6) as u8 } else { r.below(8) as u8 };
        paths.push((p, t));
    }
    Scene { base, paths }
}

fn weigh(s: &Scene, w: &[i32]) -> W6 {
    let mut f = W6::default();
    for ((_, t), n) in s.paths.iter().zip(w) {
        for k in 0..6 {
            f.0[k] += WEIGHTS[*t as usize][k] * n;
        }
    }
    f
}

fn pred(kind: u64, w: &W6) -> bool {
    let nz = |i: usize| w.0[i] != 0;
    match kind {
        0 => w.0.iter().any(|x| *x != 0),
        1 => w.0.iter().all(|x| *x != 0),
        2 => w.0.iter().map(|x| x.rem_euclid(2)).sum::<i32>() % 2 == 1,
        3 => w.0.iter().filter(|x| **x != 0).count() >= 2,
        4 => nz(0) && !nz(1) && !nz(2),
        5 => w.0.iter().sum::<i32>() > 0,
        6 => w.0.iter().any(|x| *x < 0),
        7 => w.0.iter().map(|x| x.abs()).sum::<i32>() == 1,
        k => {
            // Any set of winding numbers without zero.
            let mut h = Fnv::new();
            h.add(k);
            w.0.iter().for_each(|x| h.add(*x as u64));
            *w != W6::default() && (h.0 >> 33) % 2 == 1
        }
    }
}

fn contains(out: &Contours, ss: &[sample::Sample], want: impl Fn(&sample::Sample) -> bool, o: &mut Outcome) -> Option<String> {
    let oc = out_curves(out);
    for s in ss {
        o.evals += 1;
        let w = oc.winding(s.p);
        let inside = want(s);
        if w != inside as i32 * super::c04::INSIDE {
            return Some(format!("{:?} with input winding numbers {:?} should be {} but the contours wind around it {w} times", s.p, s.w, if inside { "inside" } else { "outside" }));
        }
    }
    None
}

fn check_scene(s: &Scene, r: &mut crate::rng::Rng, o: &mut Outcome) {
    let eps = s.base.eps();
    let tol = s.base.tol();
    let fail = |o: &mut Outcome, what: &str, d: String| {
        o.violate(format!("{what}-{:016x}", hash_str(&s.describe())), format!("{d} | {}", s.describe()))
    };
    let inp = sample::Inputs::new(&s.paths.iter().map(|p| &p.0).collect::<Vec<_>>());
    let ss = sample::samples(&inp, tol, 4, 8, r);
    if ss.iter().any(|x| x.w.iter().filter(|w| **w != 0).count() > 1) {
        o.nontrivial = Some(hash_str(&s.describe()));
    }
    let kinds = [r.u64() % 8, 8 + r.u64() % 1000];
    let res = run::guarded(|| {
        Topology::<W6>::from_paths(s.paths.iter().map(|(p, t)| (p, *t)), eps).map(|t| {
            let a = arr::Arr::new(&t);
            let c = kinds.map(|k| t.contours(|w| pred(k, w)));
            (a, c)
        })
    });
    let (a, cs) = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail(o, "refused", format!("valid input refused: {:?}", Error::from(e))),
        Err(p) => return fail(o, "panic", format!("panic at {}: {}", p.loc, p.msg)),
    };
    for x in &ss {
        o.evals += 1;
        let f = a.formal(x.p);
        if !arr::says(&f, &weigh(s, &x.w)) {
            return fail(o, "winding", format!("at {:?} the winding numbers are {:?}, but crossing the pieces to its west gives {f:?}", x.p, weigh(s, &x.w)));
        }
    }
    for (k, c) in kinds.iter().zip(&cs) {
        if let Some(d) = contains(c, &ss, |x| pred(*k, &weigh(s, &x.w)), o) {
            return fail(o, "predicate", format!("{d} (predicate {k})"));
        }
    }
}

/// The constructors for special cases do the same thing.
fn check_special(c: &gen::Case, op: BinaryOp, rule: FillRule, r: &mut crate::rng::Rng, o: &mut Outcome) {
    let eps = c.eps();
    let fail = |o: &mut Outcome, what: &str, d: String| {
        o.violate(format!("{what}-{:016x}", hash_str(&c.describe())), format!("{d} | {op:?} {rule:?} {}", c.describe()))
    };
    let inside = |w: &BinaryWindingNumber| expect(op, fill(rule, w.shape_a), fill(rule, w.shape_b));
    let res = run::guarded(|| {
        let want = digest(&binary_op_with_eps(&c.a, &c.b, rule, op, eps).unwrap());
        let mut got = vec![];
        let empty = BezPath::new();
        let add = |n: &'static str, t: Result<u64, ()>, got: &mut Vec<(&'static str, u64)>| got.push((n, t.unwrap_or(0)));
        let bin = |v: Vec<(&BezPath, bool)>| Topology::<BinaryWindingNumber>::from_paths(v, eps).map(|t| digest(&t.contours(inside))).map_err(|_| ());
        add("from_paths_binary", Topology::from_paths_binary(&c.a, &c.b, eps).map(|t| digest(&t.contours(inside))).map_err(|_| ()), &mut got);
        add("from_paths with two paths", bin(vec![(&c.a, true), (&c.b, false)]), &mut got);
        // The subpaths given separately, with empty paths between.
        let (sa, sb): (Vec<BezPath>, Vec<BezPath>) = (
            subpaths(&c.a).into_iter().map(|s| s.into_iter().collect()).collect(),
            subpaths(&c.b).into_iter().map(|s| s.into_iter().collect()).collect(),
        );
        let mut v = vec![];
        for (s, t) in sa.iter().map(|s| (s, true)).chain(sb.iter().map(|s| (s, false))) {
            if r.chance(0.3) {
                v.push((&empty, r.chance(0.5)));
            }
            v.push((s, t));
        }
        add("from_paths with one path for each subpath", bin(v), &mut got);
        let gen = Topology::<W6>::from_paths([(&c.a, 0), (&c.b, 3)], eps)
            .map(|t| digest(&t.contours(|w| expect(op, fill(rule, w.0[0]), fill(rule, w.0[3])))))
            .map_err(|_| ());
        add("other winding numbers", gen, &mut got);
        // One path alone.
        let mut alone = vec![];
        for p in [&c.a, &c.b] {
            let one = digest(&binary_op_with_eps(p, &empty, rule, BinaryOp::Union, eps).unwrap());
            let t = Topology::from_path(p, eps).map(|t| digest(&t.contours(|w| fill(rule, *w)))).map_err(|_| ());
            alone.push((one, t.unwrap_or(0)));
        }
        (want, got, alone)
    });
    let (want, got, alone) = match res {
        Ok(x) => x,
        Err(p) => return fail(o, "panic", format!("panic at {}: {}", p.loc, p.msg)),
    };
    for (n, d) in got {
        o.evals += 1;
        if d != want {
            fail(o, "special", format!("{n} gives another result than the boolean operation"));
        }
    }
    for (a, b) in alone {
        o.evals += 1;
        if a != b {
            fail(o, "special", "from_path gives another result than the union with nothing".into());
        }
    }
    // Polylines.
    let els = |p: &BezPath| -> Option<Vec<Vec<Point>>> {
        let mut out: Vec<Vec<Point>> = vec![];
        for s in subpaths(p) {
            let mut v: Vec<Point> = vec![];
            for e in s {
                match e {
                    PathEl::MoveTo(q) | PathEl::LineTo(q) => {
                        if v.last() != Some(&q.into()) {
                            v.push(q.into())
                        }
                    }
                    PathEl::ClosePath => {}
                    _ => return None,
                }
            }
            while v.len() > 1 && v.first() == v.last() {
                v.pop();
            }
            if v.len() > 1 {
                out.push(v);
            }
        }
        Some(out)
    };
    if let (Some(a), Some(b)) = (els(&c.a), els(&c.b)) {
        o.evals += 1;
        o.count("polylines", 1);
        match run::guarded(|| digest(&Topology::from_polylines_binary(a.clone(), b.clone(), eps).contours(inside))) {
            Err(p) => fail(o, "panic", format!("panic at {}: {} (from_polylines_binary)", p.loc, p.msg)),
            Ok(d) if d != want => fail(o, "special", "from_polylines_binary gives another result than the boolean operation".into()),
            _ => {}
        }
        // Points given twice in a row, or polylines closed explicitly, mean the same.
        let mut dup = |ls: Vec<Vec<Point>>| -> Vec<Vec<Point>> {
            ls.into_iter()
                .map(|l| {
                    let mut v = vec![];
                    for p in &l {
                        for _ in 0..1 + r.chance(0.2) as usize {
                            v.push(*p);
                        }
                    }
                    if r.chance(0.5) {
                        v.push(l[0]);
                    }
                    v
                })
                .collect()
        };
        let (a, b) = (dup(a), dup(b));
        o.evals += 1;
        match run::guarded(|| Topology::from_polylines_binary(a.clone(), b.clone(), eps).contours(inside)) {
            Err(p) => fail(o, "panic", format!("panic at {}: {} (from_polylines_binary with repeated points)", p.loc, p.msg)),
            Ok(x) => {
                let inp = sample::Inputs::new(&[&c.a, &c.b]);
                let ss = sample::samples(&inp, c.tol(), 3, 6, r);
                if let Some(d) = contains(&x, &ss, |s| expect(op, fill(rule, s.w[0]), fill(rule, s.w[1])), o) {
                    fail(o, "polylines", format!("{d} (from_polylines_binary with repeated points)"));
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(25_000, 2_000_000), move |i| {
        let mut o = Outcome::default();
        let mut r = case_rng(seed, 77, i);
        let s = scene(seed, i);
        check_scene(&s, &mut r, &mut o);
        if i % 4 == 0 {
            check_special(&s.base, OPS[(i / 4 % 4) as usize], RULES[(i / 16 % 2) as usize], &mut r, &mut o);
        }
        if i % 9973 == 500 {
            o.sample = Some(s.describe());
        }
        o
    });
    Report {
        agg,
        rule: "Scenes of two to six paths (the common workload, with copies, reversed, moved and almost equal ones, single subpaths, empty paths and unrelated ones added) with tags of a six-component winding number to which tags contribute with different weights. At points away from all input curves, walking there across the arrangement's pieces must lead to exactly the oracle's winding number, and the contours of two predicates (counting ones and arbitrary sets) must wind around it once or not at all as the predicate says. For a quarter of the cases, the special constructors must give bit-identical contours. Non-trivial: some point is wound around by at least two paths.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| scene(seed, i).describe()),
    }
}
