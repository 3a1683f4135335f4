//! C03: invalid input is refused with the right error, valid input is not, and
//! all ways of closing a subpath mean the same.
use super::*;
use crate::{common::*, driver::*, gen, rng::Rng, run};
use kurbo::{BezPath, PathEl, Point};
use linesweeper::topology::Topology;
use linesweeper::*;

fn last_point(s: &[PathEl]) -> Point {
    let mut p = Point::ZERO;
    for e in s {
        if let Some(q) = gen::el_points(e).last() {
            p = *q;
        }
    }
    p
}
fn first_point(s: &[PathEl]) -> Point {
    gen::el_points(&s[0])[0]
}
fn is_closed(s: &[PathEl]) -> bool {
    matches!(s.last(), Some(PathEl::ClosePath)) || first_point(s) == last_point(s)
}

fn set(e: &mut PathEl, k: usize, v: f64) {
    let f = |p: &mut Point, k: usize| if k == 0 { p.x = v } else { p.y = v };
    match e {
        PathEl::MoveTo(a) | PathEl::LineTo(a) => f(a, k % 2),
        PathEl::QuadTo(a, b) => f(if k / 2 % 2 == 0 { a } else { b }, k % 2),
        PathEl::CurveTo(a, b, c) => f(
            match k / 2 % 3 {
                0 => a,
                1 => b,
                _ => c,
            },
            k % 2,
        ),
        PathEl::ClosePath => {}
    }
}

fn corrupt(p: &mut BezPath, r: &mut Rng, v: f64) -> bool {
    let n = p.elements().len();
    if n == 0 {
        return false;
    }
    let i = r.below(n);
    let k = r.below(6);
    let e = &mut p.elements_mut()[i];
    let is_close = matches!(e, PathEl::ClosePath);
    set(e, k, v);
    !is_close
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Want {
    NaN,
    Inf,
    Either,
    Open,
}

/// Open one subpath by ending it somewhere else.
fn open(p: &BezPath, r: &mut Rng) -> Option<BezPath> {
    let mut s = subpaths(p);
    let cand: Vec<usize> = (0..s.len()).filter(|i| s[*i].len() >= 2).collect();
    if cand.is_empty() {
        return None;
    }
    let i = *r.pick(&cand);
    let s0 = first_point(&s[i]);
    if matches!(s[i].last(), Some(PathEl::ClosePath)) {
        s[i].pop();
    }
    if s[i].len() < 2 {
        return None;
    }
    if last_point(&s[i]) == s0 {
        let m = gen::max_abs(p).max(1e-3);
        let d = m * *r.pick(&[1e-12, 1e-6, 1e-3, 0.1, 1.0]);
        let q = Point::new(s0.x + if r.chance(0.5) { d } else { 0.0 }, s0.y + if r.chance(0.5) { -d } else { d });
        match s[i].last_mut().unwrap() {
            PathEl::LineTo(a) => *a = q,
            PathEl::QuadTo(_, b) => *b = q,
            PathEl::CurveTo(_, _, c) => *c = q,
            _ => return None,
        }
    }
    if is_closed(&s[i]) {
        return None;
    }
    Some(join(&s))
}

fn open_ends(p: &BezPath) -> Vec<(Point, Point)> {
    subpaths(p).iter().filter(|s| !is_closed(s)).map(|s| (first_point(s), last_point(s))).collect()
}

/// An equivalent presentation of the same closed path.
fn equivalent(p: &BezPath, r: &mut Rng) -> BezPath {
    let mut out = vec![];
    for mut s in subpaths(p) {
        if r.chance(0.2) {
            out.push(vec![PathEl::MoveTo(Point::new(r.range(-9.0, 9.0), r.range(-9.0, 9.0)))]);
        }
        let s0 = first_point(&s);
        let closed = matches!(s.last(), Some(PathEl::ClosePath));
        if closed {
            let l = last_point(&s);
            match r.below(4) {
                0 | 1 => {
                    // closed by coordinates only
                    s.pop();
                    if l != s0 {
                        s.push(PathEl::LineTo(s0));
                    }
                }
                2 => {
                    // both
                    if l != s0 {
                        s.insert(s.len() - 1, PathEl::LineTo(s0));
                    }
                }
                _ => {}
            }
        } else if r.chance(0.5) {
            s.push(PathEl::ClosePath);
        }
        if r.chance(0.1) && s.len() > 1 && matches!(s.last(), Some(PathEl::ClosePath)) {
            s.push(PathEl::ClosePath);
        }
        out.push(s);
    }
    if r.chance(0.2) {
        out.push(vec![PathEl::MoveTo(Point::new(1.0, 2.0))]);
    }
    join(&out)
}

fn show(c: &gen::Case) -> String {
    format!("eps={:?} A={:?} B={:?}", c.eps, c.a.elements(), c.b.elements())
}

fn judge(want: Want, got: &Result<(), Error>, ends: &[(Point, Point)]) -> bool {
    match (want, got) {
        (Want::NaN, Err(Error::NaN)) => true,
        (Want::Inf, Err(Error::Infinity)) => true,
        (Want::Either, Err(Error::NaN | Error::Infinity)) => true,
        (Want::Open, Err(Error::NonClosedPath(n))) => ends.contains(&(n.start_point, n.end_point)),
        _ => false,
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(60_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let base = gen::workload(seed, i);
        let mut r = case_rng(seed, 3, i);
        let r = &mut r;
        let rule = *r.pick(&RULES);
        let op = *r.pick(&OPS);
        match i % 3 {
            0 | 1 => {
                let mut c = base.clone();
                // Several subpaths, so that the bad one can be anywhere.
                let want;
                let mut what = String::new();
                if i % 3 == 0 {
                    let mut nan = false;
                    let mut inf = false;
                    if r.chance(0.2) {
                        if let Some(q) = open(&c.a, r) {
                            c.a = q;
                        }
                    }
                    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                        let v = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]);
                        let p = if r.chance(0.5) { &mut c.a } else { &mut c.b };
                        corrupt(p, r, v);
                    }
                    for p in [&c.a, &c.b] {
                        for e in p.elements() {
                            for q in gen::el_points(e) {
                                nan |= q.x.is_nan() || q.y.is_nan();
                                inf |= q.x.is_infinite() || q.y.is_infinite();
                            }
                        }
                    }
                    want = match (nan, inf) {
                        (true, true) => Want::Either,
                        (true, false) => Want::NaN,
                        (false, true) => Want::Inf,
                        _ => return o,
                    };
                } else {
                    let both = r.chance(0.2);
                    let first = r.chance(0.5);
                    if first || both {
                        if let Some(q) = open(&c.a, r) {
                            c.a = q;
                        }
                    }
                    if !first || both {
                        if let Some(q) = open(&c.b, r) {
                            c.b = q;
                        }
                    }
                    if open_ends(&c.a).is_empty() && open_ends(&c.b).is_empty() {
                        return o;
                    }
                    want = Want::Open;
                }
                let mut ends = open_ends(&c.a);
                ends.extend(open_ends(&c.b));
                o.nontrivial = Some(hash_str(&show(&c)));
                o.count(
                    match want {
                        Want::NaN => "inputs with a NaN",
                        Want::Inf => "inputs with an infinity",
                        Want::Either => "inputs with both",
                        Want::Open => "inputs with an open subpath",
                    },
                    1,
                );
                let mut check = |name: &str, res: Result<Result<(), Error>, run::Panic>| {
                    o.evals += 1;
                    let ok = match &res {
                        Ok(x) => judge(want, x, &ends),
                        Err(_) => false,
                    };
                    if !ok {
                        what = format!("{name} gave {res:?}, expected {want:?} {ends:?} | {op:?} {rule:?} {}", show(&c));
                        o.violate(format!("{name}-{:016x}", hash_str(&show(&c))), what.clone());
                    }
                };
                check("binary_op", run::guarded(|| binary_op(&c.a, &c.b, rule, op).map(|_| ())));
                let e = c.eps();
                let e = if e.is_finite() { e } else { 1e-3 };
                check("binary_op_with_eps", run::guarded(|| binary_op_with_eps(&c.a, &c.b, rule, op, e).map(|_| ())));
                if want == Want::Open {
                    check("from_paths_binary", run::guarded(|| conv(Topology::from_paths_binary(&c.a, &c.b, e).map(|_| ()))));
                    check(
                        "from_paths",
                        run::guarded(|| conv(Topology::<i32>::from_paths([(&c.a, ()), (&c.b, ())], e).map(|_| ()))),
                    );
                    for p in [&c.a, &c.b] {
                        if open_ends(p).is_empty() {
                            continue;
                        }
                        check("from_path", run::guarded(|| conv(Topology::from_path(p, e).map(|_| ()))));
                        check("add_bez_path", run::guarded(|| conv(Segments::default().add_bez_path(p))));
                    }
                }
            }
            _ => {
                let c = base;
                let eq = gen::Case { a: equivalent(&c.a, r), b: equivalent(&c.b, r), ..c.clone() };
                o.nontrivial = Some(hash_str(&c.describe()));
                // The automatic eps depends on bare moves, too.
                let e = c.eps();
                for (name, auto) in [("equivalent", false), ("equivalent-auto", true)] {
                    if auto && (c.eps.is_some() || auto_eps_differs(&c, &eq)) {
                        continue;
                    }
                    let f = |c: &gen::Case| {
                        run::guarded(|| match auto {
                            true => binary_op(&c.a, &c.b, rule, op),
                            false => binary_op_with_eps(&c.a, &c.b, rule, op, e),
                        })
                        .map(|r| r.map(|x| digest(&x)))
                    };
                    let (x, y) = (f(&c), f(&eq));
                    o.evals += 1;
                    match (&x, &y) {
                        (Ok(Ok(x)), Ok(Ok(y))) if x == y => {}
                        _ => o.violate(
                            format!("{name}-{:016x}", hash_str(&show(&eq))),
                            format!("equivalent presentations gave {x:?} and {y:?} | {op:?} {rule:?} {} | {}", c.describe(), show(&eq)),
                        ),
                    }
                    o.count("equivalent presentations compared", 1);
                }
            }
        }
        if i % 9973 == 500 {
            o.sample = Some(base_sample(seed, i));
        }
        o
    });
    Report {
        agg,
        rule: "Cases of the common workload, corrupted: one to three coordinates (end points, control points, bare moves; either path) replaced by NaN or infinities, or one or two subpaths opened by gaps from 1e-12 of the size upwards; every entry point must report the expected error, with the end points of an open subpath where that applies. Every third case is a valid input in another presentation (closed by coordinates, by a close command, by both, with bare moves) whose result must be bit-identical. Non-trivial: a corrupted or re-presented input was run.".into(),
        assumptions: vec![],
        runaway_is_violation: false,
        describe: Box::new(move |i| base_sample(seed, i)),
    }
}

fn base_sample(seed: u64, i: u64) -> String {
    format!("(corruption of) {}", gen::workload(seed, i).describe())
}

fn auto_eps_differs(c: &gen::Case, d: &gen::Case) -> bool {
    use kurbo::Shape;
    c.a.bounding_box().union(c.b.bounding_box()) != d.a.bounding_box().union(d.b.bounding_box())
}

fn conv<E: Into<Error>>(x: Result<(), E>) -> Result<(), Error> {
    x.map_err(|e| e.into())
}
