//! C15: solving a curve for a given height is accurate.
use super::*;
use crate::{driver::*, pairs, rng::Rng, run};
use kurbo::{CubicBez, ParamCurve};
use linesweeper::{curve, Segment};

/// Coordinates are right up to this relative to the largest one.
const FP: f64 = 1e-11;

fn up(x: f64, n: i64) -> f64 {
    let mut y = x;
    for _ in 0..n.abs() {
        y = if n > 0 { y.next_up() } else { y.next_down() };
    }
    y
}

/// Heights of a curve, the awkward ones too.
fn heights(c: &CubicBez, r: &mut Rng) -> Vec<f64> {
    let (a, b) = (c.p0.y, c.p3.y);
    let h = b - a;
    let mut ys = vec![a, b, c.p1.y, c.p2.y, 0.5 * (a + b), a + r.f() * h, a + r.f() * h];
    ys.extend([up(a, 1 + r.below(4) as i64), up(b, -1 - r.below(4) as i64)]);
    ys.extend([a + h * 10f64.powf(r.range(-15.0, 0.0)), b - h * 10f64.powf(r.range(-15.0, 0.0))]);
    // Flat inner parts.
    let q = [c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y];
    let t = (q[0] - q[1]) / (q[0] - 2.0 * q[1] + q[2]);
    if t > 0.0 && t < 1.0 {
        let y = c.eval(t).y;
        ys.extend([y, y + h * 1e-12, y - h * 1e-9]);
    }
    ys.retain(|y| a <= *y && *y <= b);
    ys
}

type Fail = (&'static str, String);

fn check(c: &CubicBez, line: bool, r: &mut Rng, o: &mut Outcome) -> Result<(), Fail> {
    let mag = pairs::mag(c);
    let f = FP * mag;
    let ys = heights(c, r);
    let max = |o: &mut Outcome, k: &'static str, v: f64| o.count(k, (v / mag * 1e18) as u64);
    // Is x right for y, with both known up to rounding?
    let on = |x: f64, y: f64| {
        let (lo, hi) = pairs::x_range(c, line, y - f, y + f);
        lo - f <= x && x <= hi + f
    };
    for &y in &ys {
        let t = curve::solve_t_for_y(*c, y);
        o.evals += 3;
        if !(0.0..=1.0).contains(&t) {
            return Err(("t", format!("the parameter for {y} is {t}")));
        }
        let p = c.eval(t);
        max(o, "max:height error, 1e-18", (p.y - y).abs());
        if !((p.y - y).abs() <= f) {
            return Err(("y", format!("at the parameter {t} for {y} the height is {}", p.y)));
        }
        let x = curve::solve_x_for_y(*c, y);
        if !on(x, y) || (x - p.x).abs() > f {
            return Err(("x", format!("x at {y} is {x}, at the parameter {t} it is {}, it should be {:?}", p.x, pairs::x_range(c, line, y - f, y + f))));
        }
    }
    // The ends, exactly.
    o.evals += 2;
    let (t0, t1) = (curve::solve_t_for_y(*c, c.p0.y), curve::solve_t_for_y(*c, c.p3.y));
    if t0 != 0.0 || t1 != 1.0 {
        return Err(("ends", format!("the ends have parameters {t0} and {t1}")));
    }
    if curve::solve_x_for_y(*c, c.p0.y) != c.p0.x || curve::solve_x_for_y(*c, c.p3.y) != c.p3.x {
        return Err(("ends", "x at the ends".into()));
    }
    // Parts.
    for _ in 0..3 {
        let (a, b) = (*r.pick(&ys), *r.pick(&ys));
        let (a, b) = (a.min(b), a.max(b));
        if a == b {
            continue;
        }
        let s = curve::y_subsegment(*c, a, b);
        o.evals += 3;
        if s.p0.y != a || s.p3.y != b {
            return Err(("part", format!("the part of {a}..{b} reaches from {} to {}", s.p0.y, s.p3.y)));
        }
        if !on(s.p0.x, a) || !on(s.p3.x, b) {
            return Err(("part", format!("the part of {a}..{b} is {}", pairs::show(&s, false))));
        }
        let mut last = f64::NEG_INFINITY;
        for k in 0..=8 {
            let p = s.eval(k as f64 / 8.0);
            o.evals += 1;
            if !on(p.x, p.y) || p.y < a - f || p.y > b + f || p.y < last - f {
                return Err(("part", format!("the part of {a}..{b} is {}, which has a point {p}", pairs::show(&s, false))));
            }
            last = p.y;
        }
        // Between them, it's all of the curve there.
        let y = a + r.f() * (b - a);
        let (lo, hi) = pairs::x_range(&s, false, y - f, y + f);
        let (l2, h2) = pairs::x_range(c, line, y - f, y + f);
        o.evals += 1;
        if lo > h2 + f || hi < l2 - f {
            return Err(("part", format!("the part of {a}..{b} is {}, which is wrong at {y}", pairs::show(&s, false))));
        }
    }
    // As segments.
    let seg = if line { Segment::straight(c.p0.into(), c.p3.into()) } else { Segment::from_kurbo_cubic(*c) };
    let (x0, x1) = pairs::x_range(c, line, c.p0.y, c.p3.y);
    let hull = [c.p0.x, c.p1.x, c.p2.x, c.p3.x];
    let (h0, h1) = (hull.iter().copied().fold(f64::INFINITY, f64::min), hull.iter().copied().fold(f64::NEG_INFINITY, f64::max));
    o.evals += 4;
    if !(h0 - f <= seg.min_x() && seg.min_x() <= x0 + f && x1 - f <= seg.max_x() && seg.max_x() <= h1 + f) {
        return Err(("extent", format!("min_x {} max_x {}, but it reaches from {x0} to {x1} and its control points from {h0} to {h1}", seg.min_x(), seg.max_x())));
    }
    if seg.start() != c.p0.into() || seg.end() != c.p3.into() || seg.is_line() != line || seg.is_horizontal() {
        return Err(("segment", format!("the segment is {seg:?}, line {}, horizontal {}", seg.is_line(), seg.is_horizontal())));
    }
    let k = seg.to_kurbo_cubic();
    if (k.p1 - c.p1).hypot().max((k.p2 - c.p2).hypot()) > f || k.p0 != c.p0 || k.p3 != c.p3 {
        return Err(("segment", format!("the segment is {k:?}")));
    }
    let eps = mag * 10f64.powf(r.range(-9.0, -1.0));
    for &y in &ys {
        o.evals += 3;
        let x = seg.at_y(y);
        if !on(x, y) {
            return Err(("at_y", format!("x at {y} is {x}")));
        }
        // The ends of the curve and a small square, added up, at this height.
        for (what, got, side) in [("lower", seg.lower(y, eps), 0), ("upper", seg.upper(y, eps), 1)] {
            let bound = |d: f64| {
                let (lo, hi) = pairs::x_range(c, line, y - eps - d, y + eps + d);
                if side == 0 { lo - eps } else { hi + eps }
            };
            let (u, v) = (bound(-f), bound(f));
            if !(u.min(v) - f <= got && got <= u.max(v) + f) {
                return Err((what, format!("{what}({y}, {eps}) is {got}, it should be {u}..{v}")));
            }
        }
    }
    o.count("heights", ys.len() as u64);
    Ok(())
}

fn input(seed: u64, i: u64) -> (CubicBez, bool, Rng) {
    let mut r = Rng::new(seed, 15, i);
    let size = if r.chance(0.1) { 10f64.powf(r.range(-9.0, 9.0)) } else { pairs::size(&mut r) };
    let (mut c, l) = pairs::curve(&mut r, size);
    if i % 5 == 0 {
        // As the crate's own generator makes them.
        let b = r.bytes(64);
        if let Ok(a) = linesweeper::arbitrary::monotonic_bezier(&mut arbitrary::Unstructured::new(&b)) {
            if a.p0.y < a.p3.y {
                return (a, false, r);
            }
        }
    }
    if r.chance(0.15) {
        let v = kurbo::Vec2::new(size * r.range(-1e4, 1e4), size * r.range(-1e4, 1e4));
        let d = CubicBez::new(c.p0 + v, c.p1 + v, c.p2 + v, c.p3 + v);
        if pairs::is_monotone(&d) {
            c = if l { pairs::line(d.p0, d.p3) } else { d };
        }
    }
    (c, l, r)
}

fn describe(seed: u64, i: u64) -> String {
    let (c, l, _) = input(seed, i);
    pairs::show(&c, l)
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(300_000, 30_000_000), move |i| {
        let mut o = Outcome::default();
        let (c, l, mut r) = input(seed, i);
        let desc = pairs::show(&c, l);
        let sig = |what: &str| format!("{what}-{:016x}", hash_str(&desc));
        match run::guarded(|| check(&c, l, &mut r, &mut o)) {
            Ok(Ok(())) => {}
            Ok(Err((what, m))) => o.violate(sig(what), format!("{m} | {desc}")),
            Err(e) => o.violate(sig("panic"), format!("panic at {}: {} | {desc}", e.loc, e.msg)),
        }
        o.nontrivial = Some(hash_str(&desc));
        if i % 99_991 == 5 {
            o.sample = Some(desc);
        }
        o
    });
    Report {
        agg,
        rule: "Monotone curves and lines as in C11 and from the crate's own generator, at magnitudes 1e-9 to 1e9, some far from the origin. At each of about a dozen heights (ends, a few units in the last place from the ends, near the ends on a logarithmic scale, at control points, in flat inner parts, random): the parameter is in 0..1 and gives this height; x is the curve's at this height (found by bisection); the ends give exactly 0 and 1. Parts between two of these heights start and end exactly there, at the curve's position, and all of their points are on the curve. For the segment: at_y, min_x and max_x between the curve's and its control points' extent, lower and upper against the extremes of the curve within eps of height. Everything up to 1e-11 of the largest coordinate, in x and y. An evaluation is one of these facts. Non-trivial: every curve.".into(),
        assumptions: vec!["the harness's own evaluation of curves by bisection".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| describe(seed, i)),
    }
}
