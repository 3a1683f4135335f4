//! C16: quadratic sign analysis and parabola bounds are sound.
use super::*;
use crate::{driver::*, pairs, rng::Rng, run};
use kurbo::{CubicBez, ParamCurve, Point, QuadBez};
use linesweeper::curve::{quad_parameters, EstParab, Quadratic};

type Fail = (&'static str, String);

/// A number of any size.
fn num(r: &mut Rng, range: f64) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, 2.0, -0.5, -0.0]),
        2 => r.range(-1.0, 1.0),
        _ => 10f64.powf(r.range(-range, range)) * if r.chance(0.5) { 1.0 } else { -1.0 },
    }
}

fn quadratic(r: &mut Rng) -> Quadratic {
    let range = *r.pick(&[0.5, 3.0, 8.0, 50.0]);
    let q = match r.below(6) {
        0 | 1 => Quadratic { c2: num(r, range), c1: num(r, range), c0: num(r, range) },
        2 | 3 => {
            // With given roots, maybe almost equal ones.
            let s = num(r, range.min(20.0));
            let r1 = num(r, range.min(20.0));
            let r2 = match r.below(3) {
                0 => num(r, range.min(20.0)),
                1 => r1 * (1.0 + r.int(-40, 40) as f64 * f64::EPSILON),
                _ => r1 * (1.0 + 10f64.powf(r.range(-12.0, -1.0))),
            };
            Quadratic { c2: s, c1: -s * (r1 + r2), c0: s * r1 * r2 }
        }
        4 => {
            // Almost linear or constant.
            let (a, b, c) = (num(r, 3.0), num(r, 3.0), num(r, 3.0));
            let k = *r.pick(&[0.0, 1e-8, 1e-15, 1e-17, 1e-30, 1e-100]);
            // (If everything is this small, squares underflow.)
            let tiny = *r.pick(&[k, k, 1e-155, 1e-180, 1e-250]);
            match r.below(3) {
                0 => Quadratic { c2: a * tiny, c1: b, c0: c },
                1 => Quadratic { c2: a * k, c1: b * k.sqrt(), c0: c },
                _ => Quadratic { c2: a, c1: b * k, c0: c * k },
            }
        }
        _ => {
            // So big that squares overflow.
            let k = 10f64.powf(r.range(100.0, 307.0));
            let mut f = || if r.chance(0.2) { 0.0 } else { r.range(-1.0, 1.0) * if r.chance(0.7) { k } else { 1.0 } };
            Quadratic { c2: f(), c1: f(), c0: f() }
        }
    };
    if [q.c0, q.c1, q.c2].iter().all(|c| c.is_finite()) {
        q
    } else {
        Quadratic { c2: 0.0, c1: 0.0, c0: 0.0 }
    }
}

/// The value at t, and the largest number used to calculate it.
fn value(q: &Quadratic, t: f64) -> (f64, f64) {
    // Scaled, so that nothing overflows.
    let k = q.max_coeff().max(1e-300);
    let (a, b, c) = (q.c2 / k, q.c1 / k, q.c0 / k);
    if t.abs() <= 1.0 {
        ((a * t + b) * t + c, (a * t * t).abs() + (b * t).abs() + c.abs())
    } else {
        // Divided by t^2.
        let u = 1.0 / t;
        ((c * u + b) * u + a, a.abs() + (b * u).abs() + (c * u * u).abs())
    }
}

fn signs(q: &Quadratic, r: &mut Rng, o: &mut Outcome) -> Result<(), Fail> {
    let s = q.signs();
    let bad = |m: String| ("signs", format!("{m}: {s:?}"));
    o.evals += 1;
    if s.smaller_root.is_nan() || s.bigger_root.is_nan() || s.initial_sign.is_nan() || !(s.smaller_root <= s.bigger_root) {
        return Err(bad("not in order".into()));
    }
    let mut ts = vec![0.0, 1.0, -1.0, 1e-3, -1e3, 1e30, -1e30, 1e-30];
    for x in [s.smaller_root, s.bigger_root, -q.c1 / (2.0 * q.c2), -q.c0 / q.c1, 0.5 * (s.smaller_root + s.bigger_root)] {
        if x.is_finite() {
            let d = 10f64.powf(r.range(-12.0, 3.0));
            ts.extend([x, x * (1.0 + d), x * (1.0 - d), x + 1.0, x - 1.0, x + d, x - d]);
        }
    }
    for _ in 0..6 {
        ts.push(num(r, 40.0));
        ts.push(num(r, 3.0));
    }
    let mut clear = 0;
    for t in ts {
        if !t.is_finite() || t.abs() > 1e140 {
            continue;
        }
        let (v, m) = value(q, t);
        // Not clearly away from the roots.
        if v.abs() <= 1e-11 * m || m < 1e-290 {
            continue;
        }
        clear += 1;
        o.evals += 1;
        let want = if t < s.smaller_root || t > s.bigger_root {
            s.initial_sign
        } else if t > s.smaller_root && t < s.bigger_root {
            -s.initial_sign
        } else {
            return Err(bad(format!("it's {v} at the root {t}")));
        };
        if want == 0.0 || want.signum() != v.signum() {
            return Err(bad(format!("it's {v} (relative to {m}) at {t}")));
        }
        // Evaluating it.
        let e = q.eval(t);
        let big = q.c2.abs() * t * t + (q.c1 * t).abs() + q.c0.abs();
        if big.is_finite() && big > 1e-290 {
            o.evals += 1;
            if (e - ((q.c2 * t + q.c1) * t + q.c0)).abs() > 1e-14 * big {
                return Err(("eval", format!("it evaluates to {e} at {t}")));
            }
        }
        // Moved sideways and up.
        let d = num(r, 3.0);
        let (sh, u) = (q.shift(d), *q + d);
        let x = t + d;
        let big = q.c2.abs() * (x * x + d * d) + q.c1.abs() * (x.abs() + d.abs()) + q.c0.abs() + 2.0 * (q.c2 * d * x).abs();
        if big.is_finite() && big > 1e-290 {
            o.evals += 2;
            let want = (q.c2 * (x - d) + q.c1) * (x - d) + q.c0;
            if (sh.eval(x) - want).abs() > 1e-13 * big {
                return Err(("shift", format!("shifted by {d}, it evaluates to {} at {x}, not {want}", sh.eval(x))));
            }
            if u.c2 != q.c2 || u.c1 != q.c1 || u.c0 != q.c0 + d {
                return Err(("add", format!("{d} added is {u:?}")));
            }
        }
    }
    o.count("places clearly away from the roots", clear);
    o.evals += 1;
    let m = q.c0.abs().max(q.c1.abs()).max(q.c2.abs());
    if q.max_coeff() != m {
        return Err(("max_coeff", format!("max_coeff is {}", q.max_coeff())));
    }
    Ok(())
}

fn parabola(c: &CubicBez, line: bool, r: &mut Rng, o: &mut Outcome) -> Result<(), Fail> {
    let e = EstParab::from_cubic(*c);
    let bad = |m: String| ("parabola", format!("{m}: {e:?}"));
    o.evals += 1;
    if !(e.dmin <= 0.0 && e.dmax >= 0.0) {
        return Err(bad("not around zero".into()));
    }
    let mag = pairs::mag(c);
    let ym = c.p0.y.abs().max(c.p3.y.abs());
    // Rounding while calculating the coefficients (from differences of squares) and using them.
    let big = e.c0.abs() + e.c1.abs() * ym + e.c2.abs() * ym * ym + mag;
    let f = 1e-9 * big;
    let par = |y: f64| e.c0 + e.c1 * y + e.c2 * y * y;
    let (mut lo, mut hi) = (0.0f64, 0.0f64);
    for k in 0..30 {
        let t = match k {
            0 => 0.0,
            1 => 1.0,
            2..=15 => (k - 1) as f64 / 15.0,
            // Right next to the ends.
            16..=18 => 10f64.powf(r.range(-5.0, -1.0)),
            19..=21 => 1.0 - 10f64.powf(r.range(-5.0, -1.0)),
            _ => r.f(),
        };
        let p = c.eval(t);
        let d = p.x - par(p.y);
        lo = lo.min(d);
        hi = hi.max(d);
        o.evals += 1;
        if t == 0.0 || t == 1.0 {
            if d.abs() > f {
                return Err(bad(format!("off by {d} at the end {p}")));
            }
        }
        if !(e.dmin - f <= d && d <= e.dmax + f) {
            return Err(bad(format!("off by {d} at {p} (rounding is {f})")));
        }
    }
    if hi - lo > f {
        o.count("parabolas that deviate", 1);
    }
    // Lines have no deviation.
    if line {
        o.evals += 1;
        if e.dmax - e.dmin > 4.0 * f {
            return Err(bad("a line deviates".into()));
        }
    }
    Ok(())
}

/// A cubic that is a parabola.
fn exact(r: &mut Rng, o: &mut Outcome) -> Result<(), Fail> {
    let q = Quadratic { c2: num(r, 2.0), c1: num(r, 2.0), c0: num(r, 2.0) };
    let h = 10f64.powf(r.range(-3.0, 2.0));
    let (a, b) = (-h, h * r.range(0.3, 1.0));
    let x = |y: f64| q.c2 * y * y + q.c1 * y + q.c0;
    let m = 0.5 * (a + b);
    let ctrl = Point::new(x(a) + (2.0 * q.c2 * a + q.c1) * (m - a), m);
    let c = QuadBez::new(Point::new(x(a), a), ctrl, Point::new(x(b), b)).raise();
    let e = EstParab::from_cubic(c);
    let f = 1e-8 * (pairs::mag(&c) + q.c0.abs());
    o.evals += 1;
    for k in 0..=8 {
        let y = a + (b - a) * k as f64 / 8.0;
        let d = (e.c0 + e.c1 * y + e.c2 * y * y - x(y)).abs();
        if d > f || e.dmin < -f || e.dmax > f {
            return Err(("exact", format!("{q:?} in {a}..{b} is estimated as {e:?}")));
        }
    }
    Ok(())
}

fn params(r: &mut Rng, o: &mut Outcome) -> Result<(), Fail> {
    let mut p = || Point::new(num(r, 4.0), num(r, 4.0));
    let q = QuadBez::new(p(), p(), p());
    let (a, b, c) = quad_parameters(q);
    for k in 0..=6 {
        let t = k as f64 / 6.0;
        let want = q.eval(t);
        let got = a + b * t + c * (t * t);
        let m = [q.p0, q.p1, q.p2].iter().map(|p| p.to_vec2().hypot()).fold(0.0, f64::max);
        o.evals += 1;
        if (got - want.to_vec2()).hypot() > 1e-13 * m {
            return Err(("params", format!("{q:?} has parameters {a} {b} {c}, giving {got} at {t}, not {want}")));
        }
    }
    Ok(())
}

/// Something to look at; centred curves are how estimates are used.
fn curve(r: &mut Rng) -> (CubicBez, bool) {
    let size = pairs::size(r);
    let (mut c, mut l) = pairs::curve(r, size);
    // A tiny handle, so that there's a sharp bend right next to an end.
    if r.chance(0.2) {
        let b = c;
        let k = 10f64.powf(r.range(-5.0, 0.0));
        if r.chance(0.5) {
            c.p1 = c.p0 + (c.p1 - c.p0) * k;
        } else {
            c.p2 = c.p3 + (c.p2 - c.p3) * k;
        }
        if pairs::is_monotone(&c) {
            l = false;
        } else {
            c = b;
        }
    }
    let scale = match r.below(3) {
        0 => 1.0,
        1 => 1.0 / (c.p3.y - c.p0.y),
        _ => 1.0 / (c.p3.y - c.p0.y).max(1.0),
    };
    let m = 0.5 * (c.p0.y + c.p3.y);
    let f = |p: Point| Point::new(p.x, (p.y - m) * scale);
    let d = CubicBez::new(f(c.p0), f(c.p1), f(c.p2), f(c.p3));
    if r.chance(0.9) && pairs::is_monotone(&d) {
        (d, l)
    } else {
        (c, l)
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(3_000_000, 150_000_000), move |i| {
        let mut o = Outcome::default();
        let mut r = Rng::new(seed, 16, i);
        let mut desc = String::new();
        let res = run::guarded(|| {
            if i % 2 == 0 {
                let q = quadratic(&mut r);
                desc = format!("{q:?}");
                signs(&q, &mut r, &mut o)
            } else {
                let (c, l) = curve(&mut r);
                desc = pairs::show(&c, l);
                parabola(&c, l, &mut r, &mut o)?;
                exact(&mut r, &mut o)?;
                params(&mut r, &mut o)
            }
        });
        let sig = |what: &str| format!("{what}-{:016x}", hash_str(&desc));
        match res {
            Ok(Ok(())) => {}
            Ok(Err((what, m))) => o.violate(sig(what), format!("{m} | {desc}")),
            Err(e) => o.violate(sig("panic"), format!("panic at {}: {} | {desc}", e.loc, e.msg)),
        }
        o.nontrivial = Some(hash_str(&desc));
        if i % 99_991 == 5 {
            o.sample = Some(desc);
        }
        o
    });
    Report {
        agg,
        rule: "Quadratics: coefficients of independent magnitudes (1e-50 to 1e50), with given, equal or almost equal roots, almost linear or constant, exactly so, and so big that squares overflow. At about forty places (around the roots and the extremum, on a logarithmic scale, random) where the value is more than 1e-11 of the terms it is made of, its sign has to be the one that the roots and the initial sign tell; values, shifted and raised quadratics against direct evaluation. Monotone curves as in C11 (mostly centred vertically, some scaled to unit height, some with a sharp bend next to an end): the parabola agrees at the ends and deviates at 30 places (some right next to the ends) by no more than stated, up to 1e-9 of the numbers it is made of; lines and curves that are parabolas have no deviation; quadratic Béziers against their polynomial form. An evaluation is one of these. Non-trivial: every input.".into(),
        assumptions: vec!["kurbo's evaluation of curves".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| format!("input {i} of seed {seed}")),
    }
}
