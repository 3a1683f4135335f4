//! Curves that run from top to bottom, and pairs of them with something in common.
use crate::rng::Rng;
use kurbo::{CubicBez, ParamCurve, Point};

/// One of several awkward sizes in 0..1.
fn frac(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => *r.pick(&[0.25, 1.0 / 3.0, 0.5, 2.0 / 3.0, 0.75]),
        3 => 10f64.powf(r.range(-8.0, 0.0)),
        _ => r.f(),
    }
}

/// Heights of the control points of a monotone curve from 0 to 1.
fn heights(r: &mut Rng) -> (f64, f64) {
    let q0 = if r.chance(0.15) { 0.0 } else { frac(r) };
    let q2 = if r.chance(0.15) { 0.0 } else { frac(r) };
    let least = -(q0 * q2).sqrt();
    let q1 = match r.below(5) {
        // The curve is almost horizontal somewhere inside.
        0 => least * r.range(0.99, 0.999_999),
        1 => least * r.f(),
        _ => frac(r),
    };
    let s = q0 + q1 + q2;
    if s <= 1e-9 || !(s > 0.0) {
        return (1.0 / 3.0, 2.0 / 3.0);
    }
    (q0 / s, ((q0 + q1) / s).min(1.0))
}

/// Is the curve increasing in y (up to rounding)?
pub fn is_monotone(c: &CubicBez) -> bool {
    let (q0, q1, q2) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y);
    c.p0.y < c.p3.y && q0 >= 0.0 && q2 >= 0.0 && (q1 >= 0.0 || q1 * q1 <= q0 * q2 * 0.999_999)
}

pub struct Pair {
    pub c: [CubicBez; 2],
    pub line: [bool; 2],
    pub how: &'static str,
}

impl Pair {
    /// The size of the largest coordinate.
    pub fn mag(&self) -> f64 {
        self.c.iter().map(mag).fold(0.0, f64::max)
    }
    pub fn describe(&self) -> String {
        format!("{} {}", show(&self.c[0], self.line[0]), show(&self.c[1], self.line[1]))
    }
}

pub fn show(c: &CubicBez, line: bool) -> String {
    if line {
        format!("[{:?},{:?} -- {:?},{:?}]", c.p0.x, c.p0.y, c.p3.x, c.p3.y)
    } else {
        format!("[{:?},{:?} {:?},{:?} {:?},{:?} {:?},{:?}]", c.p0.x, c.p0.y, c.p1.x, c.p1.y, c.p2.x, c.p2.y, c.p3.x, c.p3.y)
    }
}

pub fn mag(c: &CubicBez) -> f64 {
    [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max)
}

pub fn line(p0: Point, p3: Point) -> CubicBez {
    // As Segment::to_kurbo_cubic does it.
    CubicBez::new(p0, p0 + (1. / 3.) * (p3 - p0), p0 + (2. / 3.) * (p3 - p0), p3)
}

/// A curve of about the given size.
pub fn curve(r: &mut Rng, size: f64) -> (CubicBez, bool) {
    loop {
        // Height and width.
        let (h, w) = match r.below(8) {
            // almost horizontal
            0 => (size * 10f64.powf(r.range(-7.0, -1.0)), size),
            // almost vertical
            1 => (size, size * 10f64.powf(r.range(-9.0, -1.0))),
            2 => (size * 10f64.powf(r.range(-4.0, 0.0)), size * 10f64.powf(r.range(-4.0, 0.0))),
            _ => (size, size),
        };
        let x0 = r.range(-size, size);
        let y0 = match r.below(4) {
            0 => 0.0,
            1 => r.range(-size, size).round(),
            _ => r.range(-size, size),
        };
        let x = |r: &mut Rng| match r.below(6) {
            0 => x0,
            1 => x0 + w,
            2 => x0 - w,
            _ => x0 + w * r.range(-1.0, 1.0),
        };
        let (p0, p3) = (Point::new(x(r), y0), Point::new(x(r), y0 + h));
        if !(p3.y > p0.y) {
            continue;
        }
        if r.chance(0.25) {
            return (line(p0, p3), true);
        }
        let (h1, h2) = heights(r);
        let mut c = CubicBez::new(p0, Point::new(x(r), y0 + h1 * h), Point::new(x(r), y0 + h2 * h), p3);
        c.p1.y = c.p1.y.max(p0.y);
        c.p2.y = c.p2.y.min(p3.y);
        match r.below(12) {
            0 => c.p1 = c.p0,
            1 => c.p2 = c.p3,
            2 => c = line(p0, p3),
            // Quadratic
            3 => {
                let q = Point::new(x(r), y0 + frac(r) * h);
                c.p1 = p0 + (q - p0) * (2.0 / 3.0);
                c.p2 = p3 + (q - p3) * (2.0 / 3.0);
            }
            // A quarter of an ellipse
            4 => {
                let k = 0.5522847498307936;
                c.p1 = Point::new(p0.x, y0 + k * h);
                c.p2 = Point::new(p3.x + (p0.x - p3.x) * k, p3.y);
            }
            _ => {}
        }
        if is_monotone(&c) {
            return (c, false);
        }
    }
}

fn jitter(r: &mut Rng, c: &CubicBez, d: f64) -> CubicBez {
    let mut j = |p: Point| Point::new(p.x + d * r.range(-1.0, 1.0), p.y + d * r.range(-1.0, 1.0));
    CubicBez::new(j(c.p0), j(c.p1), j(c.p2), j(c.p3))
}

/// A pair of curves with common heights; `tol` is the tolerance they'll be compared with.
pub fn pair(r: &mut Rng, size: f64, tol: f64) -> Pair {
    loop {
        let (a, la) = curve(r, size);
        let shift = |c: &CubicBez, dx: f64, dy: f64| {
            let v = kurbo::Vec2::new(dx, dy);
            CubicBez::new(c.p0 + v, c.p1 + v, c.p2 + v, c.p3 + v)
        };
        let by = |r: &mut Rng| tol * *r.pick(&[0.0, 0.3, 0.49, 0.51, 0.9, 1.0, 1.1, 1.49, 1.51, 2.0, 3.0, 10.0]) * if r.chance(0.5) { 1.0 } else { -1.0 };
        let (b, lb, how) = match r.below(12) {
            0 => (shift(&a, by(r), 0.0), la, "moved sideways"),
            1 => {
                let (dx, dy) = (by(r), by(r));
                (shift(&a, dx, dy), la, "moved")
            }
            2 if !la => {
                let (t0, t1) = (r.f() * 0.5, 0.5 + 0.5 * r.f());
                let p = a.subsegment(t0..t1);
                (shift(&p, by(r), 0.0), false, "a part of it")
            }
            3 => {
                let (mut b, l) = curve(r, size);
                b = shift(&b, a.p0.x - b.p0.x, a.p0.y - b.p0.y);
                b.p0 = a.p0;
                (if l { line(b.p0, b.p3) } else { b }, l, "from the same point")
            }
            4 => {
                let (mut b, l) = curve(r, size);
                b = shift(&b, a.p3.x - b.p3.x, a.p3.y - b.p3.y);
                b.p3 = a.p3;
                (if l { line(b.p0, b.p3) } else { b }, l, "to the same point")
            }
            5 => {
                let d = tol * 10f64.powf(r.range(-3.0, 1.5));
                (jitter(r, &a, d), false, "a little different")
            }
            6 => {
                // Mirrored in a vertical axis through one of its points.
                let x = 2.0 * a.eval(r.f()).x;
                let m = |p: Point| Point::new(x - p.x, p.y);
                (CubicBez::new(m(a.p0), m(a.p1), m(a.p2), m(a.p3)), la, "mirrored")
            }
            7 => {
                // Its chord, or the chord of a part.
                let (t0, t1) = if r.chance(0.5) { (0.0, 1.0) } else { (r.f() * 0.5, 0.5 + 0.5 * r.f()) };
                (line(a.eval(t0), a.eval(t1)), true, "its chord")
            }
            8 => {
                // Crossing it at some point.
                let (b, l) = curve(r, size);
                let (p, q) = (a.eval(r.f()), b.eval(r.f()));
                (shift(&b, p.x - q.x, p.y - q.y), false && l, "crossing it")
            }
            9 => {
                // Its tangent.
                let t = r.f();
                let (p, q) = (a.eval((t - 1e-4f64).max(0.0)), a.eval((t + 1e-4f64).min(1.0)));
                let d = (q - p) * 10f64.powf(r.range(0.0, 4.0));
                let m = a.eval(t) + kurbo::Vec2::new(by(r), 0.0);
                (line(m - d, m + d), true, "its tangent")
            }
            10 => {
                // End to end, or almost.
                let (b, l) = curve(r, size);
                let d = if r.chance(0.5) { 0.0 } else { by(r).abs() };
                let mut b = shift(&b, a.p3.x - b.p0.x, a.p3.y - d - b.p0.y);
                if d == 0.0 {
                    b.p0.y = a.p3.y;
                }
                (if l { line(b.p0, b.p3) } else { b }, l, "end to end")
            }
            _ => {
                let (b, l) = curve(r, size);
                (b, l, "unrelated")
            }
        };
        if !is_monotone(&b) || b.p0.y.max(a.p0.y) > b.p3.y.min(a.p3.y) {
            continue;
        }
        let mut p = Pair { c: [a, b], line: [la, lb], how };
        if r.chance(0.5) {
            p.c.swap(0, 1);
            p.line.swap(0, 1);
        }
        return p;
    }
}

/// x at height y, which is clamped to the curve's range.
pub fn x_at(c: &CubicBez, line: bool, y: f64) -> f64 {
    if y <= c.p0.y {
        return c.p0.x;
    }
    if y >= c.p3.y {
        return c.p3.x;
    }
    if line {
        let t = (y - c.p0.y) / (c.p3.y - c.p0.y);
        return c.p0.x + t * (c.p3.x - c.p0.x);
    }
    c.eval(t_at(c, y)).x
}

/// The parameter for height y, found by bisection.
pub fn t_at(c: &CubicBez, y: f64) -> f64 {
    // Relative to the closer end, which is more accurate.
    let low = y - c.p0.y <= c.p3.y - y;
    let (a, b, d) = if low {
        (c.p1.y - c.p0.y, c.p2.y - c.p0.y, c.p3.y - c.p0.y)
    } else {
        (c.p3.y - c.p2.y, c.p3.y - c.p1.y, c.p3.y - c.p0.y)
    };
    let target = if low { y - c.p0.y } else { c.p3.y - y };
    let f = |t: f64| {
        let s = 1.0 - t;
        3.0 * a * t * s * s + 3.0 * b * t * t * s + d * t * t * t
    };
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if m <= lo || m >= hi {
            break;
        }
        if f(m) < target {
            lo = m;
        } else {
            hi = m;
        }
    }
    let t = 0.5 * (lo + hi);
    if low {
        t
    } else {
        1.0 - t
    }
}

/// Bounds of x between two heights.
pub fn x_range(c: &CubicBez, line: bool, y0: f64, y1: f64) -> (f64, f64) {
    let (a, b) = (x_at(c, line, y0), x_at(c, line, y1));
    let (mut lo, mut hi) = (a.min(b), a.max(b));
    if line || y1 <= y0 {
        return (lo, hi);
    }
    let t = |y: f64| if y <= c.p0.y { 0.0 } else if y >= c.p3.y { 1.0 } else { t_at(c, y) };
    let (t0, t1) = (t(y0), t(y1));
    // Extrema of x.
    let (d0, d1, d2) = (c.p1.x - c.p0.x, c.p2.x - c.p1.x, c.p3.x - c.p2.x);
    let (qa, qb, qc) = (d0 - 2.0 * d1 + d2, 2.0 * (d1 - d0), d0);
    let mut ts = vec![];
    if qa != 0.0 {
        let disc = qb * qb - 4.0 * qa * qc;
        if disc >= 0.0 {
            let q = -0.5 * (qb + disc.sqrt().copysign(qb));
            ts.extend([q / qa, qc / q]);
        }
    }
    ts.push(-qc / qb);
    for t in ts {
        if t > t0 && t < t1 {
            let x = c.eval(t).x;
            lo = lo.min(x);
            hi = hi.max(x);
        }
    }
    (lo, hi)
}

/// A magnitude.
pub fn size(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => 100.0,
        _ => 10f64.powf(r.range(-3.0, 6.0)),
    }
}
