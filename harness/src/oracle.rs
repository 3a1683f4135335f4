//! Independent geometric oracle: winding numbers, distances and scan-line
//! crossings of Bezier paths. Deliberately shares no code with linesweeper.
use kurbo::{BezPath, CubicBez, ParamCurve, PathSeg, Point};

#[derive(Clone, Copy, Debug)]
pub struct Mono {
    pub seg: usize,
    pub t0: f64,
    pub t1: f64,
    pub p0: Point,
    pub p1: Point,
    pub min_x: f64,
    pub max_x: f64,
}

#[derive(Clone, Debug, Default)]
pub struct Curves {
    pub segs: Vec<CubicBez>,
    pub is_line: Vec<bool>,
    pub boxes: Vec<(f64, f64, f64, f64)>,
    pub monos: Vec<Mono>,
    /// The y-interval in which a mono piece may fail to be monotone, i.e. numerical slack.
    pub scale: f64,
}

pub fn to_cubic(s: PathSeg) -> (CubicBez, bool) {
    match s {
        PathSeg::Line(l) => (
            CubicBez::new(l.p0, l.p0.lerp(l.p1, 1.0 / 3.0), l.p0.lerp(l.p1, 2.0 / 3.0), l.p1),
            true,
        ),
        PathSeg::Quad(q) => (q.raise(), false),
        PathSeg::Cubic(c) => (c, false),
    }
}

pub fn cubic_box(c: &CubicBez) -> (f64, f64, f64, f64) {
    let x0 = c.p0.x.min(c.p1.x).min(c.p2.x).min(c.p3.x);
    let x1 = c.p0.x.max(c.p1.x).max(c.p2.x).max(c.p3.x);
    let y0 = c.p0.y.min(c.p1.y).min(c.p2.y).min(c.p3.y);
    let y1 = c.p0.y.max(c.p1.y).max(c.p2.y).max(c.p3.y);
    (x0, y0, x1, y1)
}

fn box_dist(b: &(f64, f64, f64, f64), p: Point) -> f64 {
    let dx = (b.0 - p.x).max(p.x - b.2).max(0.0);
    let dy = (b.1 - p.y).max(p.y - b.3).max(0.0);
    dx.hypot(dy)
}

/// Roots in (0,1) of the derivative of a cubic Bernstein polynomial.
fn deriv_roots(a: f64, b: f64, c: f64, d: f64) -> Vec<f64> {
    let d0 = b - a;
    let d1 = c - b;
    let d2 = d - c;
    // d0 (1-t)^2 + 2 d1 t (1-t) + d2 t^2
    let qa = d0 - 2.0 * d1 + d2;
    let qb = 2.0 * (d1 - d0);
    let qc = d0;
    let mut roots = vec![];
    let m = qa.abs().max(qb.abs()).max(qc.abs());
    if m == 0.0 {
        return roots;
    }
    if qa.abs() < 1e-14 * m {
        if qb != 0.0 {
            roots.push(-qc / qb);
        }
    } else {
        let disc = qb * qb - 4.0 * qa * qc;
        if disc > 0.0 {
            let s = disc.sqrt();
            let q = -0.5 * (qb + if qb >= 0.0 { s } else { -s });
            roots.push(q / qa);
            if q != 0.0 {
                roots.push(qc / q);
            }
        }
    }
    roots.retain(|t| *t > 0.0 && *t < 1.0);
    roots.sort_by(|a, b| a.partial_cmp(b).unwrap());
    roots.dedup();
    roots
}

impl Curves {
    pub fn new(p: &BezPath) -> Self {
        let mut ret = Curves::default();
        for s in p.segments() {
            let (c, l) = to_cubic(s);
            ret.push(c, l);
        }
        ret
    }

    pub fn push(&mut self, c: CubicBez, is_line: bool) {
        let seg = self.segs.len();
        let bx = cubic_box(&c);
        self.scale = self.scale.max(bx.0.abs()).max(bx.1.abs()).max(bx.2.abs()).max(bx.3.abs());
        self.segs.push(c);
        self.is_line.push(is_line);
        self.boxes.push(bx);
        let mut ts = vec![0.0];
        if !is_line {
            ts.extend(deriv_roots(c.p0.y, c.p1.y, c.p2.y, c.p3.y));
        }
        ts.push(1.0);
        let pts: Vec<Point> = ts
            .iter()
            .map(|t| {
                if *t == 0.0 {
                    c.p0
                } else if *t == 1.0 {
                    c.p3
                } else {
                    c.eval(*t)
                }
            })
            .collect();
        for i in 0..ts.len() - 1 {
            if ts[i] == ts[i + 1] {
                continue;
            }
            self.monos.push(Mono {
                seg,
                t0: ts[i],
                t1: ts[i + 1],
                p0: pts[i],
                p1: pts[i + 1],
                min_x: bx.0,
                max_x: bx.2,
            });
        }
    }

    pub fn extend(&mut self, p: &BezPath) {
        for s in p.segments() {
            let (c, l) = to_cubic(s);
            self.push(c, l);
        }
    }

    pub fn bbox(&self) -> Option<(f64, f64, f64, f64)> {
        let mut it = self.boxes.iter();
        let mut b = *it.next()?;
        for c in it {
            b = (b.0.min(c.0), b.1.min(c.1), b.2.max(c.2), b.3.max(c.3));
        }
        Some(b)
    }

    pub fn mono_x_at(&self, m: &Mono, y: f64) -> f64 {
        let c = &self.segs[m.seg];
        if self.is_line[m.seg] {
            let t = ((y - c.p0.y) / (c.p3.y - c.p0.y)).clamp(0.0, 1.0);
            return c.p0.x + t * (c.p3.x - c.p0.x);
        }
        let up = m.p1.y > m.p0.y;
        let (mut lo, mut hi) = (m.t0, m.t1);
        for _ in 0..60 {
            let mid = 0.5 * (lo + hi);
            if mid <= lo || mid >= hi {
                break;
            }
            let v = c.eval(mid).y;
            if (v < y) == up {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        c.eval(0.5 * (lo + hi)).x
    }

    /// Winding number of `p`: +1 for each upward (decreasing y)... see below.
    ///
    /// We cast a ray to x = -infinity. A piece going towards increasing y that
    /// lies to the left of `p` counts +1; one going towards decreasing y counts -1.
    pub fn winding(&self, p: Point) -> i32 {
        let mut w = 0;
        for m in &self.monos {
            let (a, b) = (m.p0.y, m.p1.y);
            let dir = if a <= p.y && p.y < b {
                1
            } else if b <= p.y && p.y < a {
                -1
            } else {
                continue;
            };
            if m.max_x < p.x {
                w += dir;
            } else if m.min_x > p.x {
            } else if self.mono_x_at(m, p.y) < p.x {
                w += dir;
            }
        }
        w
    }

    /// All crossings of the horizontal line at `y`, as (x, direction, seg).
    pub fn crossings(&self, y: f64) -> Vec<(f64, i32, usize)> {
        let mut ret = vec![];
        for m in &self.monos {
            let (a, b) = (m.p0.y, m.p1.y);
            let dir = if a <= y && y < b {
                1
            } else if b <= y && y < a {
                -1
            } else {
                continue;
            };
            ret.push((self.mono_x_at(m, y), dir, m.seg));
        }
        ret.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        ret
    }

    /// Is there (possibly) a point of the curves within distance `d` of `p`?
    /// `false` is definite; `true` may be off by a relative 1/64 of `d`.
    pub fn closer_than(&self, p: Point, d: f64) -> bool {
        self.segs
            .iter()
            .zip(&self.boxes)
            .zip(&self.is_line)
            .any(|((c, b), l)| seg_closer_than(c, b, *l, p, d))
    }

    /// Distance from p to the curves, up to a small relative error.
    pub fn dist(&self, p: Point) -> f64 {
        let mut best = f64::INFINITY;
        for ((c, b), l) in self.segs.iter().zip(&self.boxes).zip(&self.is_line) {
            if box_dist(b, p) >= best {
                continue;
            }
            best = best.min(seg_dist(c, *l, p, best));
        }
        best
    }
}

fn pt_line_dist(a: Point, b: Point, p: Point) -> f64 {
    let d = b - a;
    let n2 = d.hypot2();
    if n2 == 0.0 {
        return a.distance(p);
    }
    let t = ((p - a).dot(d) / n2).clamp(0.0, 1.0);
    (a + d * t).distance(p)
}

fn seg_dist(c: &CubicBez, line: bool, p: Point, best: f64) -> f64 {
    if line {
        return pt_line_dist(c.p0, c.p3, p);
    }
    let mut best = best.min(c.p0.distance(p)).min(c.p3.distance(p));
    let fp = 1e-15 * (c.p0.to_vec2().hypot() + c.p3.to_vec2().hypot());
    let mut stack = vec![(*c, 0)];
    while let Some((c, depth)) = stack.pop() {
        let b = cubic_box(&c);
        if box_dist(&b, p) >= best {
            continue;
        }
        best = best.min(c.p0.distance(p)).min(c.p3.distance(p));
        // The curve lies within `flat` of its chord, and every point of the chord
        // is within `flat` of the curve.
        let flat = flatness(&c);
        let cd = pt_line_dist(c.p0, c.p3, p);
        best = best.min(cd + flat);
        if depth > 48 || flat <= 1e-2 * cd || flat <= fp || cd - flat >= best {
            continue;
        }
        let (l, r) = c.subdivide();
        stack.push((l, depth + 1));
        stack.push((r, depth + 1));
    }
    best
}

/// Upper bound on the distance between the cubic and its chord segment.
fn flatness(c: &CubicBez) -> f64 {
    pt_line_dist(c.p0, c.p3, c.p1).max(pt_line_dist(c.p0, c.p3, c.p2))
}

pub fn seg_closer_than(c: &CubicBez, b: &(f64, f64, f64, f64), line: bool, p: Point, d: f64) -> bool {
    if box_dist(b, p) > d {
        return false;
    }
    if line {
        return pt_line_dist(c.p0, c.p3, p) <= d;
    }
    let mut stack = vec![(*c, 0)];
    while let Some((c, depth)) = stack.pop() {
        if box_dist(&cubic_box(&c), p) > d {
            continue;
        }
        if c.p0.distance(p) <= d || c.p3.distance(p) <= d {
            return true;
        }
        let flat = flatness(&c);
        if depth > 48 || flat <= d / 64.0 {
            if pt_line_dist(c.p0, c.p3, p) <= d + flat {
                return true;
            }
            continue;
        }
        let (l, r) = c.subdivide();
        stack.push((l, depth + 1));
        stack.push((r, depth + 1));
    }
    false
}

pub fn transpose_pt(p: Point) -> Point {
    Point::new(p.y, p.x)
}

pub fn transpose(p: &BezPath) -> BezPath {
    map_path(p, transpose_pt)
}

pub fn map_path(p: &BezPath, f: impl Fn(Point) -> Point) -> BezPath {
    use kurbo::PathEl::*;
    p.elements()
        .iter()
        .map(|e| match *e {
            MoveTo(a) => MoveTo(f(a)),
            LineTo(a) => LineTo(f(a)),
            QuadTo(a, b) => QuadTo(f(a), f(b)),
            CurveTo(a, b, c) => CurveTo(f(a), f(b), f(c)),
            ClosePath => ClosePath,
        })
        .collect()
}

/// Exact signed area (Green) of a path's segments.
pub fn signed_area(p: &BezPath) -> f64 {
    use kurbo::ParamCurveArea;
    // Relative to one of its points, so that tiny areas survive at big coordinates.
    let Some(kurbo::PathEl::MoveTo(o)) = p.elements().first() else { return 0.0 };
    let p = kurbo::Affine::translate(-o.to_vec2()) * p.clone();
    p.segments().map(|s| s.signed_area()).sum()
}
