//! Workload generators: closed paths chosen to be hostile to a sweep-line algorithm.
use crate::rng::Rng;
use kurbo::{Affine, BezPath, PathEl, Point, Shape, Vec2};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Case {
    pub family: &'static str,
    pub a: BezPath,
    pub b: BezPath,
    /// None = use the automatically chosen eps of `binary_op`.
    pub eps: Option<f64>,
}

impl Case {
    pub fn eps(&self) -> f64 {
        self.eps.unwrap_or_else(|| auto_eps(&self.a, &self.b))
    }
    /// Distance from the input curves beyond which results have to be right.
    ///
    /// The corpus consists of drawings with many features of the size of eps
    /// next to each other, whose perturbations add up.
    pub fn tol(&self) -> f64 {
        self.eps() * if self.family == "corpus" { 50.0 } else { crate::common::K }
    }
    pub fn has_curves(&self) -> bool {
        self.a
            .elements()
            .iter()
            .chain(self.b.elements())
            .any(|e| matches!(e, PathEl::QuadTo(..) | PathEl::CurveTo(..)))
    }
    pub fn describe(&self) -> String {
        format!(
            "family={} eps={:?} A=\"{}\" B=\"{}\"",
            self.family,
            self.eps,
            self.a.to_svg(),
            self.b.to_svg()
        )
    }
    pub fn n_segs(&self) -> usize {
        self.a.segments().count() + self.b.segments().count()
    }
}

/// An upper bound for the eps that `binary_op` documents choosing.
pub fn auto_eps(a: &BezPath, b: &BezPath) -> f64 {
    let mut m: f64 = 0.0;
    for p in a.elements().iter().chain(b.elements()) {
        for q in el_points(p) {
            m = m.max(q.x.abs()).max(q.y.abs());
        }
    }
    (m * f64::EPSILON * 64.0).max(1e-6)
}

pub fn el_points(e: &PathEl) -> Vec<Point> {
    match *e {
        PathEl::MoveTo(a) | PathEl::LineTo(a) => vec![a],
        PathEl::QuadTo(a, b) => vec![a, b],
        PathEl::CurveTo(a, b, c) => vec![a, b, c],
        PathEl::ClosePath => vec![],
    }
}

pub fn max_abs(p: &BezPath) -> f64 {
    let mut m: f64 = 0.0;
    for e in p.elements() {
        for q in el_points(e) {
            m = m.max(q.x.abs()).max(q.y.abs());
        }
    }
    m
}

pub fn polygon(pts: &[Point]) -> BezPath {
    let mut p = BezPath::new();
    if pts.is_empty() {
        return p;
    }
    p.move_to(pts[0]);
    for q in &pts[1..] {
        p.line_to(*q);
    }
    p.close_path();
    p
}

pub fn append(dst: &mut BezPath, src: &BezPath) {
    dst.extend(src.elements().iter().copied());
}

fn lat(r: &mut Rng, n: i64, s: f64) -> Point {
    Point::new(r.int(-n, n) as f64 * s, r.int(-n, n) as f64 * s)
}

fn rnd(r: &mut Rng, s: f64) -> Point {
    Point::new(r.range(-s, s), r.range(-s, s))
}

fn rand_polygon(r: &mut Rng, s: f64, max: usize) -> BezPath {
    let mut p = BezPath::new();
    for _ in 0..1 + r.below(3) {
        let n = 3 + r.below(max);
        let pts: Vec<_> = (0..n).map(|_| rnd(r, s)).collect();
        append(&mut p, &polygon(&pts));
    }
    p
}

fn lattice_polygon(r: &mut Rng, n: i64, s: f64) -> BezPath {
    let mut p = BezPath::new();
    for _ in 0..1 + r.below(3) {
        let k = 3 + r.below(6);
        let pts: Vec<_> = (0..k).map(|_| lat(r, n, s)).collect();
        append(&mut p, &polygon(&pts));
    }
    p
}

fn rect(r: &mut Rng, n: i64, s: f64) -> BezPath {
    let a = lat(r, n, s);
    let b = lat(r, n, s);
    let mut pts = vec![a, Point::new(b.x, a.y), b, Point::new(a.x, b.y)];
    if r.chance(0.5) {
        pts.reverse();
    }
    let k = r.below(4);
    pts.rotate_left(k);
    polygon(&pts)
}

fn blob(r: &mut Rng, s: f64, lattice: Option<i64>, quads: bool) -> BezPath {
    let mut p = BezPath::new();
    let pt = |r: &mut Rng| match lattice {
        Some(n) => lat(r, n, s / n as f64),
        None => rnd(r, s),
    };
    for _ in 0..1 + r.below(2) {
        let k = 1 + r.below(4);
        let start = pt(r);
        p.move_to(start);
        for i in 0..k {
            let end = if i + 1 == k && r.chance(0.7) { start } else { pt(r) };
            match r.below(if quads { 3 } else { 4 }) {
                0 => p.line_to(end),
                1 | 2 if quads => {
                    let c = pt(r);
                    p.quad_to(c, end)
                }
                _ => {
                    let c1 = pt(r);
                    let c2 = pt(r);
                    p.curve_to(c1, c2, end)
                }
            }
        }
        p.close_path();
    }
    p
}

fn smooth_blob(r: &mut Rng, c: Point, rad: f64) -> BezPath {
    // A closed Catmull-Rom-like curve around a centre.
    let n = 3 + r.below(5);
    let ph = r.range(0.0, 6.28);
    let pts: Vec<Point> = (0..n)
        .map(|i| {
            let a = ph + i as f64 / n as f64 * std::f64::consts::TAU;
            let q = rad * r.range(0.5, 1.0);
            c + Vec2::new(a.cos(), a.sin()) * q
        })
        .collect();
    let mut p = BezPath::new();
    p.move_to(pts[0]);
    for i in 0..n {
        let p0 = pts[(i + n - 1) % n];
        let p1 = pts[i];
        let p2 = pts[(i + 1) % n];
        let p3 = pts[(i + 2) % n];
        p.curve_to(p1 + (p2 - p0) / 6.0, p2 - (p3 - p1) / 6.0, p2);
    }
    p.close_path();
    p
}

fn circle(c: Point, rad: f64) -> BezPath {
    let mut p = kurbo::Circle::new(c, rad).to_path(rad * 1e-3);
    if !matches!(p.elements().last(), Some(PathEl::ClosePath)) {
        p.close_path();
    }
    p
}

pub fn jitter(r: &mut Rng, p: &BezPath, d: f64) -> BezPath {
    let mut start = Point::ZERO;
    let mut jstart = Point::ZERO;
    let els: Vec<PathEl> = p.elements().to_vec();
    let mut out = BezPath::new();
    let j = |r: &mut Rng, q: Point| {
        if r.chance(0.4) {
            q
        } else {
            q + Vec2::new(r.range(-d, d), r.range(-d, d))
        }
    };
    for e in els {
        match e {
            PathEl::MoveTo(q) => {
                start = q;
                jstart = j(r, q);
                out.move_to(jstart);
            }
            PathEl::LineTo(q) => {
                let q = if q == start { jstart } else { j(r, q) };
                out.line_to(q)
            }
            PathEl::QuadTo(a, q) => {
                let a = j(r, a);
                let q = if q == start { jstart } else { j(r, q) };
                out.quad_to(a, q)
            }
            PathEl::CurveTo(a, b, q) => {
                let a = j(r, a);
                let b = j(r, b);
                let q = if q == start { jstart } else { j(r, q) };
                out.curve_to(a, b, q)
            }
            PathEl::ClosePath => out.close_path(),
        }
    }
    out
}

/// One edit of a drawing: a moved vertex or handle, another kind of edge, a reversed or dropped subpath.
fn variant(r: &mut Rng, p: &BezPath, s: f64) -> BezPath {
    let mut els: Vec<PathEl> = p.elements().to_vec();
    let i = r.below(els.len());
    let move_pt = |r: &mut Rng, q: Point| {
        if r.chance(0.5) {
            q + Vec2::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0)) * s * *r.pick(&[0.3, 0.1, 0.03, 0.01])
        } else {
            rnd(r, s)
        }
    };
    // Only elements in the middle of subpaths are edited at their end points.
    let inner = i > 0 && i + 1 < els.len() && !matches!(els[i + 1], PathEl::MoveTo(_) | PathEl::ClosePath);
    let which = r.below(3);
    els[i] = match els[i] {
        PathEl::CurveTo(a, b, q) => match which {
            0 => PathEl::CurveTo(move_pt(r, a), b, q),
            1 => PathEl::CurveTo(a, move_pt(r, b), q),
            _ if inner => PathEl::CurveTo(a, b, move_pt(r, q)),
            _ => PathEl::LineTo(q),
        },
        PathEl::QuadTo(a, q) => match which {
            0 => PathEl::QuadTo(move_pt(r, a), q),
            1 if inner => PathEl::QuadTo(a, move_pt(r, q)),
            _ => PathEl::LineTo(q),
        },
        PathEl::LineTo(q) => match which {
            0 if inner => PathEl::LineTo(move_pt(r, q)),
            1 => PathEl::QuadTo(move_pt(r, q), q),
            _ => PathEl::CurveTo(move_pt(r, q), move_pt(r, q), q),
        },
        e => e,
    };
    let p = BezPath::from_vec(els);
    if r.chance(0.1) {
        reverse(&p)
    } else {
        p
    }
}

/// A few vertices with several arcs between them, some of which coincide or
/// almost do although they have other control points.
struct Multigraph {
    v: Vec<Point>,
    /// For each pair of vertices i < j, the arcs (possibly straight) running from i to j.
    arcs: Vec<Vec<Vec<PathEl>>>,
}

impl Multigraph {
    fn new(r: &mut Rng, s: f64, eps: f64) -> Self {
        let n = 2 + r.below(3);
        let lattice = r.chance(0.5);
        let v: Vec<Point> = (0..n).map(|_| if lattice { lat(r, 3, s / 3.0) } else { rnd(r, s) }).collect();
        let mut arcs = vec![];
        for i in 0..n {
            for j in i + 1..n {
                let (p, q) = (v[i], v[j]);
                let mut es = vec![vec![PathEl::LineTo(q)]];
                for _ in 0..r.below(5) {
                    let along = |r: &mut Rng, t: f64| {
                        let d = *r.pick(&[0.0, 0.0, 0.0, 0.1, 0.5, 1.0, 3.0]) * eps;
                        p.lerp(q, t) + Vec2::new(r.range(-d, d), r.range(-d, d))
                    };
                    let (t0, t1) = match r.below(4) {
                        0 => (1.0 / 3.0, 2.0 / 3.0),
                        1 => (0.0, r.f()),
                        2 => (r.f(), 1.0),
                        _ => {
                            let (a, b) = (r.f(), r.f());
                            (a.min(b), a.max(b))
                        }
                    };
                    es.push(match r.below(5) {
                        // Straight, but parametrized otherwise.
                        0 | 1 => vec![PathEl::CurveTo(along(r, t0), along(r, t1), q)],
                        2 => vec![PathEl::QuadTo(along(r, t0), q)],
                        3 => vec![PathEl::LineTo(along(r, t0)), PathEl::LineTo(q)],
                        // Properly curved.
                        _ => vec![PathEl::CurveTo(rnd(r, s), rnd(r, s), q)],
                    });
                }
                // The same curve again: as two halves, a bit beside, and shifted in parameter.
                let k = r.below(es.len());
                if let PathEl::CurveTo(a, b, q) = es[k][0] {
                    let c = kurbo::CubicBez::new(p, a, b, q);
                    use kurbo::ParamCurve;
                    let t = r.range(0.1, 0.9);
                    let (l, m) = (c.subsegment(0.0..t), c.subsegment(t..1.0));
                    es.push(vec![PathEl::CurveTo(l.p1, l.p2, l.p3), PathEl::CurveTo(m.p1, m.p2, q)]);
                    let d = eps * *r.pick(&[0.1, 0.5, 1.0, 2.0]);
                    es.push(vec![PathEl::CurveTo(a + Vec2::new(r.range(-d, d), r.range(-d, d)), b, q)]);
                }
                arcs.push(es);
            }
        }
        Multigraph { v, arcs }
    }

    fn walks(&self, r: &mut Rng) -> BezPath {
        let n = self.v.len();
        let mut path = BezPath::new();
        for _ in 0..1 + r.below(3) {
            let start = r.below(n);
            let mut at = start;
            path.move_to(self.v[at]);
            let len = 1 + r.below(6);
            for step in 0.. {
                let to = if step >= len {
                    if at == start {
                        break;
                    }
                    start
                } else {
                    (at + 1 + r.below(n - 1)) % n
                };
                let (i, j) = (at.min(to), at.max(to));
                // Index of the pair in the order they were made.
                let k = (0..i).map(|i| n - 1 - i).sum::<usize>() + (j - i - 1);
                let mut arc = BezPath::new();
                arc.move_to(self.v[i]);
                arc.extend(r.pick(&self.arcs[k]).iter().copied());
                let arc = if at < to { arc } else { reverse(&arc) };
                path.extend(arc.elements()[1..].iter().filter(|e| **e != PathEl::ClosePath).copied());
                at = to;
            }
            path.close_path();
        }
        path
    }
}

pub fn reverse(p: &BezPath) -> BezPath {
    // Close subpaths explicitly, so that reversal is well defined.
    p.reverse_subpaths()
}

/// Insert extra vertices on edges of polygons (exactly representable midpoints).
fn split_edges(r: &mut Rng, p: &BezPath) -> BezPath {
    let mut out = BezPath::new();
    let mut last = Point::ZERO;
    for e in p.elements() {
        match *e {
            PathEl::MoveTo(q) => {
                out.move_to(q);
                last = q;
            }
            PathEl::LineTo(q) => {
                if r.chance(0.5) {
                    out.line_to(last.midpoint(q));
                }
                if r.chance(0.1) {
                    // duplicated vertex
                    out.line_to(q);
                }
                out.line_to(q);
                last = q;
            }
            PathEl::QuadTo(a, q) => {
                if r.chance(0.5) {
                    let m1 = last.midpoint(a);
                    let m2 = a.midpoint(q);
                    out.quad_to(m1, m1.midpoint(m2));
                    out.quad_to(m2, q);
                } else {
                    out.quad_to(a, q);
                }
                last = q;
            }
            PathEl::CurveTo(a, b, q) => {
                if r.chance(0.5) {
                    use kurbo::ParamCurve;
                    let c = kurbo::CubicBez::new(last, a, b, q);
                    let (l, rr) = c.subdivide();
                    out.curve_to(l.p1, l.p2, l.p3);
                    out.curve_to(rr.p1, rr.p2, rr.p3);
                } else {
                    out.curve_to(a, b, q);
                }
                last = q;
            }
            PathEl::ClosePath => out.close_path(),
        }
    }
    out
}

/// Polygons with spikes, zero-width bridges and repeated points.
fn degenerate_polygon(r: &mut Rng, s: f64) -> BezPath {
    let n = 3 + r.below(4);
    let mut pts: Vec<Point> = vec![];
    for _ in 0..n {
        let q = lat(r, 4, s / 4.0);
        match r.below(5) {
            0 => {
                pts.push(q);
                pts.push(q);
            }
            1 => {
                let o = lat(r, 4, s / 4.0);
                pts.push(q);
                pts.push(o);
                pts.push(q);
            }
            _ => pts.push(q),
        }
    }
    polygon(&pts)
}

/// Nearly horizontal edges, with y differences around eps.
fn sliver(r: &mut Rng, s: f64, eps: f64) -> BezPath {
    let n = 3 + r.below(6);
    let pts: Vec<Point> = (0..n)
        .map(|_| {
            let y = r.int(-2, 2) as f64 * s / 4.0 + *r.pick(&[0.0, 0.0, 0.3, -0.3, 1.0, -1.0, 2.0, 5.0]) * eps;
            Point::new(r.range(-s, s), y)
        })
        .collect();
    polygon(&pts)
}

fn fixed_svgs() -> &'static Vec<(BezPath, BezPath)> {
    static R: OnceLock<Vec<(BezPath, BezPath)>> = OnceLock::new();
    R.get_or_init(|| {
        include_str!("../corpus/pairs.txt")
            .lines()
            .filter(|l| !l.trim().is_empty())
            .collect::<Vec<_>>()
            .chunks(2)
            .map(|l| (BezPath::from_svg(l[0]).unwrap(), BezPath::from_svg(l[1]).unwrap()))
            .collect()
    })
}

fn polylines(v: Vec<Vec<linesweeper::Point>>) -> BezPath {
    let mut p = BezPath::new();
    for c in v {
        let pts: Vec<Point> = c.iter().map(|q| Point::new(q.x, q.y)).collect();
        append(&mut p, &polygon(&pts));
    }
    p
}

pub const FAMILIES: &[&str] = &[
    "rand_polygons",
    "lattice_polygons",
    "lattice_jitter",
    "rects",
    "degenerate",
    "slivers",
    "cubic_blobs",
    "lattice_cubics",
    "quad_blobs",
    "smooth_blobs",
    "circles",
    "near_copy",
    "split_copy",
    "glyphs",
    "generators",
    "corpus",
    "nested",
    "fan",
    "monotone_touch",
    "mixed",
    "variants",
    "bundles",
    "tangents",
    "words",
    "multigraph",
    "flattened",
];

pub fn glyphs() -> &'static Vec<BezPath> {
    static R: OnceLock<Vec<BezPath>> = OnceLock::new();
    R.get_or_init(|| {
        include_str!("../corpus/glyphs.txt")
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| BezPath::from_svg(l).unwrap())
            .collect()
    })
}

/// Inputs that once failed; they are part of every workload of boolean operations.
pub fn regressions() -> &'static Vec<Case> {
    static R: OnceLock<Vec<Case>> = OnceLock::new();
    R.get_or_init(|| {
        include_str!("../corpus/regress.txt")
            .lines()
            .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
            .map(|l| {
                let f: Vec<&str> = l.split('|').collect();
                Case {
                    family: "regression",
                    a: BezPath::from_svg(f[1]).unwrap(),
                    b: BezPath::from_svg(f[2]).unwrap(),
                    eps: f[0].parse().ok(),
                }
            })
            .collect()
    })
}

/// The workload of a check: first the regressions, then random cases.
pub fn workload(seed: u64, index: u64) -> Case {
    let r = regressions();
    match r.get(index as usize) {
        Some(c) => c.clone(),
        None => case(seed, index - r.len() as u64),
    }
}

pub fn case(seed: u64, index: u64) -> Case {
    let f = FAMILIES[(index % FAMILIES.len() as u64) as usize];
    family_case(f, seed, index)
}

pub fn family_case(family: &'static str, seed: u64, index: u64) -> Case {
    let stream = FAMILIES.iter().position(|f| *f == family).unwrap() as u64 + 1;
    let mut r = Rng::new(seed, stream, index);
    let r = &mut r;
    // The size of the figure, and eps relative to it.
    let s = *r.pick(&[1.0, 1.0, 8.0, 64.0, 100.0, 1000.0]);
    let rel = *r.pick(&[1e-6, 1e-5, 1e-4, 1e-4, 1e-3, 1e-3, 1e-2]);
    let auto = r.chance(0.2);
    let eps_v = if auto { 1e-6f64 } else { s * rel };
    let mut eps = if auto { None } else { Some(s * rel) };
    let (a, b) = match family {
        "rand_polygons" => (rand_polygon(r, s, 6), rand_polygon(r, s, 6)),
        "lattice_polygons" => {
            let n = r.int(1, 5);
            let g = s / n as f64;
            (lattice_polygon(r, n, g), lattice_polygon(r, n, g))
        }
        "lattice_jitter" => {
            let n = r.int(1, 4);
            let g = s / n as f64;
            let a = lattice_polygon(r, n, g);
            let b = if r.chance(0.5) { a.clone() } else { lattice_polygon(r, n, g) };
            let d = eps_v * *r.pick(&[0.01, 0.1, 0.5, 1.0, 2.0, 4.0]);
            (jitter(r, &a, d), jitter(r, &b, d))
        }
        "rects" => {
            let n = r.int(2, 6);
            let g = s / n as f64;
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            for _ in 0..1 + r.below(5) {
                append(&mut a, &rect(r, n, g));
            }
            for _ in 0..1 + r.below(5) {
                append(&mut b, &rect(r, n, g));
            }
            (a, b)
        }
        "degenerate" => (degenerate_polygon(r, s), degenerate_polygon(r, s)),
        "slivers" => (sliver(r, s, eps_v), sliver(r, s, eps_v)),
        "cubic_blobs" => (blob(r, s, None, false), blob(r, s, None, false)),
        "lattice_cubics" => {
            let n = r.int(2, 4);
            (blob(r, s, Some(n), false), blob(r, s, Some(n), false))
        }
        "quad_blobs" => {
            let n = if r.chance(0.5) { Some(3) } else { None };
            (blob(r, s, n, true), blob(r, s, n, true))
        }
        "smooth_blobs" => {
            let ca = rnd(r, s * 0.3);
            let cb = rnd(r, s * 0.3);
            (smooth_blob(r, ca, s * 0.7), smooth_blob(r, cb, s * 0.7))
        }
        "circles" => {
            // Tangent, concentric, equal and generic circles.
            let n = 1 + r.below(3);
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            for _ in 0..n {
                let c = lat(r, 3, s / 4.0);
                append(&mut a, &circle(c, s / 4.0 * r.int(1, 3) as f64));
                let c = lat(r, 3, s / 4.0);
                append(&mut b, &circle(c, s / 4.0 * r.int(1, 3) as f64));
            }
            (a, b)
        }
        "near_copy" => {
            let a = match r.below(4) {
                0 => rand_polygon(r, s, 5),
                1 => blob(r, s, None, false),
                2 => smooth_blob(r, Point::ZERO, s),
                _ => circle(Point::ZERO, s * 0.8),
            };
            let d = eps_v * *r.pick(&[0.0, 0.1, 0.5, 1.0, 3.0, 10.0]);
            let b = if r.chance(0.5) {
                jitter(r, &a, d)
            } else {
                Affine::translate((r.range(-d, d), r.range(-d, d))) * a.clone()
            };
            let b = if r.chance(0.3) { reverse(&b) } else { b };
            (a, b)
        }
        "split_copy" => {
            let a = match r.below(4) {
                0 => lattice_polygon(r, 3, s / 3.0),
                1 => blob(r, s, Some(4), false),
                2 => blob(r, s, Some(4), true),
                _ => rect(r, 4, s / 4.0),
            };
            let b = split_edges(r, &a);
            let b = if r.chance(0.3) { reverse(&b) } else { b };
            let mut b = b;
            if r.chance(0.3) {
                append(&mut b, &rect(r, 4, s / 4.0));
            }
            (a, b)
        }
        "glyphs" => {
            let g = glyphs();
            let a = r.pick(g).clone();
            let b = r.pick(g).clone();
            let k = *r.pick(&[1.0, 0.1, 0.01]);
            let t = Affine::translate((r.int(-3, 3) as f64 * 50.0, r.int(-3, 3) as f64 * 50.0));
            let b = if r.chance(0.2) { a.clone() } else { b };
            let a = Affine::scale(k) * a;
            let b = Affine::scale(k) * (t * b);
            eps = if auto { None } else { Some(1000.0 * k * *r.pick(&[1e-6, 1e-5, 1e-4])) };
            (a, b)
        }
        "generators" => {
            let n = 2 + r.below(4);
            let k = if r.chance(0.5) { 1.0 } else { 0.125 };
            let (a, b) = match r.below(4) {
                0 => {
                    let (a, b) = linesweeper::generators::checkerboard(n);
                    (polylines(a), polylines(b))
                }
                1 => {
                    let (a, b) = linesweeper::generators::slanted_checkerboard(n);
                    (polylines(a), polylines(b))
                }
                2 => {
                    let (a, b) = linesweeper::generators::slanties(n);
                    (polylines(a), polylines(b))
                }
                _ => linesweeper::generators::star(n),
            };
            let m = max_abs(&a).max(max_abs(&b)) * k;
            eps = if auto { None } else { Some(m * *r.pick(&[1e-6, 1e-5, 1e-4, 1e-3])) };
            (Affine::scale(k) * a, Affine::scale(k) * b)
        }
        "corpus" => {
            let c = r.pick(fixed_svgs()).clone();
            let m = max_abs(&c.0).max(max_abs(&c.1));
            eps = if auto { None } else { Some(m * *r.pick(&[1e-6, 1e-5, 1e-4, 1e-3])) };
            let c = if r.chance(0.3) { (c.1, c.0) } else { c };
            // A rigid motion (with optional mirroring) of the whole drawing.
            let t = match r.below(4) {
                0 => Affine::rotate(r.range(0.0, 6.3)),
                1 => Affine::new([0.0, 1.0, 1.0, 0.0, r.range(-m, m), 0.0]),
                _ => Affine::IDENTITY,
            };
            (t * c.0, t * c.1)
        }
        "nested" => {
            // Deeply nested shapes, some of them touching their parents.
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            let mut h = s;
            let mut c = Point::ZERO;
            for i in 0..3 + r.below(5) {
                let tgt = if r.chance(0.5) { &mut a } else { &mut b };
                let shape = match r.below(3) {
                    0 => circle(c, h),
                    1 => polygon(&[
                        c + Vec2::new(0.0, -h),
                        c + Vec2::new(h, 0.0),
                        c + Vec2::new(0.0, h),
                        c + Vec2::new(-h, 0.0),
                    ]),
                    _ => {
                        let q = h * 0.7;
                        polygon(&[
                            c + Vec2::new(-q, -q),
                            c + Vec2::new(q, -q),
                            c + Vec2::new(q, q),
                            c + Vec2::new(-q, q),
                        ])
                    }
                };
                let shape = if r.chance(0.5) { reverse(&shape) } else { shape };
                append(tgt, &shape);
                let _ = i;
                let f = *r.pick(&[0.5, 0.6, 0.7, 0.9]);
                if r.chance(0.3) {
                    c += Vec2::new(h * (1.0 - f), 0.0) * *r.pick(&[1.0, -1.0, 0.5]);
                }
                h *= f;
            }
            (a, b)
        }
        "fan" => {
            // Many edges meeting at one vertex, from both sides.
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                let c = lat(r, 1, s / 8.0);
                for _ in 0..2 + r.below(5) {
                    let q1 = lat(r, 5, s / 5.0);
                    let q2 = lat(r, 5, s / 5.0);
                    if r.chance(0.7) {
                        append(&mut p, &polygon(&[c, q1, q2]));
                    } else {
                        let mut t = BezPath::new();
                        t.move_to(c);
                        let k = lat(r, 5, s / 5.0);
                        t.quad_to(k, q1);
                        t.line_to(q2);
                        t.close_path();
                        append(&mut p, &t);
                    }
                }
                p
            };
            (mk(r), mk(r))
        }
        "monotone_touch" => {
            // Curves sharing end points and tangents.
            let p0 = Point::new(0.0, -s);
            let p3 = Point::new(r.range(-0.3, 0.3) * s, s);
            let t0 = rnd(r, s);
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                for _ in 0..1 + r.below(3) {
                    let mut t = BezPath::new();
                    t.move_to(p0);
                    let k0 = r.range(0.3, 1.5);
                    let c1 = p0 + (t0 - p0) * k0;
                    let c2 = rnd(r, s);
                    t.curve_to(c1, c2, p3);
                    if r.chance(0.5) {
                        let k1 = r.range(0.3, 1.5);
                        let d1 = p0 + (t0 - p0) * k1;
                        let d2 = c2 + (p3 - c2) * r.range(-0.5, 0.5);
                        t.curve_to(d2, d1, p0);
                    } else {
                        t.line_to(Point::new(s * r.range(-1.0, 1.0), r.range(-1.0, 1.0) * s));
                    }
                    t.close_path();
                    append(&mut p, &t);
                }
                p
            };
            (mk(r), mk(r))
        }
        "mixed" => {
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                for _ in 0..1 + r.below(3) {
                    let q = match r.below(6) {
                        0 => rect(r, 4, s / 4.0),
                        1 => lattice_polygon(r, 4, s / 4.0),
                        2 => {
                            let q = r.chance(0.5);
                            blob(r, s, None, q)
                        }
                        3 => {
                            let c = lat(r, 3, s / 4.0);
                            circle(c, s * 0.25)
                        }
                        4 => degenerate_polygon(r, s),
                        _ => rand_polygon(r, s, 4),
                    };
                    append(&mut p, &q);
                }
                p
            };
            (mk(r), mk(r))
        }
        "multigraph" => {
            let g = Multigraph::new(r, s, eps_v);
            (g.walks(r), g.walks(r))
        }
        "variants" => {
            // A shape and an edited version of it.
            let a = match r.below(6) {
                0 => lattice_polygon(r, 3, s / 3.0),
                1 => blob(r, s, Some(3), false),
                2 => blob(r, s, None, true),
                3 => smooth_blob(r, Point::ZERO, s),
                4 => rand_polygon(r, s, 5),
                _ => blob(r, s, None, false),
            };
            let n = 1 + r.below(3);
            let b = (0..n).fold(a.clone(), |p, _| variant(r, &p, s));
            if r.chance(0.5) { (a, b) } else { (b, a) }
        }
        "bundles" => {
            // Many curves between the same few vertices, some of them sharing handles.
            let verts: Vec<Point> = (0..2 + r.below(3)).map(|_| lat(r, 3, s / 3.0)).collect();
            let lattice = r.chance(0.5);
            let handles: Vec<Point> = (0..2 + r.below(3)).map(|_| if lattice { lat(r, 3, s / 3.0) } else { rnd(r, s) }).collect();
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                for _ in 0..1 + r.below(2) {
                    let mut t = BezPath::new();
                    let first = *r.pick(&verts);
                    t.move_to(first);
                    let n = 2 + r.below(3);
                    for i in 0..n {
                        let q = if i + 1 == n { first } else { *r.pick(&verts) };
                        match r.below(4) {
                            0 => t.line_to(q),
                            1 => t.quad_to(*r.pick(&handles), q),
                            _ => t.curve_to(*r.pick(&handles), *r.pick(&handles), q),
                        }
                    }
                    t.close_path();
                    append(&mut p, &t);
                }
                p
            };
            (mk(r), mk(r))
        }
        "tangents" => {
            // Curves that touch (or osculate) each other in their interior.
            let k = *r.pick(&[0.5, 1.0, 2.0]) / s;
            let swap = r.chance(0.5);
            let arch = |r: &mut Rng, p: &mut BezPath| {
                // The part of y = k x^2 + m x + c over [x0, x1], closed by lines, where m and c are such
                // that the curve touches y = k0 x^2 at x = t.
                let k0 = k;
                let k1 = k0 * *r.pick(&[0.0, 0.0, 0.5, 1.0, -1.0, 2.0, 3.0]);
                let t = r.int(-2, 2) as f64 * s / 4.0;
                let m = 2.0 * (k0 - k1) * t;
                let c = (k1 - k0) * t * t;
                let (x0, x1) = (-s * *r.pick(&[1.0, 0.75, 0.5]), s * *r.pick(&[1.0, 0.75, 0.5]));
                let f = |x: f64| Point::new(x, k1 * x * x + m * x + c);
                let mid = Point::new((x0 + x1) / 2.0, k1 * x0 * x1 + m * (x0 + x1) / 2.0 + c);
                let mut q = BezPath::new();
                q.move_to(f(x0));
                if k1 == 0.0 {
                    q.line_to(f(x1));
                } else if r.chance(0.5) {
                    q.quad_to(mid, f(x1));
                } else {
                    q.curve_to(f(x0).lerp(mid, 2.0 / 3.0), f(x1).lerp(mid, 2.0 / 3.0), f(x1));
                }
                let h = *r.pick(&[1.0, -1.0, 2.0]) * s;
                q.line_to(Point::new(x1, h));
                q.line_to(Point::new(x0, h));
                q.close_path();
                let q = if swap { Affine::new([0.0, 1.0, 1.0, 0.0, 0.0, 0.0]) * q } else { q };
                append(p, &q);
            };
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            for _ in 0..1 + r.below(2) {
                arch(r, &mut a);
            }
            for _ in 0..1 + r.below(2) {
                arch(r, &mut b);
            }
            if r.chance(0.3) {
                let t = Affine::rotate(r.range(0.0, 6.3));
                a = t * a;
                b = t * b;
            }
            (a, b)
        }
        "flattened" => {
            // Another drawing squeezed vertically (or sideways), so that most curves are almost horizontal and have
            // sharp turns at their sides.
            let base = *r.pick(&["bundles", "variants", "cubic_blobs", "quad_blobs", "smooth_blobs", "near_copy", "nested", "words"]);
            let c = family_case(base, seed ^ 0x9e37, index);
            let m = max_abs(&c.a).max(max_abs(&c.b)).max(1e-300);
            let k = *r.pick(&[0.3, 0.1, 0.03, 0.01, 0.003]);
            eps = Some(m * k * *r.pick(&[1e-5, 1e-4, 1e-3]));
            let t = if r.chance(0.75) { Affine::scale_non_uniform(1.0, k) } else { Affine::scale_non_uniform(k, 1.0) };
            (t * c.a, t * c.b)
        }
        "words" => {
            // Overlapping letters of a word, cut by a simple shape.
            let g = glyphs();
            let k = *r.pick(&[1.0, 0.1, 0.01]);
            let mut a = BezPath::new();
            let mut x = 0.0;
            for _ in 0..2 + r.below(2) {
                append(&mut a, &(Affine::translate((x, 0.0)) * r.pick(g).clone()));
                x += r.int(2, 8) as f64 * 50.0;
            }
            let m = max_abs(&a);
            let b = match r.below(3) {
                0 => circle(Point::new(m * 0.4, m * 0.3), m * r.range(0.1, 0.4)),
                1 => rect(r, 4, m / 4.0),
                _ => rand_polygon(r, m, 4),
            };
            eps = if auto { None } else { Some(m * k * *r.pick(&[1e-6, 1e-5, 1e-4])) };
            (Affine::scale(k) * a, Affine::scale(k) * b)
        }
        _ => unreachable!(),
    };
    Case { family, a, b, eps }
}


/// Long straight edges that are almost, but not exactly, horizontal, compared to eps.
///
/// They are the class of the recorded finding about ordering loops, see KNOWN_FINDINGS.
pub fn has_subeps_slopes(c: &Case) -> bool {
    rises_less(c, 0.9)
}

/// Is there a straight edge (not a tiny one) that rises, but less than `k` eps?
pub fn rises_less(c: &Case, k: f64) -> bool {
    use kurbo::PathSeg;
    let e = c.eps();
    c.a.segments().chain(c.b.segments()).any(|s| {
        if let PathSeg::Line(l) = s {
            let dy = (l.p1.y - l.p0.y).abs();
            let dx = (l.p1.x - l.p0.x).abs();
            dy > 0.0 && dy < k * e && dx > 3.0 * e
        } else {
            false
        }
    })
}

/// Inputs of recorded, unrepaired findings.
pub fn known() -> &'static Vec<Case> {
    static R: OnceLock<Vec<Case>> = OnceLock::new();
    R.get_or_init(|| parse_cases(include_str!("../corpus/known.txt"), "known"))
}

/// Inputs of recorded, unrepaired findings of C18.
pub fn known_checks() -> &'static Vec<Case> {
    static R: OnceLock<Vec<Case>> = OnceLock::new();
    R.get_or_init(|| parse_cases(include_str!("../corpus/known18.txt"), "known"))
}

fn parse_cases(s: &str, family: &'static str) -> Vec<Case> {
    s.lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let f: Vec<&str> = l.split('|').collect();
            Case {
                family,
                a: BezPath::from_svg(f[1]).unwrap(),
                b: BezPath::from_svg(f[2]).unwrap(),
                eps: f[0].parse().ok(),
            }
        })
        .collect()
}

/// Families that stress termination and size rather than precision.
pub const EXT_FAMILIES: &[&str] = &[
    "x_scale", "x_collinear", "x_bigpoly", "x_tiny", "x_trivial", "x_zero_area", "x_stack", "x_comb", "x_spiral", "x_cusps", "x_offset_scale",
];

pub fn ext_case(seed: u64, index: u64) -> Case {
    let family = EXT_FAMILIES[(index % EXT_FAMILIES.len() as u64) as usize];
    let mut r = Rng::new(seed, 500, index);
    let r = &mut r;
    let s = *r.pick(&[1.0, 10.0, 100.0]);
    let mut eps = if r.chance(0.5) { None } else { Some(s * *r.pick(&[1e-6, 1e-4, 1e-3, 1e-2])) };
    let (a, b) = match family {
        "x_scale" => {
            // A random figure at an extreme scale; automatic accuracy if that makes sense.
            let i = r.u64() % 1_000_000;
            let c = case(seed ^ 0x5ca1e, i);
            let m = max_abs(&c.a).max(max_abs(&c.b)).max(1e-300);
            let target = 2f64.powi(r.int(-40, 100) as i32);
            let k = (target / m).log2().round().exp2();
            let rel = *r.pick(&[1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]);
            eps = if target > 1.0 && target < 2000.0 && r.chance(0.4) { None } else { Some(target * rel) };
            (Affine::scale(k) * c.a, Affine::scale(k) * c.b)
        }
        "x_offset_scale" => {
            // A small figure far away from the origin, so that coordinates have few bits left.
            let i = r.u64() % 1_000_000;
            let c = case(seed ^ 0x0ff5e7, i);
            let m = max_abs(&c.a).max(max_abs(&c.b)).max(1e-300);
            let off = m * 2f64.powi(r.int(4, 20) as i32);
            let t = Affine::translate((off * r.range(-1.0, 1.0), off * r.range(-1.0, 1.0)));
            let (a, b) = (t * c.a, t * c.b);
            eps = Some(1e-9 * (m + off) * *r.pick(&[1.0, 2.0, 10.0, 1000.0]));
            (a, b)
        }
        "x_collinear" => {
            // Polygons whose vertices all lie on a few lines.
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                let (dx, dy) = (r.int(-2, 2) as f64, r.int(-2, 2) as f64);
                for _ in 0..1 + r.below(4) {
                    let n = 2 + r.below(8);
                    let pts: Vec<_> = (0..n)
                        .map(|_| {
                            let t = r.int(-8, 8) as f64 / 8.0;
                            let o = if r.chance(0.8) { 0.0 } else { 1.0 };
                            Point::new(s * (t * dx + o), s * (t * dy))
                        })
                        .collect();
                    append(&mut p, &polygon(&pts));
                }
                p
            };
            (mk(r), mk(r))
        }
        "x_bigpoly" => {
            let n = 20 + r.below(60);
            let k = *r.pick(&[0, 3, 8]);
            let mk = |r: &mut Rng| {
                let pts: Vec<_> = (0..n).map(|_| if k == 0 { rnd(r, s) } else { lat(r, k, s / k as f64) }).collect();
                polygon(&pts)
            };
            (mk(r), mk(r))
        }
        "x_tiny" => {
            // Everything within a few eps.
            let e = s * 1e-3;
            eps = Some(e);
            let d = e * *r.pick(&[0.5, 1.0, 3.0, 10.0]);
            if r.chance(0.5) {
                (rand_polygon(r, d, 8), rand_polygon(r, d, 8))
            } else {
                let q = r.chance(0.5);
                (blob(r, d, None, q), blob(r, d, Some(3), q))
            }
        }
        "x_trivial" => {
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                for _ in 0..r.below(4) {
                    let q = lat(r, 2, s);
                    p.move_to(q);
                    match r.below(6) {
                        0 => {}
                        1 => p.close_path(),
                        2 => {
                            p.line_to(q);
                            p.close_path()
                        }
                        3 => {
                            p.quad_to(q, q);
                            p.curve_to(q, q, q);
                            p.close_path()
                        }
                        4 => {
                            p.line_to(lat(r, 2, s));
                            p.close_path()
                        }
                        _ => {
                            let z = lat(r, 2, s);
                            p.line_to(z);
                            p.line_to(q);
                        }
                    }
                }
                p
            };
            (mk(r), mk(r))
        }
        "x_zero_area" => {
            // Curves traversed forth and back.
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                for _ in 0..1 + r.below(3) {
                    let (q0, q1, q2, q3) = (lat(r, 4, s / 4.0), rnd(r, s), lat(r, 4, s / 4.0), lat(r, 4, s / 4.0));
                    p.move_to(q0);
                    if r.chance(0.5) {
                        p.curve_to(q1, q2, q3);
                        if r.chance(0.7) {
                            p.curve_to(q2, q1, q0);
                        }
                    } else {
                        p.quad_to(q1, q3);
                        p.quad_to(q1, q0);
                    }
                    p.close_path();
                }
                p
            };
            (mk(r), mk(r))
        }
        "x_stack" => {
            // The same figure many times.
            let base = match r.below(3) {
                0 => lattice_polygon(r, 3, s / 3.0),
                1 => {
                    let q = r.chance(0.5);
                    blob(r, s, None, q)
                }
                _ => circle(Point::ZERO, s),
            };
            let d = eps.unwrap_or(1e-6) * *r.pick(&[0.0, 0.0, 0.3, 1.0]);
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            for _ in 0..2 + r.below(8) {
                let t = if r.chance(0.5) { &mut a } else { &mut b };
                let q = Affine::translate((r.range(-d, d), r.range(-d, d))) * base.clone();
                let q = if r.chance(0.4) { reverse(&q) } else { q };
                append(t, &q);
            }
            (a, b)
        }
        "x_comb" => {
            // Combs crossing each other.
            let n = 5 + r.below(20);
            let mk = |r: &mut Rng, tr: bool| {
                let mut pts = vec![];
                for i in 0..n {
                    let x0 = (2 * i) as f64 / n as f64 * s;
                    let x1 = (2 * i + 1) as f64 / n as f64 * s;
                    let h = s * (1.0 + r.f());
                    pts.extend([Point::new(x0, 0.0), Point::new(x0, h), Point::new(x1, h), Point::new(x1, 0.0)]);
                }
                pts.push(Point::new(2.0 * s, 0.0));
                pts.push(Point::new(2.0 * s, -0.3 * s));
                pts.push(Point::new(0.0, -0.3 * s));
                let p = polygon(&pts);
                if tr {
                    crate::oracle::transpose(&p)
                } else {
                    p
                }
            };
            let a = mk(r, false);
            let tr = r.chance(0.7);
            (a, mk(r, tr))
        }
        "x_spiral" => {
            let mk = |r: &mut Rng| {
                let turns = 2 + r.below(5);
                let m = 8;
                let c = lat(r, 2, s / 10.0);
                let ph = r.range(0.0, 6.3);
                let mut pts = vec![];
                for i in 0..turns * m {
                    let t = i as f64 / m as f64;
                    let a = ph + t * std::f64::consts::TAU;
                    pts.push(c + Vec2::new(a.cos(), a.sin()) * (s * (0.2 + t) / turns as f64));
                }
                polygon(&pts)
            };
            (mk(r), mk(r))
        }
        _ => {
            // Cubics with cusps, loops and inflections, and control points on top of end points.
            let mk = |r: &mut Rng| {
                let mut p = BezPath::new();
                for _ in 0..1 + r.below(3) {
                    let q0 = lat(r, 3, s / 3.0);
                    let q3 = lat(r, 3, s / 3.0);
                    p.move_to(q0);
                    let (c1, c2) = match r.below(5) {
                        0 => (q0, q3),
                        1 => (q3, q0),
                        2 => (Point::new(q3.x, q0.y), Point::new(q0.x, q3.y)),
                        3 => (Point::new(q3.x, q3.y), Point::new(q0.x, q0.y) + (q0 - q3)),
                        _ => (q0 + (q3 - q0) * 3.0, q0 - (q3 - q0) * 2.0),
                    };
                    p.curve_to(c1, c2, q3);
                    if r.chance(0.5) {
                        p.line_to(lat(r, 3, s / 3.0));
                    }
                    p.close_path();
                }
                p
            };
            (mk(r), mk(r))
        }
    };
    Case { family, a, b, eps }
}

/// Shapes inside, next to and touching each other, several levels deep.
pub fn nest_case(seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, 501, index);
    let r = &mut r;
    let s = *r.pick(&[1.0, 64.0, 1000.0]);
    let mut a = BezPath::new();
    let mut b = BezPath::new();
    let lattice = r.chance(0.5);
    let only_a = r.chance(0.4);
    fn fillin(r: &mut Rng, c: Point, h: f64, depth: usize, lattice: bool, only_a: bool, a: &mut BezPath, b: &mut BezPath) {
        if depth == 0 {
            return;
        }
        // The shape has half-width h around c.
        let shape = match r.below(if lattice { 2 } else { 5 }) {
            0 => polygon(&[c + Vec2::new(-h, -h), c + Vec2::new(h, -h), c + Vec2::new(h, h), c + Vec2::new(-h, h)]),
            1 => polygon(&[c + Vec2::new(0.0, -h), c + Vec2::new(h, 0.0), c + Vec2::new(0.0, h), c + Vec2::new(-h, 0.0)]),
            2 => circle(c, h),
            3 => smooth_blob(r, c, h),
            _ => {
                let n = 3 + r.below(5);
                let ph = r.range(0.0, 6.3);
                let pts: Vec<Point> = (0..n)
                    .map(|i| {
                        let t = ph + i as f64 / n as f64 * std::f64::consts::TAU;
                        c + Vec2::new(t.cos(), t.sin()) * (h * r.range(0.7, 1.0))
                    })
                    .collect();
                polygon(&pts)
            }
        };
        let shape = if r.chance(0.5) { reverse(&shape) } else { shape };
        append(if only_a || r.chance(0.5) { a } else { b }, &shape);
        // Children on a grid within, possibly touching the border and each other.
        let k = 1 + r.below(2);
        let n = 2 * k as i64 - 1;
        let _ = n;
        for _ in 0..1 + r.below(3) {
            let f = *r.pick(&[0.25, 0.5, 0.5, 0.375]);
            let m = r.int(-1, 1) as f64;
            let m2 = r.int(-1, 1) as f64;
            let off = if lattice { Vec2::new(m, m2) * (h * 0.5) } else { Vec2::new(r.range(-0.4, 0.4), r.range(-0.4, 0.4)) * h };
            fillin(r, c + off, h * f, depth - 1, lattice, only_a, a, b);
        }
    }
    for _ in 0..1 + r.below(3) {
        let c = lat(r, 1, 2.0 * s);
        let d = 1 + r.below(4);
        fillin(r, c, s, d, lattice, only_a, &mut a, &mut b);
    }
    let eps = if r.chance(0.2) { None } else { Some(s * *r.pick(&[1e-6, 1e-5, 1e-4])) };
    Case { family: "nest", a, b, eps }
}
