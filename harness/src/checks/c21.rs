//! C21: curves that touch nothing come out unchanged.
use super::*;
use crate::{common::*, driver::*, gen, oracle::Curves, rng::Rng, sample};
use kurbo::{Affine, BezPath, ParamCurve, ParamCurveDeriv, PathSeg, Point, Vec2};
use linesweeper::*;

/// A closed star-shaped curve around `c` with distances between `lo` and `hi` (up to
/// the bulge of curves, which is scaled away afterwards).
fn shape(r: &mut Rng, c: Point, lo: f64, hi: f64) -> Option<BezPath> {
    let ph = if r.chance(0.4) { 0.0 } else { r.range(0.0, 6.3) };
    let kind = r.below(7);
    let n = 3 + r.below(6);
    let at = |a: f64, q: f64| c + Vec2::new(a.cos(), a.sin()) * q;
    let ang = |i: usize| ph + i as f64 / n as f64 * std::f64::consts::TAU;
    let mut p = BezPath::new();
    match kind {
        0 => {
            // polygon
            let pts: Vec<Point> = (0..n).map(|i| at(ang(i), r.range(0.6, 1.0))).collect();
            p = gen::polygon(&pts);
        }
        1 => p = gen::polygon(&[c + Vec2::new(-1.0, -0.6), c + Vec2::new(1.0, -0.6), c + Vec2::new(1.0, 0.6), c + Vec2::new(-1.0, 0.6)]),
        2 => {
            use kurbo::Shape as _;
            p = kurbo::Circle::new(c, 1.0).to_path(1e-3);
            p = crate::common::join(&[p.elements().to_vec()]);
        }
        3 => {
            // quadratics through the middles of a polygon's edges
            let pts: Vec<Point> = (0..n).map(|i| at(ang(i), r.range(0.7, 1.0))).collect();
            p.move_to(pts[n - 1].midpoint(pts[0]));
            for i in 0..n {
                p.quad_to(pts[i], pts[i].midpoint(pts[(i + 1) % n]));
            }
            p.close_path();
        }
        4 => {
            // smooth cubics
            let pts: Vec<Point> = (0..n).map(|i| at(ang(i), r.range(0.8, 1.0))).collect();
            p.move_to(pts[0]);
            for i in 0..n {
                let (p0, p1, p2, p3) = (pts[(i + n - 1) % n], pts[i], pts[(i + 1) % n], pts[(i + 2) % n]);
                p.curve_to(p1 + (p2 - p0) / 6.0, p2 - (p3 - p1) / 6.0, p2);
            }
            p.close_path();
        }
        5 => {
            // a mixture, with corners
            let pts: Vec<Point> = (0..n).map(|i| at(ang(i), r.range(0.7, 1.0))).collect();
            p.move_to(pts[0]);
            for i in 0..n {
                let (p1, p2) = (pts[i], pts[(i + 1) % n]);
                let m = p1.midpoint(p2);
                match r.below(3) {
                    0 => p.line_to(p2),
                    1 => p.quad_to(m + (m - c) * 0.3, p2),
                    _ => p.curve_to(p1.lerp(p2, 0.3) + (m - c) * 0.2, p1.lerp(p2, 0.7) + (m - c) * r.range(0.0, 0.3), p2),
                }
            }
            p.close_path();
        }
        _ => {
            // a single closed cubic: a drop
            let a = ph;
            let w = r.range(0.4, 1.2);
            p.move_to(at(a, 0.0) - Vec2::new(a.cos(), a.sin()) * 0.5);
            let s0 = at(a, 0.0) - Vec2::new(a.cos(), a.sin()) * 0.5;
            p.curve_to(at(a + w, 1.0), at(a - w, 1.0), s0);
            p.close_path();
        }
    }
    if kind == 6 && lo > 0.0 {
        return None;
    }
    if r.chance(0.5) {
        p = gen::reverse(&p);
    }
    // Scale so that it fits between the radii.
    let cs = Curves::new(&p);
    let (mut mn, mut mx) = (f64::INFINITY, 0.0f64);
    for s in &cs.segs {
        for k in 0..=64 {
            let d = s.eval(k as f64 / 64.0).distance(c);
            mn = mn.min(d);
            mx = mx.max(d);
        }
    }
    let (mn, mx) = (mn * 0.98, mx * 1.01);
    let f = hi / mx;
    if !(mn * f > lo) {
        return None;
    }
    Some(Affine::translate(c.to_vec2()) * Affine::scale(f) * Affine::translate(-c.to_vec2()) * p)
}

struct Scene {
    case: gen::Case,
    /// All subpaths that touch nothing: which operand, path, clearance.
    lone: Vec<(usize, BezPath, f64)>,
}

fn scene(seed: u64, i: u64) -> Scene {
    let mut rr = Rng::new(seed, 521, i);
    let r = &mut rr;
    let s = *r.pick(&[1.0, 1.0, 10.0, 1000.0, 0.01]);
    let rel = *r.pick(&[1e-8, 1e-7, 1e-6, 1e-6, 1e-5, 1e-4]);
    let eps = s * rel;
    let (mut a, mut b) = (BezPath::new(), BezPath::new());
    let mut lone = vec![];
    let cells = 1 + r.below(4);
    let clutter = r.chance(0.5);
    let mut subs: Vec<(usize, BezPath)> = vec![];
    // The gap between shapes, often just a small multiple of eps.
    for cell in 0..cells {
        let c0 = Point::new(((cell % 2) as f64 * 2.0 - 1.0) * s, ((cell / 2) as f64 * 2.0 - 1.0) * s);
        let c = if r.chance(0.5) { c0 } else { c0 + Vec2::new(r.range(-0.01, 0.01), r.range(-0.01, 0.01)) * s };
        if clutter && cell == 0 {
            let q = gen::case(seed ^ 0xc1077e5, i * 7919 + cell as u64);
            let m = gen::max_abs(&q.a).max(gen::max_abs(&q.b)).max(1e-300);
            let t = Affine::translate(c.to_vec2()) * Affine::scale(0.5 * s / m);
            // Curves stay within the hull of their control points, that is, within 0.5 s * sqrt 2.
            gen::append(&mut a, &(t * q.a));
            gen::append(&mut b, &(t * q.b));
            continue;
        }
        let mut hi = 0.9 * s;
        let mut depth = 0;
        let mut outer = 0.05 * s;
        while depth < 4 && hi > 0.02 * s + 1000.0 * eps {
            let lo = if r.chance(0.3) { 0.0 } else { hi * r.range(0.2, 0.7) };
            let gap = (eps * *r.pick(&[30.0, 100.0, 1000.0, 1e4])).min(0.05 * s);
            if let Some(p) = shape(r, c, lo, hi) {
                let w = r.below(2);
                subs.push((w, p.clone()));
                lone.push((w, p, gap.min(outer)));
            }
            if lo == 0.0 {
                break;
            }
            hi = lo - gap;
            outer = gap;
            depth += 1;
        }
    }
    r.shuffle(&mut subs);
    for (w, p) in &subs {
        gen::append(if *w == 0 { &mut a } else { &mut b }, p);
    }
    Scene { case: gen::Case { family: "lone", a, b, eps: Some(eps) }, lone }
}

fn segs(p: &BezPath) -> Vec<PathSeg> {
    p.segments().filter(|s| !(s.start() == s.end() && matches!(s, PathSeg::Line(_)))).collect()
}

fn ctrl(s: &PathSeg) -> [Point; 4] {
    let c = s.to_cubic();
    [c.p0, c.p1, c.p2, c.p3]
}

/// The length of the control polygon.
fn extent(s: &PathSeg) -> f64 {
    let c = ctrl(s);
    (0..3).map(|k| c[k].distance(c[k + 1])).sum()
}

#[derive(Default, Debug)]
struct Seen {
    extra: u64,
    retyped: u64,
    split: u64,
    exact: u64,
    unchanged: u64,
    inexact: f64,
}

/// Is a curve almost horizontal next to its start, up to an extremum? Then it is cut
/// there, the piece before the extremum is lower than a few eps, and the joint may
/// end up anywhere on it.
fn turns_at_start(w: &PathSeg, eps: f64, scale: f64) -> bool {
    use kurbo::ParamCurveExtrema;
    if let PathSeg::Line(l) = w {
        let h = (l.p1.y - l.p0.y).abs();
        return h != 0.0 && h < 20.0 * eps;
    }
    let y0 = w.start().y;
    let tan = w.to_cubic().deriv().eval(0.0).to_vec2();
    let level = tan.y.abs() <= 1e-3 * tan.hypot() || tan.hypot() < 1e-6 * scale;
    level || w.extrema().into_iter().any(|t| (w.eval(t).y - y0).abs() < 20.0 * eps)
}

fn flat(g: &PathSeg, eps: f64) -> bool {
    let c = ctrl(g);
    c.iter().all(|p| (p.y - c[0].y).abs() < 20.0 * eps)
}

/// Does a curve turn twice within a few eps? Then it can be cut there.
fn wavers(w: &PathSeg, eps: f64) -> bool {
    use kurbo::ParamCurveExtrema;
    let e: Vec<f64> = w.extrema().into_iter().map(|t| w.eval(t).y).collect();
    if matches!(w, PathSeg::Line(_)) {
        return false;
    }
    let d = w.to_cubic().deriv();
    (0..e.len()).any(|i| (0..i).any(|j| (e[i] - e[j]).abs() < 50.0 * eps))
        || (0..=64).any(|k| {
            // An inflection that is almost horizontal.
            let t = k as f64 / 64.0;
            let v = d.eval(t);
            v.y.abs() <= 0.01 * v.to_vec2().hypot() && !w.extrema().into_iter().any(|u| (u - t).abs() < 0.05)
        })
}

/// How far the end of a curve may move when it is cut a few eps above or below.
fn reach(w: &PathSeg, eps: f64) -> f64 {
    if let PathSeg::Line(l) = w {
        let v = l.p1 - l.p0;
        return 50.0 * eps * if v.y == 0.0 { 1.0 } else { 1.0 + v.x.abs() / v.y.abs() };
    }
    let d = w.to_cubic().deriv();
    [0.0, 1.0].iter().map(|t| d.eval(*t).to_vec2()).map(|v| 50.0 * eps * (1.0 + v.x.abs() / v.y.abs())).fold(0.0, f64::max)
}

/// Compare a closed sequence with an output contour. `Err` tells the first difference.
fn same(p: &BezPath, want: &[PathSeg], got: &[PathSeg], eps: f64, scale: f64) -> Result<Seen, (usize, String)> {
    let mut seen = Seen::default();
    let n = want.len();
    let line = |s: &PathSeg| matches!(s, PathSeg::Line(_));
    let prev = |i: usize| &want[(i + n - 1) % n];
    let loose: Vec<bool> = (0..n).map(|i| turns_at_start(&want[i], eps, scale) || turns_at_start(&prev(i).reverse(), eps, scale)).collect();
    // The vertices have to be there.
    for i in (0..n).filter(|i| !loose[*i]) {
        let v = want[i].start();
        let m = got.iter().map(|g| g.start().distance(v)).fold(f64::INFINITY, f64::min);
        if m > 1e-13 * scale {
            return Err((0, format!("vertex {v:?} is {m} away from the closest vertex of the output")));
        }
        if line(&want[i]) && line(prev(i)) && m == 0.0 {
            seen.exact += 1;
        }
        seen.inexact = seen.inexact.max(m / scale);
    }
    // Elements between such vertices have to be there in order, up to tiny ones at their ends.
    let mut places = vec![];
    for (i, w) in want.iter().enumerate() {
        if loose[i] || loose[(i + 1) % n] || wavers(w, eps) || extent(w) <= 8.0 * reach(w, eps) {
            seen.split += 1;
            continue;
        }
        let cw = ctrl(w);
        let found = got.iter().position(|g| {
            let c = ctrl(g);
            (0..4).all(|k| cw[k].distance(c[k]) <= 1e-9 * scale + if k % 3 == 0 { 1.0 } else { 2.0 } * reach(w, eps)) && (line(w) == line(g))
        });
        let Some(j) = found else { return Err((places.len(), format!("{w:?} is not there"))) };
        let c = ctrl(&got[j]);
        if (0..4).all(|k| cw[k].distance(c[k]) <= 1e-9 * scale) {
            seen.unchanged += 1;
        }
        if std::mem::discriminant(w) != std::mem::discriminant(&got[j]) {
            seen.retyped += 1;
        }
        places.push(j);
    }
    let descents = (0..places.len()).filter(|k| places[*k] >= places[(k + 1) % places.len()]).count();
    if places.len() > 1 && descents != 1 {
        return Err((n, format!("the elements are not in order: {places:?}")));
    }
    // There is nothing else, and all of it is on the curve.
    let long = got.iter().filter(|g| extent(g) > 50.0 * eps && !flat(g, eps)).count();
    seen.extra = (got.len() - long) as u64;
    if long > places.len() + 5 * (n - places.len()) {
        return Err((n, format!("{long} elements for {n} (additional {:?})", got.iter().filter(|g| extent(g) > 50.0 * eps && !want.iter().any(|w| ctrl(w)[0].distance(ctrl(g)[0]) + ctrl(w)[3].distance(ctrl(g)[3]) < 1e-9 * scale + 50.0 * eps)).collect::<Vec<_>>())));
    }
    let cs = Curves::new(p);
    for g in got {
        for k in 0..=8 {
            let q = g.eval(k as f64 / 8.0);
            if !cs.closer_than(q, 2.0 * eps) {
                return Err((n, format!("{q:?} is {} away from it", cs.dist(q))));
            }
        }
    }
    Ok(seen)
}

fn check(sc: &Scene, rule: FillRule, op: BinaryOp, o: &mut Outcome) {
    let c = &sc.case;
    let Some(out) = observe(c, rule, op, o) else { return };
    let tail = || format!("{op:?} {rule:?} {}", c.describe());
    let inp = sample::Inputs::new(&[&c.a, &c.b]);
    let mut contours: Vec<Vec<PathSeg>> = out.contours().map(|x| segs(&x.path)).collect();
    // Where a curve turns, slivers lower than a few eps may come out.
    let n = contours.len();
    contours.retain(|k| {
        let ys = k.iter().flat_map(|s| ctrl(s)).map(|p| p.y);
        ys.clone().fold(f64::NEG_INFINITY, f64::max) - ys.fold(f64::INFINITY, f64::min) > 20.0 * c.eps()
    });
    o.count("flat slivers passed over", (n - contours.len()) as u64);
    let scale = inp.scale();
    for (w, p, gap) in &sc.lone {
        let want = segs(p);
        // Which side is inside?
        let mid = want[0].eval(0.5);
        let d = want[0].to_cubic().deriv().eval(0.5).to_vec2();
        let nrm = Vec2::new(-d.y, d.x) / d.hypot() * (0.4 * gap);
        let sides: Vec<bool> = [mid + nrm, mid - nrm]
            .iter()
            .map(|q| {
                let w = inp.windings(*q);
                expect(op, fill(rule, w[0]), fill(rule, w[1]))
            })
            .collect();
        o.evals += 1;
        let near = |q: Point| -> bool { contours.iter().flatten().any(|s| s.start().distance(q) < 0.3 * gap || s.end().distance(q) < 0.3 * gap) };
        if sides[0] == sides[1] {
            o.count("lone subpaths inside or outside of the result", 1);
            if let Some(v) = want.iter().map(|s| s.start()).find(|v| near(*v)) {
                o.violate(sig(c, rule, op), format!("{} of operand {w} does not bound the result, but its vertex {v:?} is in the output | {}", p.to_svg(), tail()));
                return;
            }
            continue;
        }
        o.count("lone subpaths on the boundary of the result", 1);
        // Exactly one contour is there.
        let pc = Curves::new(p);
        let here: Vec<&Vec<PathSeg>> = contours.iter().filter(|k| k.iter().any(|s| extent(s) > 50.0 * c.eps()) && pc.closer_than(k[0].start(), 0.3 * gap)).collect();
        if here.len() != 1 {
            o.violate(sig(c, rule, op), format!("{} of operand {w} comes out {} times: {:?} | {}", p.to_svg(), here.len(), here.iter().map(|k| k[0].start()).collect::<Vec<_>>(), tail()));
            return;
        }
        let k = here[0];
        let rv: Vec<PathSeg> = k.iter().rev().map(|s| s.reverse()).collect();
        let x = same(p, &want, k, c.eps(), scale).or_else(|e| same(p, &want, &rv, c.eps(), scale).map_err(|e1| if e1.0 > e.0 { e1 } else { e }));
        match x {
            Ok(x) => {
                o.count("extra tiny elements", x.extra);
                o.count("vertices of lines found exactly", x.exact);
                o.count("elements unchanged", x.unchanged);
                o.count("quadratics returned as cubics", x.retyped);
                o.count("elements at turning points compared as point sets only", x.split);
                o.count("max:vertices moved in 1e-18 of the size", (x.inexact * 1e18) as u64);
            }
            Err((_, e)) => {
                o.violate(sig(c, rule, op), format!("{} of operand {w} is changed: {e} | {}", p.to_svg(), tail()));
                return;
            }
        }
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(50_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let sc = scene(seed, i);
        let mut r = case_rng(seed, 21, i);
        if !sc.lone.is_empty() {
            o.nontrivial = Some(hash_str(&sc.case.describe()));
        }
        let rule = *r.pick(&RULES);
        let op = *r.pick(&OPS);
        check(&sc, rule, op, &mut o);
        if i % 9973 == 500 {
            o.sample = Some(sc.case.describe());
        }
        o
    });
    Report {
        agg,
        rule: "Scenes of up to four cells, each with up to four nested shapes of either operand (polygons, rectangles, circles, smooth and cornered mixtures of lines, quadratics and cubics, single closed cubics; both directions), separated by 30 to 10000 eps; in half of them one cell holds a drawing of the common workload instead; eps between 1e-8 and 1e-4 of the size. One operation is run. An evaluation compares one separate shape with the output: absent if it does not bound the result; otherwise exactly one contour with the same vertices and elements in the same order. Elements next to turning or nearly horizontal places are compared as point sets within 2 eps only, and contours lower than 20 eps are passed over. Non-trivial: there is such a shape.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| scene(seed, i).case.describe()),
    }
}

/// For exploration.
pub fn probe(seed: u64, i: u64, x: f64, y: f64, d: f64) {
    let sc = scene(seed, i);
    let mut r = case_rng(seed, 21, i);
    let (rule, op) = (*r.pick(&RULES), *r.pick(&OPS));
    println!("{op:?} {rule:?} {}", sc.case.describe());
    for (w, p, gap) in &sc.lone {
        println!("{w} gap {gap} {}", p.to_svg());
    }
    let out = boolop(&sc.case, rule, op).unwrap();
    for (k, c) in out.contours().enumerate() {
        for s in segs(&c.path) {
            if s.start().distance(Point::new(x, y)) < d || s.end().distance(Point::new(x, y)) < d {
                println!("{k}: {s:?}");
            }
        }
    }
}
