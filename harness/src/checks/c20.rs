//! C20: how a drawing is presented does not matter.
use super::*;
use crate::{common::*, driver::*, gen, rng::Rng, sample};
use kurbo::{BezPath, CubicBez, Line, ParamCurve, PathSeg, Point, QuadBez};
use linesweeper::*;

type Sub = Vec<PathSeg>;

fn subs(p: &BezPath) -> Vec<Sub> {
    subpaths(p).iter().map(|s| join(&[s.clone()]).segments().collect::<Vec<_>>()).filter(|s: &Sub| !s.is_empty()).collect()
}

fn emit(ss: &[Sub]) -> BezPath {
    let mut p = BezPath::new();
    for s in ss {
        p.move_to(s[0].start());
        for x in s {
            p.push(x.as_path_el());
        }
        p.close_path();
    }
    p
}

fn rev(s: &Sub) -> Sub {
    s.iter().rev().map(|x| x.reverse()).collect()
}

fn map_seg(s: &PathSeg, f: &dyn Fn(Point) -> Point) -> PathSeg {
    match *s {
        PathSeg::Line(l) => PathSeg::Line(Line::new(f(l.p0), f(l.p1))),
        PathSeg::Quad(q) => PathSeg::Quad(QuadBez::new(f(q.p0), f(q.p1), f(q.p2))),
        PathSeg::Cubic(c) => PathSeg::Cubic(CubicBez::new(f(c.p0), f(c.p1), f(c.p2), f(c.p3))),
    }
}

const KINDS: [&str; 12] = [
    "reordered subpaths",
    "reversed path",
    "reversed one subpath",
    "rotated starting points",
    "translated",
    "mirrored left-right",
    "mirrored top-bottom",
    "turned by a right angle",
    "scaled by a power of two",
    "elevated to curves",
    "split edges",
    "all together",
];

struct Present {
    a: Vec<Sub>,
    b: Vec<Sub>,
    map: Vec<Box<dyn Fn(Point) -> Point>>,
    eps: f64,
}

impl Present {
    fn geom(&mut self, f: impl Fn(Point) -> Point + 'static) {
        for s in self.a.iter_mut().chain(self.b.iter_mut()) {
            for x in s.iter_mut() {
                *x = map_seg(x, &f);
            }
        }
        self.map.push(Box::new(f));
    }
    fn apply(&self, p: Point) -> Point {
        self.map.iter().fold(p, |p, f| f(p))
    }
    fn each(&mut self, r: &mut Rng, f: impl Fn(&mut Rng, &mut Sub)) {
        for s in self.a.iter_mut().chain(self.b.iter_mut()) {
            f(r, s);
        }
    }
    fn modify(&mut self, kind: usize, r: &mut Rng, scale: f64, rule: FillRule) {
        match kind {
            0 => {
                r.shuffle(&mut self.a);
                r.shuffle(&mut self.b);
            }
            1 => {
                let which = r.below(3);
                if which != 1 {
                    self.a = self.a.iter().rev().map(rev).collect();
                }
                if which != 0 {
                    self.b = self.b.iter().rev().map(rev).collect();
                }
            }
            2 => {
                // Only the even-odd rule ignores the direction of a single subpath.
                if rule == FillRule::EvenOdd {
                    self.each(r, |r, s| {
                        if r.chance(0.5) {
                            *s = rev(s)
                        }
                    })
                }
            }
            3 => self.each(r, |r, s| {
                let n = r.below(s.len());
                s.rotate_left(n)
            }),
            4 => {
                // Moving must not cost accuracy: stay within the precision the library supports (about a billionth).
                let max = (self.eps * 5e8).min(scale * 100.0);
                let m = max * 10f64.powf(-3.0 * r.f());
                let d = kurbo::Vec2::new(r.range(-m, m), r.range(-m, m));
                let d = if r.chance(0.3) { kurbo::Vec2::new(d.x.round(), d.y.round()) } else { d };
                self.geom(move |p| p + d);
            }
            5 => self.geom(|p| Point::new(-p.x, p.y)),
            6 => self.geom(|p| Point::new(p.x, -p.y)),
            7 => {
                if r.chance(0.5) {
                    self.geom(|p| Point::new(p.y, p.x))
                } else {
                    self.geom(|p| Point::new(-p.y, p.x))
                }
            }
            8 => {
                let k = 2f64.powi(r.int(-12, 12) as i32);
                self.eps *= k;
                self.geom(move |p| Point::new(p.x * k, p.y * k));
            }
            9 => self.each(r, |r, s| {
                for x in s.iter_mut() {
                    if r.chance(0.6) {
                        *x = match *x {
                            PathSeg::Line(l) if r.chance(0.5) => PathSeg::Quad(QuadBez::new(l.p0, l.p0.midpoint(l.p1), l.p1)),
                            PathSeg::Line(l) if r.chance(0.5) => {
                                // Another parametrization of the same line.
                                let mut t = [r.f(), r.f()];
                                if t[0] > t[1] {
                                    t.swap(0, 1);
                                }
                                PathSeg::Cubic(CubicBez::new(l.p0, l.p0.lerp(l.p1, t[0]), l.p0.lerp(l.p1, t[1]), l.p1))
                            }
                            y => PathSeg::Cubic(y.to_cubic()),
                        };
                    }
                }
            }),
            10 => self.each(r, |r, s| {
                let mut n: Sub = vec![];
                for x in s.iter() {
                    let k = if r.chance(0.5) { r.below(3) } else { 0 };
                    let mut ts: Vec<f64> = (0..k).map(|_| if r.chance(0.5) { 0.5 } else { r.f() }).collect();
                    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    let mut rest = *x;
                    let mut t0 = 0.0;
                    for t in ts {
                        if t <= t0 || t >= 1.0 {
                            continue;
                        }
                        let cut = (t - t0) / (1.0 - t0);
                        let l = rest.subsegment(0.0..cut);
                        let q = rest.subsegment(cut..1.0);
                        // Exact joints.
                        let joint = l.end();
                        let start = rest.start();
                        let end = rest.end();
                        n.push(with_ends(l, start, joint));
                        rest = with_ends(q, joint, end);
                        t0 = t;
                    }
                    n.push(rest);
                }
                *s = n;
            }),
            _ => {
                for k in 0..11 {
                    if r.chance(0.5) {
                        self.modify(k, r, scale, rule);
                    }
                }
            }
        }
    }
}

fn with_ends(s: PathSeg, p: Point, q: Point) -> PathSeg {
    match s {
        PathSeg::Line(_) => PathSeg::Line(Line::new(p, q)),
        PathSeg::Quad(c) => PathSeg::Quad(QuadBez::new(p, c.p1, q)),
        PathSeg::Cubic(c) => PathSeg::Cubic(CubicBez::new(p, c.p1, c.p2, q)),
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(50_000, 3_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 20, i);
        let inp = sample::Inputs::new(&[&c.a, &c.b]);
        // A little more than the tolerance, because cutting and moving rounds.
        let ss = sample::samples(&inp, 1.02 * c.tol(), 5, 10, &mut r);
        if interesting(&ss) {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        let rule = *r.pick(&RULES);
        let op = *r.pick(&OPS);
        let base = match crate::run::guarded(|| binary_op_with_eps(&c.a, &c.b, rule, op, c.eps())) {
            Ok(Ok(x)) => out_curves(&x),
            x => {
                o.violate(sig(&c, rule, op), format!("failed: {:?} | {op:?} {rule:?} {}", x.map(|_| ()), c.describe()));
                return o;
            }
        };
        let at: Vec<bool> = ss.iter().map(|s| base.winding(s.p) != 0).collect();
        for (s, m) in ss.iter().zip(&at) {
            o.evals += 1;
            if *m != expect(op, fill(rule, s.w[0]), fill(rule, s.w[1])) {
                o.violate(sig(&c, rule, op), format!("wrong already as given, at {:?} | {op:?} {rule:?} {}", s.p, c.describe()));
                return o;
            }
        }
        for k in [(i % 12) as usize, 11] {
            let mut p = Present { a: subs(&c.a), b: subs(&c.b), map: vec![], eps: c.eps() };
            p.modify(k, &mut r, inp.scale(), rule);
            let (pa, pb) = (emit(&p.a), emit(&p.b));
            let other = gen::Case { family: "presentation", a: pa.clone(), b: pb.clone(), eps: Some(p.eps) };
            if gen::has_subeps_slopes(&other) && !gen::has_subeps_slopes(&c) {
                o.count("skipped: edges became almost horizontal", 1);
                continue;
            }
            let describe = || format!("{op:?} {rule:?} eps={:?} A={:?} B={:?} is {} {}", p.eps, pa.to_svg(), pb.to_svg(), KINDS[k], c.describe());
            let sg = || format!("{}-{:016x}", KINDS[k].replace(' ', "-"), hash_str(&describe()));
            let out = match crate::run::guarded(|| binary_op_with_eps(&pa, &pb, rule, op, p.eps)) {
                Ok(Ok(x)) => out_curves(&x),
                x => {
                    o.violate(sg(), format!("failed: {:?} | {}", x.map(|_| ()), describe()));
                    continue;
                }
            };
            o.count(KINDS[k], 1);
            for (s, m) in ss.iter().zip(&at) {
                o.evals += 1;
                if (out.winding(p.apply(s.p)) != 0) != *m {
                    o.violate(sg(), format!("{:?} is {}in the result, its image isn't | {}", s.p, if *m { "" } else { "not " }, describe()));
                    break;
                }
            }
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload; each case is run as given and in two other presentations: one of eleven kinds (subpaths reordered or reversed, starting points rotated, moved, mirrored, turned, scaled by a power of two together with eps, lines and quadratics rewritten as curves of higher degree, edges split) and a random combination of them. An evaluation is one point away from the input curves which must be in the result if and only if its image is in the other presentation's result. Non-trivial: some point has a nonzero winding number in an input.".into(),
        assumptions: vec!["the harness's own winding-number computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}

/// For exploration: the presentation of a case that takes the most work.
pub fn probe(seed: u64, i: u64) {
    let c = gen::workload(seed, i);
    let mut r = case_rng(seed, 20, i);
    let inp = sample::Inputs::new(&[&c.a, &c.b]);
    let _ = sample::samples(&inp, 1.02 * c.tol(), 5, 10, &mut r);
    let rule = *r.pick(&RULES);
    let op = *r.pick(&OPS);
    println!("{op:?} {rule:?} {}", c.describe());
    for k in [(i % 12) as usize, 11] {
        let mut p = Present { a: subs(&c.a), b: subs(&c.b), map: vec![], eps: c.eps() };
        p.modify(k, &mut r, inp.scale(), rule);
        println!("{} eps {} {} {}", KINDS[k], p.eps, emit(&p.a).to_svg(), emit(&p.b).to_svg());
    }
}
