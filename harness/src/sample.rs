//! Choosing test points whose true winding number is unambiguous.
use crate::oracle::*;
use crate::rng::Rng;
use kurbo::{BezPath, ParamCurve, ParamCurveDeriv, Point};

pub struct Inputs {
    pub curves: Vec<Curves>,
    pub curves_t: Vec<Curves>,
    pub all: Curves,
}

impl Inputs {
    pub fn new(paths: &[&BezPath]) -> Self {
        let curves: Vec<_> = paths.iter().map(|p| Curves::new(p)).collect();
        let curves_t: Vec<_> = paths.iter().map(|p| Curves::new(&transpose(p))).collect();
        let mut all = Curves::default();
        for p in paths {
            all.extend(p);
        }
        Inputs { curves, curves_t, all }
    }
    pub fn windings(&self, p: Point) -> Vec<i32> {
        self.curves.iter().map(|c| c.winding(p)).collect()
    }
    pub fn scale(&self) -> f64 {
        self.all.scale
    }
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub p: Point,
    pub w: Vec<i32>,
}

/// Pick points at distance more than `d` from every input curve.
pub fn samples(inp: &Inputs, d: f64, lines: usize, cap: usize, r: &mut Rng) -> Vec<Sample> {
    let mut out = vec![];
    let Some(bb) = inp.all.bbox() else { return out };
    for dir in 0..2 {
        let cs: &Vec<Curves> = if dir == 0 { &inp.curves } else { &inp.curves_t };
        let (lo, hi) = if dir == 0 { (bb.1, bb.3) } else { (bb.0, bb.2) };
        // critical coordinates
        let mut crit: Vec<f64> = cs.iter().flat_map(|c| c.monos.iter().flat_map(|m| [m.p0.y, m.p1.y])).collect();
        crit.sort_by(|a, b| a.partial_cmp(b).unwrap());
        crit.dedup();
        for _ in 0..lines {
            let y = match r.below(4) {
                0 => r.range(lo - 4.0 * d, hi + 4.0 * d),
                1 => {
                    let c = *r.pick(&crit);
                    c + d * r.range(-3.0, 3.0)
                }
                2 if crit.len() > 1 => {
                    let i = r.below(crit.len() - 1);
                    crit[i] + (crit[i + 1] - crit[i]) * r.range(0.05, 0.95)
                }
                _ => {
                    let a = *r.pick(&crit);
                    let b = *r.pick(&crit);
                    a + (b - a) * r.f()
                }
            };
            let mut xs: Vec<f64> = cs.iter().flat_map(|c| c.crossings(y).into_iter().map(|c| c.0)).collect();
            xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut cand = vec![];
            if xs.is_empty() {
                let (l2, h2) = if dir == 0 { (bb.0, bb.2) } else { (bb.1, bb.3) };
                cand.push(r.range(l2, h2));
            } else {
                cand.push(xs[0] - 1.2 * d);
                cand.push(xs[xs.len() - 1] + 1.2 * d);
                for w in xs.windows(2) {
                    let g = w[1] - w[0];
                    if g > 2.0 * d {
                        cand.push(0.5 * (w[0] + w[1]));
                    }
                    if g > 4.0 * d {
                        cand.push(w[0] + 1.2 * d);
                        cand.push(w[1] - 1.2 * d);
                    }
                }
            }
            let mut n = 0;
            r.shuffle(&mut cand);
            for x in cand {
                if n >= cap {
                    break;
                }
                let p = if dir == 0 { Point::new(x, y) } else { Point::new(y, x) };
                if inp.all.closer_than(p, d) {
                    continue;
                }
                n += 1;
                out.push(Sample { p, w: inp.windings(p) });
            }
        }
    }
    // Points just off the curves, on both sides, along the normal.
    let n = inp.all.segs.len();
    for _ in 0..(lines * 4).min(4 * n) {
        let i = r.below(n);
        let c = inp.all.segs[i];
        let u = r.f();
        let t = *r.pick(&[0.001, 0.01, 0.5, 0.99, u, u, u]);
        let q = c.eval(t);
        let v = c.deriv().eval(t).to_vec2();
        let l = v.hypot();
        if l == 0.0 || !l.is_finite() {
            continue;
        }
        let nrm = kurbo::Vec2::new(-v.y, v.x) / l;
        for sgn in [-1.0, 1.0] {
            let p = q + nrm * (sgn * d * 1.25);
            if !inp.all.closer_than(p, d) {
                out.push(Sample { p, w: inp.windings(p) });
            }
        }
    }
    out
}
