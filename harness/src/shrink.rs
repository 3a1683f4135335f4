//! Greedy minimisation of failing cases (used for exploration and reports).
use crate::gen::Case;
use kurbo::{BezPath, PathEl};

fn subpaths(p: &BezPath) -> Vec<Vec<PathEl>> {
    let mut out: Vec<Vec<PathEl>> = vec![];
    for e in p.elements() {
        if matches!(e, PathEl::MoveTo(_)) || out.is_empty() {
            out.push(vec![]);
        }
        out.last_mut().unwrap().push(*e);
    }
    out
}

fn join(s: &[Vec<PathEl>]) -> BezPath {
    s.iter().flatten().copied().collect()
}

fn variants(p: &BezPath) -> Vec<BezPath> {
    let mut v = vec![];
    let sp = subpaths(p);
    for i in 0..sp.len() {
        let mut q = sp.clone();
        q.remove(i);
        v.push(join(&q));
    }
    for i in 0..sp.len() {
        for j in 1..sp[i].len() {
            if matches!(sp[i][j], PathEl::ClosePath) {
                continue;
            }
            let mut q = sp.clone();
            q[i].remove(j);
            v.push(join(&q));
        }
        for j in 1..sp[i].len() {
            let mut q = sp.clone();
            match q[i][j] {
                PathEl::CurveTo(a, _, c) => {
                    q[i][j] = PathEl::QuadTo(a, c);
                    v.push(join(&q));
                    q[i][j] = PathEl::LineTo(c);
                    v.push(join(&q));
                }
                PathEl::QuadTo(_, c) => {
                    q[i][j] = PathEl::LineTo(c);
                    v.push(join(&q));
                }
                _ => {}
            }
        }
    }
    v
}

fn round_variants(p: &BezPath) -> Vec<BezPath> {
    let mut v = vec![];
    for digits in [0, 1, 2, 3, 4, 6, 8] {
        let k = 10f64.powi(digits);
        let q = crate::oracle::map_path(p, |q| kurbo::Point::new((q.x * k).round() / k, (q.y * k).round() / k));
        if q.elements() != p.elements() {
            v.push(q);
        }
    }
    v
}

pub fn shrink(c: &Case, mut fails: impl FnMut(&Case) -> bool) -> Case {
    let mut cur = c.clone();
    let mut budget = 4000;
    loop {
        let mut progress = false;
        for side in 0..2 {
            let vs = {
                let p = if side == 0 { &cur.a } else { &cur.b };
                let mut v = variants(p);
                v.extend(round_variants(p));
                v
            };
            for v in vs {
                if budget == 0 {
                    return cur;
                }
                budget -= 1;
                let mut n = cur.clone();
                if n.eps.is_none() {
                    n.eps = Some(n.eps());
                }
                if side == 0 {
                    n.a = v
                } else {
                    n.b = v
                }
                if fails(&n) {
                    cur = n;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            return cur;
        }
    }
}
