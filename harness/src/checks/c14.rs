//! C14: splitting paths into monotone pieces is faithful.
use super::*;
use crate::{common::*, driver::*, gen, pairs, rng::Rng, run};
use kurbo::{BezPath, CubicBez, ParamCurve, PathSeg, Point};
use linesweeper::{SegIdx, Segments};

/// Distances up to this, relative to the largest coordinate, are rounding.
const FP: f64 = 1e-12;

type Fail = (&'static str, String);

/// What should have been added, in order: closed or open chains of input segments.
struct Chain {
    segs: Vec<PathSeg>,
    /// The links run in a circle.
    closed: bool,
    /// Lines without length are kept.
    keep_empty: bool,
}

/// Everything that the arena tells about one piece.
#[derive(Clone, PartialEq)]
struct Piece {
    ends: [u64; 4],
    cubic: [u64; 8],
    line: bool,
    horizontal: bool,
    forward: bool,
    next: Option<SegIdx>,
    prev: Option<SegIdx>,
}

fn piece(s: &Segments, i: SegIdx) -> Piece {
    let (seg, c) = (&s[i], s[i].to_kurbo_cubic());
    let b = |p: Point| [p.x.to_bits(), p.y.to_bits()];
    let e = [s.oriented_start(i), s.oriented_end(i)];
    let mut cubic = [0; 8];
    for (k, p) in [c.p0, c.p1, c.p2, c.p3].into_iter().enumerate() {
        cubic[2 * k..2 * k + 2].copy_from_slice(&b(p));
    }
    Piece {
        ends: [e[0].x.to_bits(), e[0].y.to_bits(), e[1].x.to_bits(), e[1].y.to_bits()],
        cubic,
        line: seg.is_line(),
        horizontal: seg.is_horizontal(),
        forward: s.positively_oriented(i),
        next: s.contour_next(i),
        prev: s.contour_prev(i),
    }
}

fn pt(p: linesweeper::Point) -> Point {
    Point::new(p.x, p.y)
}

fn cubic(s: &PathSeg) -> CubicBez {
    match s {
        PathSeg::Line(l) => pairs::line(l.p0, l.p1),
        PathSeg::Quad(q) => q.raise(),
        PathSeg::Cubic(c) => *c,
    }
}

/// A curve cut where it turns around vertically or horizontally.
struct Arcs {
    c: CubicBez,
    ts: Vec<f64>,
}

fn arcs(c: CubicBez) -> Arcs {
    let mut ts = vec![0.0, 1.0];
    for g in [|p: Point| p.x, |p: Point| p.y] {
        let (d0, d1, d2) = (g(c.p1) - g(c.p0), g(c.p2) - g(c.p1), g(c.p3) - g(c.p2));
        // d0 (1-t)^2 + 2 d1 t (1-t) + d2 t^2
        let (a, h) = (d0 - 2.0 * d1 + d2, d0 - d1);
        // = a t^2 - 2 h t + d0
        let disc = d1 * d1 - d0 * d2;
        let z = h + disc.max(0.0).sqrt().copysign(h);
        ts.extend([z / a, d0 / z, h / a].into_iter().filter(|t| *t > 0.0 && *t < 1.0));
    }
    ts.sort_by(f64::total_cmp);
    Arcs { c, ts }
}

/// About the distance from a point to a curve, if it's small (it is at most sqrt(2) times as large).
fn distance(p: Point, a: &Arcs, enough: f64) -> f64 {
    let mut best = f64::INFINITY;
    for w in a.ts.windows(2) {
        for g in [|p: Point| p.x, |p: Point| p.y] {
            let (mut l, mut r) = (w[0], w[1]);
            let (u, v) = (g(a.c.eval(l)), g(a.c.eval(r)));
            for _ in 0..70 {
                let m = 0.5 * (l + r);
                if (g(a.c.eval(m)) < g(p)) == (u < v) {
                    l = m;
                } else {
                    r = m;
                }
            }
            best = best.min((a.c.eval(l) - p).hypot()).min((a.c.eval(r) - p).hypot());
            if best <= enough {
                return best;
            }
        }
    }
    best
}

/// Is this sequence of pieces that input segment?
fn matches(s: &Segments, ids: &[SegIdx], input: &PathSeg, keep_empty: bool, o: &mut Outcome) -> Result<(), String> {
    let c = cubic(input);
    let mag = pairs::mag(&c);
    let f = FP * mag;
    if let PathSeg::Line(l) = input {
        let want = usize::from(keep_empty || l.p0 != l.p1);
        if ids.len() != want {
            return Err(format!("{} pieces", ids.len()));
        }
        for &i in ids {
            if !s[i].is_line() {
                return Err("not a line".into());
            }
        }
        return Ok(());
    }
    let mut max = 0.0f64;
    // What is left out, or is replaced by a straight line, has no height.
    let mut flat: Vec<f64> = ids.iter().filter(|i| s[**i].is_horizontal()).map(|i| s[*i].start().y).collect();
    for i in ids {
        flat.extend([s[*i].start().y, s[*i].end().y]);
    }
    if ids.is_empty() {
        flat.push(c.p0.y);
    }
    let ca = arcs(c);
    let pa: Vec<Arcs> = ids.iter().map(|i| arcs(s[*i].to_kurbo_cubic())).collect();
    for &i in ids {
        let q = s[i].to_kurbo_cubic();
        for k in 1..8 {
            let p = q.eval(k as f64 / 8.0);
            let d = distance(p, &ca, 0.1 * f);
            o.evals += 1;
            max = max.max(d);
            if d > f {
                return Err(format!("{p} is off the input by {d:e}"));
            }
        }
    }
    for k in 1..16 {
        let p = c.eval(k as f64 / 16.0);
        if flat.iter().any(|y| (p.y - y).abs() <= f) {
            continue;
        }
        let d = pa.iter().map(|i| distance(p, i, 0.1 * f)).fold(f64::INFINITY, f64::min);
        o.evals += 1;
        max = max.max(d);
        if d > f {
            return Err(format!("{p} of the input is {d:e} from the pieces"));
        }
    }
    o.count("max:distance, 1e-18", (max / mag.max(1e-300) * 1e18) as u64);
    Ok(())
}

/// Assigns pieces to input segments; a piece may end where its input segment ends without being its last one.
fn assign(s: &Segments, ids: &[SegIdx], segs: &[PathSeg], keep_empty: bool, o: &mut Outcome, why: &mut String) -> bool {
    let Some(first) = segs.first() else {
        if !ids.is_empty() {
            *why = format!("{} pieces too many", ids.len());
        }
        return ids.is_empty();
    };
    let (start, end) = (first.start(), first.end());
    for n in (0..=ids.len().min(3)).rev() {
        let ends = match n {
            0 => start == end,
            _ => pt(s.oriented_start(ids[0])) == start && pt(s.oriented_end(ids[n - 1])) == end,
        };
        if !ends {
            continue;
        }
        match matches(s, &ids[..n], first, keep_empty, o) {
            Ok(()) => {
                if assign(s, &ids[n..], &segs[1..], keep_empty, o, why) {
                    return true;
                }
            }
            Err(e) => *why = format!("{e} ({first:?})"),
        }
    }
    if why.is_empty() {
        *why = format!("no pieces run from {start} to {end}");
    }
    false
}

fn check_chain(s: &Segments, ids: &[SegIdx], c: &Chain, o: &mut Outcome) -> Result<(), Fail> {
    // Links.
    let n = ids.len();
    for (k, &i) in ids.iter().enumerate() {
        let next = if k + 1 < n { Some(ids[k + 1]) } else if c.closed { Some(ids[0]) } else { None };
        let prev = if k > 0 { Some(ids[k - 1]) } else if c.closed { Some(ids[n - 1]) } else { None };
        o.evals += 1;
        if s.contour_next(i) != next || s.contour_prev(i) != prev {
            return Err(("links", format!("{i:?} is linked to {:?} and {:?}, not {prev:?} and {next:?}", s.contour_prev(i), s.contour_next(i))));
        }
        if let Some(j) = next {
            if s.oriented_end(i) != s.oriented_start(j) {
                return Err(("gap", format!("between {i:?} and {j:?}")));
            }
        }
    }
    let mut why = String::new();
    if !assign(s, ids, &c.segs, c.keep_empty, o, &mut why) {
        return Err(("pieces", why));
    }
    Ok(())
}

fn check_chains(s: &Segments, ids: &[SegIdx], chains: &[Chain], o: &mut Outcome) -> Result<(), Fail> {
    let Some(c) = chains.first() else {
        return if ids.is_empty() { Ok(()) } else { Err(("extra", format!("{} pieces more than expected", ids.len()))) };
    };
    // Curves may turn out to be without extent, too.
    if !chain_expects(c) && check_chain(s, &[], c, o).is_ok() && check_chains(s, ids, &chains[1..], o).is_ok() {
        return Ok(());
    }
    let m = chain_len(s, ids);
    check_chain(s, &ids[..m], c, o)?;
    check_chains(s, &ids[m..], &chains[1..], o)
}

/// How many pieces a chain has, if the arena is right about where it ends.
fn chain_len(s: &Segments, ids: &[SegIdx]) -> usize {
    let mut k = 0;
    while k + 1 < ids.len() && s.contour_next(ids[k]) == Some(ids[k + 1]) {
        k += 1;
    }
    (k + 1).min(ids.len())
}

fn check(s: &Segments, from: usize, chains: &[Chain], before: &[Piece], o: &mut Outcome) -> Result<(), Fail> {
    let ids: Vec<SegIdx> = s.indices().collect();
    o.evals += 4;
    if s.len() != ids.len() || s.segments().count() != ids.len() || ids.len() < from {
        return Err(("len", format!("{} {} {}", s.len(), s.segments().count(), ids.len())));
    }
    for (k, p) in before.iter().enumerate() {
        if piece(s, ids[k]) != *p {
            return Err(("history", format!("{:?} changed", ids[k])));
        }
    }
    // Each piece by itself.
    let mag = chains.iter().flat_map(|c| &c.segs).map(|s| pairs::mag(&cubic(s))).fold(0.0, f64::max);
    for &i in &ids[from..] {
        let seg = &s[i];
        let (a, b) = (seg.start(), seg.end());
        let c = seg.to_kurbo_cubic();
        o.evals += 2;
        if (a.y, a.x) > (b.y, b.x) || pt(a) != c.p0 || (pt(b) - c.p3).hypot() != 0.0 {
            return Err(("direction", format!("{i:?}: {seg:?}")));
        }
        let (u, v) = if s.positively_oriented(i) { (a, b) } else { (b, a) };
        if s.oriented_start(i) != u || s.oriented_end(i) != v {
            return Err(("orientation", format!("{i:?}: {seg:?}")));
        }
        if seg.is_horizontal() != (a.y == b.y) || (seg.is_horizontal() && !seg.is_line()) {
            return Err(("horizontal", format!("{i:?}: {seg:?}")));
        }
        let f = FP * mag;
        let mut top = a.y;
        for k in 1..=16 {
            let y = c.eval(k as f64 / 16.0).y;
            if y < top - f || y > b.y + f {
                return Err(("monotone", format!("{i:?}: {seg:?} falls back by {:e}", top - y)));
            }
            o.count("max:falling back, 1e-18", ((top - y).max(y - b.y).max(0.0) / mag.max(1e-300) * 1e18) as u64);
            top = top.max(y);
        }
    }
    // In order.
    check_chains(s, &ids[from..], chains, o)?;
    // The lists.
    let mut seen = vec![[0; 2]; ids.len()];
    for (which, list) in [s.entrances(), s.exits()].into_iter().enumerate() {
        let mut last: Option<(f64, SegIdx)> = None;
        for &(y, i) in list {
            let k = ids.iter().position(|j| *j == i).ok_or(("list", format!("{i:?} isn't in the arena")))?;
            seen[k][which] += 1;
            o.evals += 1;
            let want = if which == 0 { s[i].start().y } else { s[i].end().y };
            if want != y {
                return Err(("height", format!("{i:?} is listed at {y}, not {want}")));
            }
            if let Some((ly, li)) = last {
                if ly > y || (which == 0 && ly == y && s[li].at_y(y) > s[i].at_y(y)) {
                    return Err(("sorted", format!("{li:?} at {ly} comes before {i:?} at {y}")));
                }
            }
            last = Some((y, i));
        }
    }
    for (k, n) in seen.iter().enumerate() {
        if n[0] != 1 || n[1] != usize::from(!s[ids[k]].is_horizontal()) {
            return Err(("once", format!("{:?} is listed {} times and {} times", ids[k], n[0], n[1])));
        }
    }
    Ok(())
}

/// Does this chain have pieces for certain?
fn chain_expects(c: &Chain) -> bool {
    c.segs.iter().any(|s| c.keep_empty || s.start() != s.end())
}

/// A path by subpaths, as documented by kurbo.
fn chains(p: &BezPath) -> Vec<Chain> {
    subpaths(p)
        .iter()
        .map(|sub| {
            let segs: Vec<PathSeg> = BezPath::from_vec(sub.clone()).segments().collect();
            let closed = segs.first().zip(segs.last()).is_none_or(|(a, b)| a.start() == b.end());
            Chain { segs, closed, keep_empty: false }
        })
        .collect()
}

fn polyline(ps: &[Point], closed: bool) -> Chain {
    let mut segs: Vec<PathSeg> = ps.windows(2).map(|w| PathSeg::Line(kurbo::Line::new(w[0], w[1]))).collect();
    if closed && ps.len() > 1 {
        segs.push(PathSeg::Line(kurbo::Line::new(ps[ps.len() - 1], ps[0])));
    }
    Chain { segs, closed, keep_empty: true }
}

/// A coordinate: on a coarse lattice, so that things coincide, or anywhere.
fn coord(r: &mut Rng, lattice: bool, size: f64) -> f64 {
    if lattice {
        match r.below(12) {
            0 => -0.0,
            _ => r.int(-3, 3) as f64 * size,
        }
    } else {
        r.range(-size, size)
    }
}

fn path(r: &mut Rng, open: bool) -> BezPath {
    let size = pairs::size(r);
    let mut p = BezPath::new();
    for _ in 0..1 + r.below(3) {
        let lattice = r.chance(0.5);
        // Where coordinates come from.
        let (mut xs, mut ys): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
        let mut pt = |r: &mut Rng| {
            let v = |r: &mut Rng, old: &mut Vec<f64>| {
                let v = match r.below(10) {
                    // Again, almost again, or halfway between.
                    0 | 1 if !old.is_empty() => *r.pick(old),
                    2 if !old.is_empty() => *r.pick(old) * (1.0 + r.int(-4, 4) as f64 * f64::EPSILON),
                    3 if !old.is_empty() => *r.pick(old) + size * 10f64.powf(r.range(-17.0, -2.0)),
                    4 if old.len() > 1 => 0.5 * (*r.pick(old) + *r.pick(old)),
                    _ => coord(r, lattice, size),
                };
                old.push(v);
                v
            };
            Point::new(v(r, &mut xs), v(r, &mut ys))
        };
        let start = pt(r);
        let mut at = start;
        p.move_to(start);
        for _ in 0..r.below(6) {
            match r.below(8) {
                0 | 1 => {
                    at = pt(r);
                    p.line_to(at);
                }
                2 => p.line_to(at),
                3 => {
                    let q = pt(r);
                    at = pt(r);
                    p.quad_to(q, at);
                }
                4 => {
                    // A loop, or nothing.
                    let (q, s) = (pt(r), pt(r));
                    match r.below(4) {
                        0 => p.curve_to(at, at, at),
                        1 => p.quad_to(q, at),
                        _ => p.curve_to(q, s, at),
                    }
                }
                _ => {
                    let (q, s) = match r.below(5) {
                        // Handles at the ends.
                        0 => (at, pt(r)),
                        _ => (pt(r), pt(r)),
                    };
                    at = pt(r);
                    p.curve_to(q, if r.chance(0.1) { at } else { s }, at);
                }
            }
        }
        match r.below(4) {
            0 | 1 => p.close_path(),
            _ if open => {}
            2 => {
                p.line_to(start);
                if r.chance(0.5) {
                    p.close_path();
                }
            }
            _ => {
                let (q, s) = (pt(r), pt(r));
                p.curve_to(q, s, start);
            }
        }
        if r.chance(0.1) {
            // Drawing on after closing starts from the start again.
            p.close_path();
            p.line_to(pt(r));
            p.line_to(pt(r));
            if !open || r.chance(0.5) {
                p.close_path();
            }
        }
    }
    p
}

fn corners(p: &BezPath) -> Vec<Vec<Point>> {
    subpaths(p)
        .iter()
        .map(|s| s.iter().filter_map(|e| gen::el_points(e).last().copied()).collect())
        .collect()
}

fn history(i: u64, seed: u64, r: &mut Rng, desc: &mut String, o: &mut Outcome) -> Result<(), Fail> {
    let mut s = Segments::default();
    let mut before: Vec<Piece> = vec![];
    let case = gen::workload(seed, i);
    let mut from_family = r.chance(0.5);
    for _ in 0..1 + r.below(6) {
        let open = r.chance(0.4);
        let p = if from_family {
            from_family = false;
            if r.chance(0.5) { case.a.clone() } else { case.b.clone() }
        } else {
            path(r, open)
        };
        let from = s.len();
        let tuples = |v: &[Point]| v.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>();
        let (how, want): (&'static str, Vec<Chain>) = match r.below(8) {
            0 => {
                let v = corners(&p).pop().unwrap_or_default();
                s.add_points(tuples(&v));
                ("add_points", vec![polyline(&v, false)])
            }
            1 => {
                let v = corners(&p).pop().unwrap_or_default();
                if from == 0 && r.chance(0.5) {
                    s = Segments::from_closed_polyline(tuples(&v));
                } else {
                    s.add_closed_polyline(tuples(&v));
                }
                ("add_closed_polyline", vec![polyline(&v, true)])
            }
            2 => {
                let v = corners(&p);
                s.add_closed_polylines(v.iter().map(|v| tuples(v)).collect::<Vec<_>>());
                ("add_closed_polylines", v.iter().map(|v| polyline(v, true)).collect())
            }
            3 => {
                let res = s.add_non_closed_bez_path(&p);
                if res.is_err() {
                    return Err(("refused", format!("add_non_closed_bez_path refuses {}", p.to_svg())));
                }
                ("add_non_closed_bez_path", chains(&p))
            }
            _ => {
                let want = chains(&p);
                let bad = want.iter().find(|c| !c.closed && chain_expects(c));
                let res = s.add_bez_path(&p);
                *desc += &format!("[add_bez_path \"{}\"] ", p.to_svg());
                match (bad, res) {
                    (None, Ok(())) => ("", want),
                    (Some(c), Err(e)) => {
                        o.count("refused paths", 1);
                        if e.start_point != c.segs[0].start() || e.end_point != c.segs[c.segs.len() - 1].end() {
                            return Err(("error", format!("{e}")));
                        }
                        ("", vec![])
                    }
                    (b, r) => return Err(("refused", format!("{r:?}, although it is {}", if b.is_some() { "open" } else { "closed" }))),
                }
            }
        };
        if !how.is_empty() {
            *desc += &format!("[{how} \"{}\"] ", p.to_svg());
        }
        o.count("additions", 1);
        o.count("pieces", (s.len() - from.min(s.len())) as u64);
        o.count("split curves", want.iter().flat_map(|c| &c.segs).filter(|s| !matches!(s, PathSeg::Line(_))).count() as u64);
        check(&s, from, &want, &before, o)?;
        before = s.indices().map(|i| piece(&s, i)).collect();
        if from > 0 && s.len() > from {
            o.nontrivial = Some(hash_str(desc));
        }
    }
    s.check_invariants();
    Ok(())
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(200_000, 15_000_000), move |i| {
        let mut o = Outcome::default();
        let mut r = Rng::new(seed, 14, i);
        let mut desc = String::new();
        let res = run::guarded(|| history(i, seed, &mut r, &mut desc, &mut o));
        let sig = |what: &str| format!("{what}-{:016x}", hash_str(&desc));
        match res {
            Ok(Ok(())) => {}
            Ok(Err((what, m))) => o.violate(sig(what), format!("{what}: {m} | {desc}")),
            Err(e) => o.violate(sig("panic"), format!("panic at {}: {} | {desc}", e.loc, e.msg)),
        }
        if i % 9_973 == 5 {
            o.sample = Some(desc);
        }
        o
    });
    Report {
        agg,
        rule: "Histories of 1 to 6 additions to an arena through all its constructors, of paths of the usual families and of random paths of lines, quadratic and cubic Béziers with equal, almost equal and halfway coordinates, over many magnitudes: cusps, loops, flat and empty parts, negative zeros, closed in several ways, drawn on after being closed, open ones (also where they have to be refused). After each addition: every piece runs downwards, is monotone and consistent with its orientation; the new pieces can be assigned, in order, to the segments of the input so that they start and end exactly where these do, without gap, and follow them (7 points of every piece near the segment, 15 points of the segment near its pieces, within 1e-12 of the coordinates, except parts without height, which become straight); links form the right cycles and chains; entrances and exits are sorted, at the right heights, with every piece once; pieces that were there before are exactly as they were; exactly the open paths are refused, with their ends, leaving nothing behind. Non-trivial: pieces were added to others.".into(),
        assumptions: vec!["kurbo's iteration over the segments of a path and evaluation of curves".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| format!("input {i} of seed {seed}")),
    }
}
