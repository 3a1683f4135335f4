//! C09: the sweep's events trace every piece exactly once, from top to bottom.
use super::*;
use crate::{common::*, driver::*, gen, oracle, run, trace};
use kurbo::{BezPath, PathEl, Point};
use linesweeper::sweep::{SegmentsConnectedAtX, SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::Segments;
use std::collections::{BTreeMap, HashMap};

/// For that many eps of height, events may follow another segment.
const TRIP: f64 = 2.0;

/// A collection of segments, made in one of several ways.
pub struct Scene {
    pub segs: Segments,
    pub how: &'static str,
}

/// Cuts some segments out of a path, which leaves open subpaths.
fn cut(p: &BezPath, r: &mut crate::rng::Rng) -> BezPath {
    let mut out = BezPath::new();
    let mut end = None;
    let keep = *r.pick(&[0.5, 0.8, 0.95]);
    for s in p.segments() {
        use kurbo::ParamCurve;
        if !r.chance(keep) {
            end = None;
            continue;
        }
        if end != Some(s.start()) {
            out.move_to(s.start());
        }
        end = Some(s.end());
        out.push(match s {
            kurbo::PathSeg::Line(l) => PathEl::LineTo(l.p1),
            kurbo::PathSeg::Quad(q) => PathEl::QuadTo(q.p1, q.p2),
            kurbo::PathSeg::Cubic(c) => PathEl::CurveTo(c.p1, c.p2, c.p3),
        });
    }
    out
}

fn corners(p: &BezPath) -> Vec<Vec<(f64, f64)>> {
    let mut out: Vec<Vec<(f64, f64)>> = vec![];
    for e in p.elements() {
        if let PathEl::MoveTo(_) = e {
            out.push(vec![]);
        }
        if let Some(q) = gen::el_points(e).last() {
            if let Some(v) = out.last_mut() {
                v.push((q.x, q.y));
            }
        }
    }
    out
}

pub fn scene(c: &gen::Case, r: &mut crate::rng::Rng) -> Scene {
    let mut segs = Segments::default();
    let how = match r.below(10) {
        0..=5 => {
            segs.add_bez_path(&c.a).unwrap();
            segs.add_bez_path(&c.b).unwrap();
            "closed paths"
        }
        6 | 7 => {
            segs.add_non_closed_bez_path(&cut(&c.a, r)).unwrap();
            segs.add_non_closed_bez_path(&cut(&c.b, r)).unwrap();
            "open paths"
        }
        8 => {
            for v in corners(&c.a).into_iter().chain(corners(&c.b)) {
                match r.below(3) {
                    0 => segs.add_points(v),
                    _ => segs.add_closed_polyline(v),
                }
            }
            "polylines"
        }
        _ => {
            segs.add_bez_path(&c.a).unwrap();
            for v in corners(&c.b) {
                segs.add_points(v);
            }
            segs.add_non_closed_bez_path(&cut(&c.b, r)).unwrap();
            "a mixture"
        }
    };
    Scene { segs, how }
}

/// Everything that's observed while sweeping once.
pub struct Log {
    pub names: trace::Names,
    pub steps: Vec<trace::Step>,
}

pub fn log(s: &Segments, eps: f64) -> Log {
    let names = trace::Names::new(s);
    let mut steps = vec![];
    trace::sweep(s, &names, eps, &mut trace::Bufs::default(), |s| steps.push(s));
    Log { names, steps }
}

/// What the position-by-position interface shows: per sweep line, per range, the
/// positions with the segments connected up and down, and the horizontal ones.
type Walk = Vec<Vec<Vec<(f64, Vec<usize>, Vec<usize>, Vec<(usize, bool)>)>>>;

fn walk(segs: &Segments, names: &trace::Names, eps: f64) -> Walk {
    let mut out = vec![];
    let mut st = Sweeper::new(segs, eps);
    let mut lb = SweepLineBuffers::default();
    let mut rb = SweepLineRangeBuffers::default();
    let mut at = SegmentsConnectedAtX::default();
    while let Some(mut line) = st.next_line(&mut lb) {
        let mut rs = vec![];
        while let Some(mut r) = line.next_range(&mut rb, segs) {
            let mut v = vec![];
            while let Some(x) = r.x() {
                r.update_segments_at_x(&mut at);
                let h: Vec<_> = r.active_horizontals_and_orientations().map(|(i, o)| (names.of(i), o)).collect();
                let h2: Vec<_> = r.active_horizontals().map(|i| names.of(i)).collect();
                assert!(h.iter().map(|h| h.0).eq(h2));
                v.push((x, at.connected_up().map(|i| names.of(i)).collect(), at.connected_down().map(|i| names.of(i)).collect(), h));
                r.increase_x();
            }
            rs.push(v);
        }
        out.push(rs);
    }
    out
}

pub fn check(c: &gen::Case, r: &mut crate::rng::Rng, o: &mut Outcome) {
    let eps = c.eps();
    let near = 5.0 * eps;
    let res = run::guarded(|| {
        let s = scene(c, r);
        let l = log(&s.segs, eps);
        let w = walk(&s.segs, &l.names, eps);
        let mut cb = vec![];
        linesweeper::sweep::sweep(&s.segs, eps, |y, e| cb.push((y, l.names.of(e.seg_idx), e.x0, e.x1, e.connected_above, e.connected_below)));
        (s, l, w, cb)
    });
    let fail = {
        let d = c.describe();
        move |o: &mut Outcome, what: &str, how: &str, m: String| o.violate(format!("{what}-{:016x}", hash_str(&d)), format!("{m} | {how}, {d}"))
    };
    let (s, l, w, cb) = match res {
        Ok(x) => x,
        Err(p) => return fail(o, "panic", "", format!("panic at {}: {}", p.loc, p.msg)),
    };
    let how = s.how;
    o.count(how, 1);
    let fail = |o: &mut Outcome, what: &str, m: String| fail(o, what, how, m);
    let seg = |i: usize| &s.segs[l.names.idx(i)];
    let cubics: Vec<_> = (0..l.names.len())
        .map(|i| {
            let k = seg(i).to_kurbo_cubic();
            (k, oracle::cubic_box(&k), seg(i).is_line())
        })
        .collect();

    let mut everything = oracle::Curves::default();
    for (k, _, line) in &cubics {
        everything.push(*k, *line);
    }
    let rounding = 1e-14 * everything.scale;
    let mut trips: HashMap<usize, (f64, f64)> = HashMap::new();

    // The callback interface shows the same events.
    o.evals += 1;
    let all = l.steps.iter().flat_map(|s| s.ranges.iter().flat_map(|r| &r.batches).flat_map(move |b| b.1.iter().map(move |e| (s.y, e.seg, e.x0, e.x1, e.above, e.below))));
    if !all.eq(cb) {
        return fail(o, "callback", "the callback interface shows different events".into());
    }
    // Heights increase.
    for v in l.steps.windows(2) {
        o.evals += 1;
        if !(v[0].y < v[1].y) {
            return fail(o, "height", format!("sweep line {} follows {}", v[1].y, v[0].y));
        }
    }
    // One range at a time.
    if w.len() != l.steps.len() {
        return fail(o, "walk", "the position interface shows a different number of sweep lines".into());
    }
    let mut visits: HashMap<usize, Vec<(f64, f64, f64)>> = HashMap::new();
    for (st, w) in l.steps.iter().zip(&w) {
        let y = st.y;
        if w.len() != st.ranges.len() {
            return fail(o, "walk", format!("at {y}, the position interface shows {} ranges instead of {}", w.len(), st.ranges.len()));
        }
        let mut here: BTreeMap<usize, Vec<&trace::Ev>> = BTreeMap::new();
        for (rg, w) in st.ranges.iter().zip(w) {
            if !rg.batches.windows(2).all(|b| b[0].0 < b[1].0) {
                return fail(o, "positions", format!("at {y}, positions {:?} don't increase", rg.batches.iter().map(|b| b.0).collect::<Vec<_>>()));
            }
            let mut in_range: BTreeMap<usize, Vec<&trace::Ev>> = BTreeMap::new();
            for (k, (x, evs)) in rg.batches.iter().enumerate() {
                for e in evs {
                    o.evals += 1;
                    let lo = e.x0.min(e.x1);
                    let before = if k > 0 { rg.batches[k - 1].0 } else { *x };
                    if e.x0.max(e.x1) != *x || !(lo == *x || lo == before) {
                        return fail(o, "batch", format!("at ({x}, {y}), after {before}: {e:?}"));
                    }
                    in_range.entry(e.seg).or_default().push(e);
                }
                // The same position through the other interface.
                let Some((x2, up, down, hor)) = w.get(k) else {
                    return fail(o, "walk", format!("at {y}, the position interface stops before {x}"));
                };
                let evs = rg.batches.iter().flat_map(|b| &b.1);
                let mut up2: Vec<_> = evs.clone().filter(|e| e.above && e.x0 == *x).map(|e| (e.old_idx, e.seg)).collect();
                let mut down2: Vec<_> = evs.filter(|e| e.below && e.x1 == *x).map(|e| (e.new_idx, e.seg)).collect();
                up2.sort();
                down2.sort();
                let mut hor2: Vec<_> = rg.batches[k].1.iter().filter(|e| e.x0 != e.x1).map(|e| (e.seg, e.x0 < e.x1)).collect();
                let mut hor = hor.clone();
                hor.sort();
                hor2.sort();
                o.evals += 1;
                if x2 != x || !up.iter().eq(up2.iter().map(|u| &u.1)) || !down.iter().eq(down2.iter().map(|u| &u.1)) || hor != hor2 {
                    return fail(o, "walk", format!("at ({x}, {y}), the position interface shows {:?} instead of {up2:?}, {down2:?}, {hor2:?}", w[k]));
                }
            }
            if w.len() != rg.batches.len() {
                return fail(o, "walk", format!("at {y}, the position interface shows more positions"));
            }
            for (i, evs) in in_range {
                if here.insert(i, evs).is_some() {
                    return fail(o, "ranges", format!("at {y}, segment {i} is in two ranges"));
                }
            }
        }
        // Each segment's way through this sweep line is a chain.
        for (i, mut evs) in here {
            o.evals += 1;
            let hz = seg(i).is_horizontal();
            if evs[0].x0 > evs[0].x1 {
                evs.reverse();
            }
            let n = evs.len();
            let left = evs[0].x0 <= evs[n - 1].x1;
            let (first, last) = (seg(i).start(), seg(i).end());
            let way = || format!("at {y}, segment {i} = {:?} has the events {evs:?}", seg(i));
            for (k, e) in evs.iter().enumerate() {
                if e.x0 == e.x1 && n > 1 || (e.x0 < e.x1) != left && e.x0 != e.x1 || k > 0 && evs[k - 1].x1 != e.x0 {
                    return fail(o, "chain", format!("{}: not a chain", way()));
                }
                if e.above && k > 0 || e.below && k + 1 < n {
                    return fail(o, "connected", format!("{}: connected in the middle", way()));
                }
                if evs[0].above && e.old_idx.is_none() || evs[n - 1].below && e.new_idx.is_none() || hz && (e.old_idx, e.new_idx) != (None, None) || (e.new_idx, e.old_idx) != (evs[0].new_idx, evs[0].old_idx) {
                    return fail(o, "indices", format!("{}: wrong indices", way()));
                }
                for x in [e.x0, e.x1] {
                    let p = Point::new(x, y);
                    let (k, b, line) = &cubics[i];
                    for (t, name) in [(1.0, "events beyond 1 eps"), (1.5, "events beyond 1.5 eps"), (2.5, "events beyond 2.5 eps"), (4.0, "events beyond 4 eps"), (10.0, "events beyond 10 eps")] {
                        if oracle::seg_closer_than(k, b, *line, p, t * eps) {
                            break;
                        }
                        o.count(name, 1);
                    }
                    if !oracle::seg_closer_than(k, b, *line, p, near) {
                        // Possible over a little height along another piece that's almost horizontal.
                        o.count("events along another piece", 1);
                        let t = trips.entry(i).or_insert((y, y));
                        if y - t.1 > TRIP * eps {
                            t.0 = y;
                        }
                        t.1 = y;
                        o.count("max:height of trips along another piece (1e-3 eps)", ((t.1 - t.0) / eps * 1e3) as u64);
                        if y - t.0 > TRIP * eps || !everything.closer_than(p, near) {
                            return fail(o, "distance", format!("{}: far away", way()));
                        }
                    }
                }
            }
            let (enter, leave) = (evs[0].x0, evs[n - 1].x1);
            if hz {
                if evs.iter().any(|e| e.above || e.below) || y != first.y || enter != first.x || leave != last.x || visits.contains_key(&i) {
                    return fail(o, "horizontal", format!("{}: not exactly the horizontal segment, once", way()));
                }
            } else {
                if evs[0].above != (y > first.y) || evs[n - 1].below != (y < last.y) || y < first.y || y > last.y {
                    return fail(o, "connected", format!("{}: not connected like that", way()));
                }
                if y == first.y && (enter - first.x).abs() > rounding || y == last.y && (leave - last.x).abs() > rounding {
                    return fail(o, "ends", format!("{}: not at its end", way()));
                }
            }
            visits.entry(i).or_default().push((y, enter, leave));
        }
    }
    for i in 0..l.names.len() {
        o.evals += 1;
        let v = visits.get(&i).map(|v| &v[..]).unwrap_or(&[]);
        let (f, z) = (seg(i).start(), seg(i).end());
        let ok = match v {
            [] => false,
            [a] => seg(i).is_horizontal() || f.y == z.y && a.0 == f.y,
            [a, .., b] => a.0 == f.y && b.0 == z.y,
        };
        if !ok {
            return fail(o, "ends", format!("segment {i} = {:?} is visited at {v:?}", seg(i)));
        }
    }
    o.count("events", l.steps.iter().flat_map(|s| &s.ranges).flat_map(|r| &r.batches).map(|b| b.1.len() as u64).sum());
    o.count("sweep lines", l.steps.len() as u64);
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(40_000, 2_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 9, i);
        check(&c, &mut r, &mut o);
        if o.evals > 1 {
            o.nontrivial = Some(hash_str(&c.describe()) ^ o.evals);
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload, as closed paths, as open paths (with random segments cut out), as open and closed polylines, or mixed. Per case: the callback interface must show the same events as the ranges, and the position-by-position interface the same connections and horizontal pieces; heights and positions increase; per sweep line, a segment's events are one gapless walk in one range, connected only at its ends and only where the segment continues; over all sweep lines, each segment is seen from its start to its end (up to rounding), horizontal ones exactly once; events are within 5 eps of their segment except over 2 eps of height along another one. An evaluation is one event, position, walk or segment. Non-trivial: at least one segment.".into(),
        assumptions: vec!["the harness's own distance computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
