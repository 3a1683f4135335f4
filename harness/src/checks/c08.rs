//! C08: the curves drawn for the pieces of an arrangement.
use super::*;
use crate::{arr, common::*, driver::*, gen, oracle, run, trace};
use kurbo::{CubicBez, ParamCurve, PathEl, Point};
use linesweeper::topology::Topology;

/// For that many eps of height, a curve may follow another one instead of its own.
pub const TRIP: f64 = 3.0;

fn seg_dist(c: &CubicBez, p: Point) -> f64 {
    let mut o = oracle::Curves::default();
    o.push(*c, false);
    o.dist(p)
}

fn check(c: &gen::Case, r: &mut crate::rng::Rng, o: &mut Outcome) {
    let eps = c.eps();
    let tol = c.tol();
    let fail = |o: &mut Outcome, what: &str, d: String| {
        o.violate(format!("{what}-{:016x}", hash_str(&c.describe())), format!("{d} | {}", c.describe()))
    };
    let res = run::guarded(|| {
        let t = Topology::from_paths_binary(&c.a, &c.b, eps).map_err(|_| ()).unwrap();
        let a = arr::Arr::new(&t);
        let names = trace::Names::new(&t.segments);
        let mut steps = vec![];
        trace::sweep(&t.segments, &names, eps, &mut trace::Bufs::default(), |s| steps.push((s.y, s.order)));
        (t, a, names, steps)
    });
    let (t, a, names, steps) = match res {
        Ok(x) => x,
        Err(p) => return fail(o, "panic", format!("panic at {}: {}", p.loc, p.msg)),
    };
    let mut all = oracle::Curves::new(&c.a);
    all.extend(&c.b);
    let scale = a.curves.iter().map(|c| c.scale).fold(0.0, f64::max);
    let fp = 1e-12 * scale;
    let mut by_seg: std::collections::HashMap<usize, Vec<usize>> = Default::default();
    for (k, q) in a.pieces.iter().enumerate() {
        let orig = t.orig_seg[q.idx];
        by_seg.entry(names.of(orig)).or_default().push(k);
        let oc = t.segments[orig].to_kurbo_cubic();
        let who = || format!("the piece from {:?} to {:?} drawn as {}", q.top, q.bot, q.path.to_svg());
        // Shape of the path.
        o.evals += 1;
        let els = q.path.elements();
        if !matches!(els.first(), Some(PathEl::MoveTo(_)))
            || els.len() < 2
            || els[1..].iter().any(|e| matches!(e, PathEl::MoveTo(_) | PathEl::ClosePath))
            || !els.iter().flat_map(gen::el_points).all(|p| p.is_finite())
        {
            return fail(o, "shape", format!("{} is not one finite curve", who()));
        }
        let first = gen::el_points(&els[0])[0];
        let last = *gen::el_points(els.last().unwrap()).last().unwrap();
        if first != q.top || last != q.bot {
            return fail(o, "ends", format!("{} does not start and end at its vertices", who()));
        }
        // Down, and along the input.
        let (mut low, mut drop) = (f64::NEG_INFINITY, 0.0f64);
        // The height range of an excursion away from the curve.
        let mut trip: Option<(f64, f64)> = None;
        let n = if c.n_segs() > 100 { 3 } else { 6 };
        let bx = oracle::cubic_box(&oc);
        for s in &q.segs {
            for i in 0..=n {
                let p = s.eval(i as f64 / n as f64);
                drop = drop.max(low - p.y);
                low = low.max(p.y);
                o.evals += 1;
                if oracle::seg_closer_than(&oc, &bx, false, p, tol) {
                    trip = None;
                    continue;
                }
                // It may only leave its own curve along another one, over a little height.
                let t = trip.get_or_insert((p.y, p.y));
                *t = (t.0.min(p.y), t.1.max(p.y));
                o.count("max:height of trips along another curve (1e-3 eps)", ((t.1 - t.0) / eps * 1e3) as u64);
                if t.1 - t.0 > TRIP * eps || !all.closer_than(p, tol) {
                    return fail(o, "away", format!("{} is {:.1} eps from its input curve {oc:?} at {p:?}", who(), seg_dist(&oc, p) / eps));
                }
                o.count("points along another curve", 1);
            }
        }
        o.count("max:rise of a drawn curve (1e-6 eps)", (drop / eps * 1e6) as u64);
        if drop > 0.01 * eps + fp {
            return fail(o, "monotone", format!("{} runs up by {:.2} eps", who(), drop / eps));
        }
        // The copied part.
        if let Some(i) = q.copied {
            o.count("copied parts", 1);
            o.evals += 1;
            if i >= q.segs.len() {
                return fail(o, "copied", format!("{} has no element {i}", who()));
            }
            let s = q.segs[i];
            // How far its ends were moved horizontally.
            let mut k = oracle::Curves::default();
            k.push(oc, t.segments[orig].is_line());
            let shift = if k.monos.is_empty() || oc.p0.y == oc.p3.y {
                seg_dist(&oc, s.p0).max(seg_dist(&oc, s.p3))
            } else {
                let off = |p: Point| {
                    let x = k
                        .monos
                        .iter()
                        .filter(|m| m.p0.y.min(m.p1.y) <= p.y && p.y <= m.p0.y.max(m.p1.y))
                        .map(|m| (k.mono_x_at(m, p.y) - p.x).abs())
                        .fold(f64::INFINITY, f64::min);
                    if x.is_finite() { x } else { oc.p0.distance(p).min(oc.p3.distance(p)) }
                };
                off(s.p0).max(off(s.p3))
            };
            let allowed = shift + 1e-8 * scale + 1e-3 * eps;
            let off = [0.25, 0.5, 0.75].map(|u| s.eval(u)).into_iter().find(|p| !oracle::seg_closer_than(&oc, &bx, false, *p, allowed));
            o.count("max:shift of the ends of copied parts (1e-3 eps)", (shift / eps * 1e3) as u64);
            if shift > 0.0 {
                o.count("copied parts with shifted ends", 1);
            }
            if let Some(p) = off {
                return fail(o, "copied", format!("{}: the copied element {i} is {} from the input curve {oc:?}, its ends only {shift}", who(), seg_dist(&oc, p)));
            }
        }
    }
    // Side by side.
    for ks in by_seg.values_mut() {
        ks.sort_by(|i, j| (a.pieces[*i].top.y, a.pieces[*i].bot.y).partial_cmp(&(a.pieces[*j].top.y, a.pieces[*j].bot.y)).unwrap());
    }
    let slop = 4.0 * eps;
    let mut slipped = false;
    for w in steps.windows(2) {
        let (y0, y1) = (w[0].0, w[1].0);
        if c.n_segs() > 60 && r.chance(0.7) {
            continue;
        }
        let y = y0 + (y1 - y0) * *r.pick(&[0.5, 0.1, 0.9, 0.3]);
        if !(y0 < y && y < y1) {
            continue;
        }
        let mut worst = f64::NEG_INFINITY;
        let mut at = Point::ZERO;
        // Next to each other: exactly in order, where that can be told. (Between two straight
        // pieces only up to the tolerance: there, only the ends are put in order.)
        let mut prev: Option<(f64, bool)> = None;
        for &s in &w[0].1 {
            let last = prev.take();
            let Some(ks) = by_seg.get(&s) else { continue };
            let mut xs = ks.iter().filter(|k| a.pieces[**k].top.y < y && y < a.pieces[**k].bot.y).flat_map(|k| a.curves[*k].crossings(y).into_iter().map(|x| (x.0, *k)));
            let (Some((x, k)), None) = (xs.next(), xs.next()) else { continue };
            let q = &a.pieces[k];
            let gap = 16.0 * eps;
            if !(q.top.y < y - gap && y + gap < q.bot.y) || [y - gap, y + gap].iter().any(|z| a.curves[k].crossings(*z).iter().any(|u| (u.0 - x).abs() >= 8.0 * gap)) {
                continue;
            }
            let line = t.segments[names.idx(s)].is_line();
            if let Some((px, pline)) = last {
                if !(line && pline) {
                    o.count("steep neighbours", 1);
                    o.evals += 1;
                    slipped |= px - x > 1e-3 * eps;
                }
            }
            prev = Some((x, line));
        }
        for &s in &w[0].1 {
            let Some(ks) = by_seg.get(&s) else { continue };
            let from = ks.partition_point(|k| a.pieces[*k].bot.y < y - slop);
            let near = || ks[from..].iter().copied().take_while(|k| a.pieces[*k].top.y <= y + slop);
            if !near().any(|k| a.pieces[k].top.y < y && y < a.pieces[k].bot.y) {
                continue;
            }
            let (mut l, mut h) = (f64::INFINITY, f64::NEG_INFINITY);
            let mut upto = y - slop;
            let mut add = |p: Point| {
                l = l.min(p.x);
                h = h.max(p.x);
            };
            let orig = &t.segments[names.idx(s)];
            let mut whole = upto <= orig.start().y;
            for k in near() {
                let q = &a.pieces[k];
                whole |= q.top.y <= upto;
                upto = upto.max(q.bot.y);
                for d in [-slop, -0.5 * slop, 0.0, 0.5 * slop, slop] {
                    let z = y + d;
                    if q.top.y < z && z < q.bot.y {
                        a.curves[k].crossings(z).iter().for_each(|x| add(Point::new(x.0, z)));
                    }
                }
                for p in [q.top, q.bot] {
                    if (p.y - y).abs() <= slop {
                        add(p);
                    }
                }
            }
            // Where it was merged with another one, it's drawn along that.
            if !whole || upto < (y + slop).min(orig.end().y) {
                o.count("merged with others nearby", 1);
                add(Point::new(orig.lower(y, slop), y));
                add(Point::new(orig.upper(y, slop), y));
            }
            o.evals += 1;
            let over = worst - h;
            o.count("max:drawn curves out of order by (1e-6 eps)", (over.max(0.0) / eps * 1e6) as u64);
            if over > slop {
                return fail(o, "order", format!("at height {y}, the curves drawn through {at:?} and ({h}, {y}) are in the wrong order by {:.1} eps", over / eps));
            }
            if l > worst {
                worst = l;
                at = Point::new(l, y);
            }
        }
    }
    if slipped {
        o.count(SLIPPED, 1);
    }
}

/// Neighbours may be out of order by less than the tolerance, but only exceptionally:
/// curves that were put in order one by one can be pushed past another one.
const SLIPPED: &str = "cases with steep neighbours out of order";

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let mut agg = crate::driver::run(ctx.config(40_000, 2_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 8, i);
        check(&c, &mut r, &mut o);
        if o.evals > 1 {
            o.nontrivial = Some(hash_str(&c.describe()));
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    let n = agg.counters.get(SLIPPED).copied().unwrap_or(0);
    if n > 4 + agg.cases / 5000 {
        let d = format!("neighbouring drawn curves are in the wrong order (by more than 0.001 eps) in {n} of {} cases", agg.cases);
        agg.n_violations += 1;
        agg.violations.push((0, "often-out-of-order".into(), d));
    }
    Report {
        agg,
        rule: "The common workload. For each piece of the arrangement: its drawn curve starts and ends exactly at its vertices, is one finite curve, never runs up by more than eps, its points lie within the tolerance of the input curve, and a part claimed to be a copy is as close to the input curve as its ends are; between any two sweep lines, the drawn curves are ordered like the sweep line: up to 4 eps everywhere and, apart from rare cases whose number is limited, exactly where they are steep neighbours (not both straight). An evaluation is one drawn curve, point, copied part or neighbour. Non-trivial: at least one piece.".into(),
        assumptions: vec!["the harness's own distance computation".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
