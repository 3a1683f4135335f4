//! C10: the sweep line holds exactly the active pieces, in a valid order.
use super::*;
use crate::{common::*, driver::*, gen, oracle, run, trace};
use linesweeper::sweep::{SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::Segments;

/// One sweep line.
struct Line {
    y: f64,
    /// One segment for each slot: the entering one if it has one, else the one that's there.
    slots: Vec<usize>,
    ranges: Vec<Range>,
}

struct Range {
    slots: std::ops::Range<usize>,
    old: Vec<usize>,
    new: Vec<usize>,
    evs: Vec<trace::Ev>,
}

fn lines(segs: &Segments, names: &trace::Names, eps: f64) -> Vec<Line> {
    let mut out = vec![];
    let mut st = Sweeper::new(segs, eps);
    let mut lb = SweepLineBuffers::default();
    let mut rb = SweepLineRangeBuffers::default();
    while let Some(mut line) = st.next_line(&mut lb) {
        let slots = (0..).map_while(|i| line.line_segment(i)).map(|i| names.of(i)).collect();
        let mut l = Line { y: line.y(), slots, ranges: vec![] };
        while let Some(mut r) = line.next_range(&mut rb, segs) {
            let mut rg = Range {
                slots: 0..0,
                old: r.old_segment_range().map(|i| names.of(i)).collect(),
                new: r.segment_range().map(|i| names.of(i)).collect(),
                evs: vec![],
            };
            while let Some(evs) = r.events() {
                rg.evs.extend(evs.into_iter().map(|e| trace::Ev {
                    seg: names.of(e.seg_idx),
                    x0: e.x0,
                    x1: e.x1,
                    above: e.connected_above,
                    below: e.connected_below,
                    new_idx: e.sweep_idx,
                    old_idx: e.old_sweep_idx,
                }));
            }
            // The slots it covers; a range of only horizontal segments has none.
            let ix = || rg.evs.iter().flat_map(|e| [e.old_idx, e.new_idx]).flatten();
            match (ix().min(), ix().max()) {
                (Some(a), Some(b)) => rg.slots = a..b + 1,
                _ if rg.old.is_empty() && rg.new.is_empty() => continue,
                _ => {}
            }
            l.ranges.push(rg);
        }
        out.push(l);
    }
    out
}

pub fn check(c: &gen::Case, r: &mut crate::rng::Rng, o: &mut Outcome) {
    let eps = c.eps();
    let res = run::guarded(|| {
        let s = c09::scene(c, r);
        let names = trace::Names::new(&s.segs);
        let l = lines(&s.segs, &names, eps);
        (s, names, l)
    });
    let desc = c.describe();
    let fail = |o: &mut Outcome, what: &str, how: &str, m: String| o.violate(format!("{what}-{:016x}", hash_str(&desc)), format!("{m} | {how}, {desc}"));
    let (s, names, lines) = match res {
        Ok(x) => x,
        Err(p) => return fail(o, "panic", "", format!("panic at {}: {}", p.loc, p.msg)),
    };
    let fail = |o: &mut Outcome, what: &str, m: String| fail(o, what, s.how, m);
    o.count(s.how, 1);
    let n = names.len();
    let seg = |i: usize| &s.segs[names.idx(i)];
    let ends: Vec<_> = (0..n).map(|i| (seg(i).start(), seg(i).end())).collect();
    let curves: Vec<_> = (0..n)
        .map(|i| {
            let mut k = oracle::Curves::default();
            k.push(seg(i).to_kurbo_cubic(), seg(i).is_line());
            k
        })
        .collect();
    // Position of segment i at height y, which has to be in its range.
    let at = |i: usize, y: f64| -> f64 {
        if let Some(e) = [ends[i].0, ends[i].1].iter().find(|e| e.y == y) {
            return e.x;
        }
        let m = curves[i].monos.iter().find(|m| {
            let (a, b) = (m.p0.y.min(m.p1.y), m.p0.y.max(m.p1.y));
            a <= y && y <= b
        });
        match m {
            Some(m) => curves[i].mono_x_at(m, y),
            None if y - ends[i].0.y < ends[i].1.y - y => ends[i].0.x,
            None => ends[i].1.x,
        }
    };
    // Who enters when.
    let mut enter: Vec<usize> = (0..n).filter(|i| ends[*i].0.y < ends[*i].1.y).collect();
    enter.sort_by(|a, b| ends[*a].0.y.partial_cmp(&ends[*b].0.y).unwrap());
    let mut next_enter = 0;
    let mut active: Vec<usize> = vec![];
    let mut prev: Vec<usize> = vec![];
    // Since when segments have been out of order.
    let mut wrong = std::collections::HashMap::new();
    for (k, l) in lines.iter().enumerate() {
        let y = l.y;
        let leaving = |i: usize| ends[i].1.y <= y;
        // What was there before, in order.
        let mut before: Vec<usize> = vec![];
        let mut slot = 0;
        let mut changed = 0;
        for rg in &l.ranges {
            if rg.slots.start < slot || rg.slots.end > l.slots.len() {
                return fail(o, "ranges", format!("at {y}, slots {:?} after {slot}, of {}", rg.slots, l.slots.len()));
            }
            before.extend(&l.slots[slot..rg.slots.start]);
            before.extend(&rg.old);
            slot = rg.slots.end;
            changed += rg.slots.len();
        }
        before.extend(&l.slots[slot..]);
        o.evals += 1;
        if before != prev {
            return fail(o, "unchanged", format!("the order was {prev:?} after the previous sweep line, but {before:?} before {y}"));
        }
        // What is there now.
        let now: Vec<usize> = l.slots.iter().copied().filter(|i| !leaving(*i)).collect();
        while next_enter < enter.len() && ends[enter[next_enter]].0.y <= y {
            active.push(enter[next_enter]);
            next_enter += 1;
        }
        active.retain(|i| !leaving(*i));
        o.evals += 1;
        let mut a = now.clone();
        a.sort();
        let mut b = active.clone();
        b.sort();
        if a != b {
            return fail(o, "active", format!("after {y}, the sweep line holds {a:?} instead of {b:?}"));
        }
        o.count("max:segments on the sweep line", now.len() as u64);
        // The ranges.
        let mut slot = 0;
        for rg in &l.ranges {
            for i in slot..rg.slots.start {
                if leaving(l.slots[i]) || ends[l.slots[i]].0.y >= y {
                    return fail(o, "outside", format!("at {y}, segment {} ends, but isn't in a changed range", l.slots[i]));
                }
            }
            slot = rg.slots.end;
            o.evals += 1;
            let new: Vec<usize> = l.slots[rg.slots.clone()].iter().copied().filter(|i| !leaving(*i)).collect();
            if rg.new != new {
                return fail(o, "range", format!("at {y}, a range shows {:?} instead of {new:?}", rg.new));
            }
            // Its events list the old and new segments, in the right places.
            for (above, want) in [(true, &rg.old), (false, &rg.new)] {
                let mut v: Vec<_> = rg
                    .evs
                    .iter()
                    .filter(|e| if above { e.above } else { e.below })
                    .map(|e| if above { (e.old_idx, e.seg, e.x0) } else { (e.new_idx, e.seg, e.x1) })
                    .collect();
                v.sort_by_key(|e| (e.0, e.1));
                o.evals += 1;
                if !v.iter().map(|e| &e.1).eq(want) || v.windows(2).any(|v| v[0].0 >= v[1].0) || v.iter().any(|e| !e.0.is_some_and(|i| rg.slots.contains(&i))) {
                    return fail(o, "indices", format!("at {y}, a range with {want:?} in slots {:?} has connections (above: {above}) {v:?}", rg.slots));
                }
                if v.windows(2).any(|v| v[0].2 > v[1].2) {
                    return fail(o, "positions", format!("at {y}, positions are not ordered like the sweep line (above: {above}): {v:?}"));
                }
                if !above && v.iter().any(|e| l.slots[e.0.unwrap()] != e.1) {
                    return fail(o, "indices", format!("at {y}, {v:?} are not the indices on the sweep line {:?}", l.slots));
                }
            }
        }
        o.count("slots in changed ranges", changed as u64);
        o.count("slots", l.slots.len() as u64);
        // The order is right until the next sweep line.
        if let Some(next) = lines.get(k + 1).map(|l| l.y).filter(|_| now.len() > 1 && (n <= 200 || r.chance(0.3))) {
            for u in [0.0, 0.03, 0.5, 0.97, 1.0] {
                let z = y + (next - y) * u;
                let slop = 2.0 * eps;
                let mut worst = f64::NEG_INFINITY;
                let mut who = 0;
                for &i in &now {
                    let (a, b) = (ends[i].0.y.max(z - slop), ends[i].1.y.min(z + slop));
                    let xs = [at(i, z), at(i, a), at(i, b)];
                    let (lo, hi) = xs.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |m, x| (m.0.min(*x), m.1.max(*x)));
                    o.evals += 1;
                    let over = worst - hi;
                    for (t, name) in [(0.0, "out of order"), (0.5, "by 0.5 eps"), (1.0, "by 1 eps"), (1.5, "by 1.5 eps"), (2.0, "by 2 eps"), (4.0, "by 4 eps"), (20.0, "by 20 eps")] {
                        if over <= t * eps {
                            break;
                        }
                        o.count(name, 1);
                    }
                    if over <= 3.0 * eps {
                        wrong.remove(&i);
                    } else if {
                        // Possible over a little height.
                        let from = *wrong.entry(i).or_insert(z);
                        o.count("max:height of wrong order (1e-3 eps)", ((z - from) / eps * 1e3) as u64);
                        z - from > 2.0 * eps
                    } {
                        return fail(o, "order", format!("at height {z}, between {y} and {next}, segment {who} = {:?} is before {i} = {:?}, but is right of it by {:.2} eps", seg(who), seg(i), over / eps));
                    }
                    if lo > worst {
                        worst = lo;
                        who = i;
                    }
                }
            }
        }
        prev = now;
    }
    o.evals += 1;
    if !prev.is_empty() || next_enter < enter.len() {
        return fail(o, "active", format!("in the end, {prev:?} remain on the sweep line"));
    }
    o.count("sweep lines", lines.len() as u64);
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(40_000, 2_000_000), move |i| {
        let mut o = Outcome::default();
        let c = gen::workload(seed, i);
        let mut r = case_rng(seed, 10, i);
        check(&c, &mut r, &mut o);
        if o.evals > 1 {
            o.nontrivial = Some(hash_str(&c.describe()) ^ o.evals);
        }
        if i % 9973 == 500 {
            o.sample = Some(c.describe());
        }
        o
    });
    Report {
        agg,
        rule: "The common workload as in C09. Per sweep line: the order before it (unchanged slots plus the old order of each changed range) is the order after the previous one; the order after it holds exactly the segments whose heights reach from here or above to below here, each once, none in the end; segments only come and go in changed ranges, whose events name all of their old and new segments at their slots, with positions ordered like the slots; and at five heights until the next sweep line, no segment is more than 3 eps left of a preceding one (taking everything within 2 eps of height into account) except over less than 2 eps of height. An evaluation is one of these comparisons. Non-trivial: at least one sweep line.".into(),
        assumptions: vec!["the harness's own evaluation of curves".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| gen::workload(seed, i).describe()),
    }
}
