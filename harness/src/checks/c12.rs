//! C12: cached comparisons are stable, antisymmetric and independent of query order.
use super::*;
use crate::{driver::*, gen, pairs, rng::Rng, run, trace};
use linesweeper::curve::{intersect_cubics, Order};
use linesweeper::order::ComparisonCache;
use linesweeper::Segments;
use std::collections::HashMap;

type Iv = (f64, f64, Order);

fn flipped(v: &[Iv]) -> Vec<Iv> {
    v.iter()
        .map(|(a, b, o)| {
            let o = match o {
                Order::Left => Order::Right,
                Order::Right => Order::Left,
                Order::Ish => Order::Ish,
            };
            (*a, *b, o)
        })
        .collect()
}

/// Exactly the same (so that -0 and 0 differ, too).
fn same(a: &[Iv], b: &[Iv]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.to_bits() == y.0.to_bits() && x.1.to_bits() == y.1.to_bits() && x.2 == y.2)
}

/// The curves of pairs, as an arena.
fn arena(r: &mut Rng, tol: f64, size: f64) -> Segments {
    let mut segs = Segments::default();
    for _ in 0..2 + r.below(8) {
        let p = pairs::pair(r, size, tol);
        for (c, l) in p.c.iter().zip(p.line) {
            let mut b = kurbo::BezPath::new();
            b.move_to(c.p0);
            if l {
                b.line_to(c.p3);
            } else {
                b.curve_to(c.p1, c.p2, c.p3);
            }
            segs.add_non_closed_bez_path(&b).unwrap();
        }
    }
    segs
}

struct Cached {
    cache: ComparisonCache,
    tol: f64,
    acc: f64,
    slop: f64,
    /// The answers so far.
    known: HashMap<(usize, usize), Vec<Iv>>,
}

fn history(segs: &Segments, eps: f64, r: &mut Rng, o: &mut Outcome) -> Result<u64, (&'static str, String)> {
    let names = trace::Names::new(segs);
    let n = names.len();
    let ends: Vec<_> = (0..n).map(|i| (segs[names.idx(i)].start().y, segs[names.idx(i)].end().y)).collect();
    let comparable = |i: usize, j: usize| ends[i].0 < ends[i].1 && ends[j].0 < ends[j].1 && ends[i].0.max(ends[j].0) <= ends[i].1.min(ends[j].1);
    let make = |r: &mut Rng| {
        let tol = eps * *r.pick(&[1.0, 1.0, 1.0, 3.0]);
        let acc = tol * *r.pick(&[0.5, 0.5, 0.5, 1.0, 0.25]);
        let plain = r.chance(0.3);
        let cache = if plain { ComparisonCache::new_without_y_slop(tol, acc) } else { ComparisonCache::new(tol, acc) };
        Cached { cache, tol, acc, slop: if plain { 0.0 } else { tol }, known: HashMap::new() }
    };
    let mut caches = vec![make(r)];
    if r.chance(0.3) {
        caches.push(make(r));
    }
    let mut all: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        for j in 0..n {
            if comparable(i, j) && (i != j || r.chance(0.2)) {
                all.push((i, j));
            }
        }
    }
    if all.is_empty() {
        return Ok(0);
    }
    r.shuffle(&mut all);
    // Everything among a few, so that pairs are asked for again and again, also swapped.
    all.truncate(60);
    let back: Vec<_> = all.iter().map(|(i, j)| (*j, *i)).collect();
    all.extend(back);
    let mut fp = 0u64;
    for step in 0..all.len() * 3 {
        let k = r.below(caches.len());
        if step % 64 == 63 && r.chance(0.2) && caches.len() < 4 {
            // A copy answers alike, from then on independently.
            let c = &caches[k];
            let c = Cached { cache: c.cache.clone(), known: c.known.clone(), ..*c };
            caches.push(c);
        }
        let c = &mut caches[k];
        let (i, j) = *r.pick(&all);
        let (si, sj) = (&segs[names.idx(i)], &segs[names.idx(j)]);
        let got = c.cache.compare_segments(segs, names.idx(i), names.idx(j));
        got.check_invariants();
        let got: Vec<Iv> = got.iter().collect();
        fp = fp.wrapping_mul(31).wrapping_add((i * 1000 + j) as u64);
        let at = |m: String| {
            format!(
                "{m} | query {step}, tolerance {} accuracy {} slop {}, {} {}",
                c.tol,
                c.acc,
                c.slop,
                pairs::show(&si.to_kurbo_cubic(), si.is_line()),
                pairs::show(&sj.to_kurbo_cubic(), sj.is_line())
            )
        };
        // Adjacent, and all of the common heights.
        let (y0, y1) = (ends[i].0.max(ends[j].0), ends[i].1.min(ends[j].1));
        o.evals += 1;
        if got.is_empty() || got[0].0 != y0 || got.last().unwrap().1 != y1 || got.iter().any(|x| x.0 > x.1) || got.windows(2).any(|w| w[0].1 != w[1].0) {
            return Err(("cover", at(format!("{got:?} doesn't cover {y0}..{y1}"))));
        }
        o.evals += 1;
        let want = if let Some(w) = c.known.get(&(i, j)) {
            o.count("asked again", 1);
            w.clone()
        } else if let Some(w) = c.known.get(&(j, i)) {
            o.count("asked the other way round", 1);
            flipped(w)
        } else {
            o.count("first asked", 1);
            o.count("with a strict order", got.iter().any(|g| g.2 != Order::Ish) as u64);
            intersect_cubics(si.to_kurbo_cubic(), sj.to_kurbo_cubic(), c.tol, c.acc).with_y_slop(c.slop).iter().collect()
        };
        if !same(&got, &want) {
            return Err(("answer", at(format!("the answer is {got:?}, it should be {want:?}"))));
        }
        c.known.insert((i, j), got);
    }
    Ok(fp)
}

fn input(seed: u64, i: u64) -> (Segments, f64, String, Rng) {
    let mut r = Rng::new(seed, 12, i);
    if i % 2 == 0 {
        let c = gen::workload(seed, i);
        let s = c09::scene(&c, &mut r);
        (s.segs, c.eps(), c.describe(), r)
    } else {
        let size = pairs::size(&mut r);
        let tol = size * 10f64.powf(r.range(-7.0, -1.5));
        let segs = arena(&mut r, tol, size);
        let d = segs.segments().map(|s| pairs::show(&s.to_kurbo_cubic(), s.is_line())).collect::<Vec<_>>().join(" ");
        (segs, tol, format!("tolerance {tol} of {d}"), r)
    }
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(20_000, 1_000_000), move |i| {
        let mut o = Outcome::default();
        let mut desc = String::new();
        let res = run::guarded(|| {
            let (segs, eps, d, mut r) = input(seed, i);
            desc = d;
            history(&segs, eps, &mut r, &mut o)
        });
        let sig = |what: &str| format!("{what}-{:016x}", hash_str(&desc));
        match res {
            Ok(Ok(0)) => {}
            Ok(Ok(fp)) => o.nontrivial = Some(fp ^ hash_str(&desc)),
            Ok(Err((what, m))) => o.violate(sig(what), m),
            Err(e) => o.violate(sig("panic"), format!("panic at {}: {} | {desc}", e.loc, e.msg)),
        }
        if i % 9973 == 5 {
            o.sample = Some(desc);
        }
        o
    });
    Report {
        agg,
        rule: "Arenas from the common workload (closed, open, mixed and polyline collections as in C09) and of related pairs of curves as in C11. A history of up to 360 queries of up to 120 pairs, mixed with their swapped and repeated ones, against one to four interleaved caches with different tolerances, with and without slop, and copies of them made on the way. Each answer has to be bit for bit the one given before, the mirrored one given before for the swapped pair, or, for a pair asked for the first time, the direct comparison of the two curves; and cover the common heights without gaps. An evaluation is one of these comparisons. Non-trivial: at least one query.".into(),
        assumptions: vec!["direct comparisons are themselves judged by C11".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| input(seed, i).2),
    }
}
