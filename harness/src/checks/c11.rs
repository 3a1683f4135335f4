//! C11: comparing two curves tells the truth about their left-to-right order.
use super::*;
use crate::{driver::*, pairs, rng::Rng, run};
use linesweeper::curve::{self, CurveInteraction, CurveOrder, Order};

/// Vertical imprecision tried for an interval that doesn't hold exactly, in tolerances,
/// up to what's accepted.
const ISH: [f64; 8] = [0.0, 1e-2, 0.1, 0.5, 1.0, 1.5, 2.0, 2.5];
const STRICT: [f64; 6] = [0.0, 1e-2, 0.1, 0.25, 0.5, 1.0];

type Iv = (f64, f64, Order);

fn mirrored(v: &[Iv]) -> Vec<Iv> {
    v.iter()
        .map(|(a, b, o)| {
            let o = match o {
                Order::Left => Order::Right,
                Order::Right => Order::Left,
                Order::Ish => Order::Ish,
            };
            (*a, *b, o)
        })
        .collect()
}

/// Consecutive, alternating with "close", and covering `y0..y1`.
fn shape(v: &[Iv], y0: f64, y1: f64) -> bool {
    v.first().map(|i| i.0) == Some(y0)
        && v.last().map(|i| i.1) == Some(y1)
        && v.iter().all(|i| i.0 <= i.1)
        && v.windows(2).all(|w| w[0].1 == w[1].0 && (w[0].2 == Order::Ish) != (w[1].2 == Order::Ish))
}

/// What the queries have to say, according to the intervals.
fn queries(ord: &CurveOrder, iv: &[Iv], ys: &[f64], o: &mut Outcome) -> Result<(), String> {
    let last = iv.last().unwrap();
    for &y in ys {
        o.evals += 3;
        let want = iv.iter().find(|i| y <= i.1).unwrap().2;
        if ord.order_at(y) != want {
            return Err(format!("order_at({y}) is {:?}, not {want:?}", ord.order_at(y)));
        }
        let strict = iv.iter().find(|i| i.1 > y && i.2 != Order::Ish).map_or(Order::Ish, |i| i.2);
        let want = if y == last.1 { last.2 } else { strict };
        if ord.order_after(y) != want {
            return Err(format!("order_after({y}) is {:?}, not {want:?}", ord.order_after(y)));
        }
        if y < last.1 {
            let want = *iv.iter().find(|i| i.1 > y).unwrap();
            if ord.entry_at(y) != want {
                return Err(format!("entry_at({y}) is {:?}, not {want:?}", ord.entry_at(y)));
            }
        }
        // The next time they touch, as if they were left-right at y.
        let rest: Vec<_> = iv.iter().filter(|i| i.1 > y).collect();
        let mut want = None;
        for (k, i) in rest.iter().enumerate() {
            match i.2 {
                Order::Left => {}
                Order::Right => {
                    want = Some(("Cross", y, y));
                    break;
                }
                Order::Ish => match rest.get(k + 1).map(|i| i.2) {
                    None => break,
                    Some(Order::Right) => {
                        want = Some(("Cross", i.0.max(y), i.1));
                        break;
                    }
                    _ if y < i.0 => {
                        want = Some(("Touch", i.0, i.1));
                        break;
                    }
                    _ => {}
                },
            }
        }
        let got = ord.next_touch_after(y).map(|t| match t {
            CurveInteraction::Cross(h) => ("Cross", h),
            CurveInteraction::Touch(h) => ("Touch", h),
        });
        let ok = match (want, got) {
            (None, None) => true,
            (Some((a, lo, hi)), Some((b, h))) => {
                o.count(if a == "Cross" { "crossings" } else { "touchings" }, 1);
                // Time has to go on, unless they are out of order already.
                a == b && lo <= h && h <= hi && (h > y || lo == hi)
            }
            _ => false,
        };
        if !ok {
            return Err(format!("next_touch_after({y}) is {got:?}, not {want:?}"));
        }
    }
    Ok(())
}

/// Some interesting heights.
fn heights(iv: &[Iv], r: &mut Rng) -> Vec<f64> {
    let (y0, y1) = (iv[0].0, iv.last().unwrap().1);
    let mut ys = vec![y0, y1];
    for (a, b, _) in iv {
        ys.extend([*a, *b, 0.5 * (a + b), a + r.f() * (b - a)]);
    }
    ys.retain(|y| y0 <= *y && *y <= y1);
    if ys.len() > 40 {
        r.shuffle(&mut ys);
        ys.truncate(40);
    }
    ys
}

fn check(p: &pairs::Pair, tol: f64, acc: f64, r: &mut Rng, o: &mut Outcome) -> Result<(), (&'static str, String)> {
    let [c0, c1] = p.c;
    let mag = p.mag();
    let ord = curve::intersect_cubics(c0, c1, tol, acc);
    let iv: Vec<Iv> = ord.iter().collect();
    o.count("max:intervals", iv.len() as u64);
    let (y0, y1) = (c0.p0.y.max(c1.p0.y), c0.p3.y.min(c1.p3.y));
    o.evals += 1;
    if !shape(&iv, y0, y1) {
        return Err(("range", format!("{iv:?} doesn't partition {y0}..{y1}")));
    }
    ord.check_invariants();
    // The truth.
    let fy = 1e-11 * mag;
    let fx = 1e-9 * mag;
    // Wide and flat curves are compared at 45 degrees, where vertical parts of them
    // appear to be farther apart.
    let strictly = (tol - acc) / std::f64::consts::SQRT_2 - fx;
    for (a, b, what) in &iv {
        let mut ys = vec![a + (b - a) * 1e-3, b - (b - a) * 1e-3, 0.5 * (a + b), a + (b - a) * r.f(), a + (b - a) * r.f()];
        ys.retain(|y| a < y && y < b);
        if y0 == y1 {
            ys.push(y0);
        }
        for y in ys {
            o.evals += 1;
            o.count(if *what == Order::Ish { "close" } else { "strict" }, 1);
            let steps = if *what == Order::Ish { &ISH[..] } else { &STRICT[..] };
            let mut first = 0.0;
            let ok = steps.iter().position(|s| {
                let d = fy + s * tol;
                let r0 = pairs::x_range(&c0, p.line[0], y - d, y + d);
                let r1 = pairs::x_range(&c1, p.line[1], y - d, y + d);
                // How far the second curve is to the right.
                let (dmin, dmax) = (r1.0 - r0.1, r1.1 - r0.0);
                let bad = match what {
                    Order::Left => strictly - dmax,
                    Order::Right => dmin + strictly,
                    Order::Ish => (dmin - tol - acc - fx).max(-dmax - tol - acc - fx),
                };
                if *s == 0.0 {
                    first = bad;
                }
                bad <= 0.0
            });
            match ok {
                Some(0) => {}
                Some(k) if *what == Order::Ish => o.count("max:vertical imprecision of close, 1/100 tolerance", (steps[k] * 100.0) as u64),
                Some(k) => {
                    o.count("strict with vertical imprecision", 1);
                    o.count("max:vertical imprecision of strict, 1/100 tolerance", (steps[k] * 100.0) as u64)
                }
                None => {
                    return Err((
                        "order",
                        format!("at {y}, in {a}..{b}, they are said to be {what:?}, which is wrong by {:.3} tolerances ({iv:?})", first / tol),
                    ))
                }
            }
        }
    }
    let flipped: Vec<Iv> = ord.flip().iter().collect();
    o.evals += 1;
    if flipped != mirrored(&iv) {
        return Err(("flip", format!("{iv:?} flipped is {flipped:?}")));
    }
    queries(&ord, &iv, &heights(&iv, r), o).map_err(|m| ("query", format!("{m} in {iv:?}")))?;
    queries(&ord.flip(), &flipped, &heights(&flipped, r), o).map_err(|m| ("query", format!("{m} in {flipped:?}")))?;

    // With vertical slop.
    let slop = *r.pick(&[tol, tol, tol, acc, 10.0 * tol, (y1 - y0) * 0.1, 0.0]);
    let wide = ord.clone().with_y_slop(slop);
    let wv: Vec<Iv> = wide.iter().collect();
    o.evals += 1;
    if !shape(&wv, y0, y1) {
        return Err(("slop-range", format!("{iv:?} with slop {slop} is {wv:?}")));
    }
    wide.check_invariants();
    queries(&wide, &wv, &heights(&wv, r), o).map_err(|m| ("query", format!("{m} in {wv:?}")))?;
    if y0 == y1 {
        return Ok(());
    }
    let f = 1e-14 * mag;
    for (a, b, what) in &wv {
        for y in [a + (b - a) * 1e-3, b - (b - a) * 1e-3, 0.5 * (a + b), a + (b - a) * r.f()] {
            if !(*a < y && y < *b) {
                continue;
            }
            o.evals += 1;
            // All orders within the slop, with and without some rounding.
            let within = |d: f64| {
                let v: Vec<Order> = iv.iter().filter(|i| i.0 <= y + d && y - d <= i.1).map(|i| i.2).collect();
                if v.iter().all(|x| *x == v[0]) {
                    v[0]
                } else {
                    Order::Ish
                }
            };
            let (less, more) = (within((slop - f).max(0.0)), within(slop + f));
            if *what != less && *what != more {
                return Err(("slop", format!("{iv:?} with slop {slop} is {wv:?}, which should be {less:?} at {y}")));
            }
        }
    }
    Ok(())
}

pub fn describe(seed: u64, i: u64) -> String {
    let (p, tol, acc, _) = case(seed, i);
    format!("tolerance {tol:?} accuracy {acc:?} {} {}", p.how, p.describe())
}

fn case(seed: u64, i: u64) -> (pairs::Pair, f64, f64, Rng) {
    let mut r = Rng::new(seed, 11, i);
    let size = pairs::size(&mut r);
    let off = if r.chance(0.15) { size * 10f64.powf(r.range(0.0, 4.0)) } else { 0.0 };
    let tol = size.max(off) * 10f64.powf(r.range(-7.0, -1.5));
    let acc = tol * *r.pick(&[0.5, 0.5, 0.5, 1.0, 0.1]);
    let mut p = pairs::pair(&mut r, size, tol);
    if off > 0.0 {
        // Far from the origin.
        let v = kurbo::Vec2::new(off * r.range(-1.0, 1.0), off * r.range(-1.0, 1.0));
        let mut q = pairs::Pair { how: p.how, line: p.line, c: p.c };
        for (c, l) in q.c.iter_mut().zip(p.line) {
            *c = kurbo::CubicBez::new(c.p0 + v, c.p1 + v, c.p2 + v, c.p3 + v);
            if l {
                *c = pairs::line(c.p0, c.p3);
            }
        }
        if q.c.iter().all(pairs::is_monotone) && q.c[0].p0.y.max(q.c[1].p0.y) <= q.c[0].p3.y.min(q.c[1].p3.y) {
            p = q;
        }
    }
    (p, tol, acc, r)
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(400_000, 20_000_000), move |i| {
        let mut o = Outcome::default();
        let (p, tol, acc, mut r) = case(seed, i);
        let sig = |what: &str| format!("{what}-{:016x}", hash_str(&describe(seed, i)));
        match run::guarded(|| check(&p, tol, acc, &mut r, &mut o)) {
            Ok(Ok(())) => {}
            Ok(Err((what, m))) => o.violate(sig(what), format!("{m} | {}", describe(seed, i))),
            Err(e) => o.violate(sig("panic"), format!("panic at {}: {} | {}", e.loc, e.msg, describe(seed, i))),
        }
        o.count(p.how, 1);
        o.nontrivial = Some(hash_str(&p.describe()));
        if i % 99_991 == 5 {
            o.sample = Some(describe(seed, i));
        }
        o
    });
    Report {
        agg,
        rule: "Pairs of monotone curves and lines with common heights (almost horizontal, almost vertical, inner flat parts, degenerate tangents, quadratics, ellipse arcs; unrelated, moved by about the tolerance, parts, chords and tangents of each other, sharing an end, mirrored, crossing, end to end) at magnitudes 1e-3 to 1e6, some far from the origin, with tolerances from 1e-7 of the coordinates. Every interval of the comparison is checked at five heights against positions found by bisection: strict means more than (tolerance minus accuracy) / sqrt 2 apart in this direction (wide and flat curves are compared at 45 degrees), close means at most tolerance plus accuracy (each with coordinates known to 1e-9, and up to a vertical imprecision of one tolerance for strict and 2.5 tolerances for close). Intervals partition the common heights and alternate; flipping mirrors them; all point queries and next_touch_after agree with them, at their ends, middles and random heights; after widening, an interval is strict exactly if the comparison was within the slop. An evaluation is one of these. Non-trivial: every pair.".into(),
        assumptions: vec!["the harness's own evaluation of curves by bisection".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| describe(seed, i)),
    }
}
