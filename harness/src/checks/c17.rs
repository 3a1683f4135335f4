//! C17: the same input gives the same result, bit for bit, whatever happened before or happens meanwhile.
use super::{Ctx, Report};
use crate::{common::*, digest, driver::*, gen, run, trace};
use std::sync::{Arc, Barrier};

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let cfg = ctx.config(16_000, 500_000);
    let (from, to) = (cfg.first, cfg.first + cfg.cases);
    // Other processes work on the same cases: one in reverse order and on one
    // thread (a part of them), one on many threads.
    let exe = std::env::current_exe().unwrap();
    let few = if ctx.only.is_some() { from } else { to - (to - from) / 8 };
    let other = {
        let exe = exe.clone();
        std::thread::spawn(move || digest::subprocess(&exe, seed, few, to, 1, true))
    };
    let many = std::thread::spawn(move || digest::subprocess(&exe, seed, from, to, 3, true));
    let firsts: Arc<std::sync::Mutex<Vec<(u64, digest::Digest)>>> = Arc::default();
    let firsts2 = firsts.clone();
    let mut agg = crate::driver::run(cfg, move |i| {
        let mut o = Outcome::default();
        let c = digest::case(seed, i);
        let mut r = case_rng(seed, 17, i);
        let first = match run::guarded(|| digest::digest(&c, i, false)) {
            Ok(d) => d,
            Err(p) => {
                o.violate(format!("panic-{i}"), format!("panic at {}: {} | {}", p.loc, p.msg, c.describe()));
                return o;
            }
        };
        firsts2.lock().unwrap().push((i, first));
        o.nontrivial = Some(first[0] ^ first[1]);
        let compare = |d: &digest::Digest, how: &'static str, o: &mut Outcome| {
            o.count(how, 1);
            for k in 0..3 {
                o.evals += 1;
                if d[k] != first[k] {
                    o.violate(format!("{how}-{:016x}", hash_str(&c.describe())), format!("{} differs {how} | {}", digest::PARTS[k], c.describe()));
                }
            }
        };
        // Right away, with buffers that have been used before.
        let again = digest::digest(&c, i, true);
        compare(&again, "on a second call", &mut o);
        // After other work, a failing call, and a sweep that was abandoned half-way.
        let j = r.u64() % 1_000_000;
        let between = digest::case(seed ^ 77, j);
        if !gen::has_subeps_slopes(&between) {
            let _ = run::guarded(|| digest::digest(&between, j, true));
            let mut open = kurbo::BezPath::new();
            open.move_to((0.0, 0.0));
            open.line_to((1.0, f64::NAN));
            let _ = run::guarded(|| linesweeper::binary_op(&open, &c.b, linesweeper::FillRule::EvenOdd, linesweeper::BinaryOp::Xor).is_err());
        }
        let again = digest::digest(&c, i, true);
        compare(&again, "after other work", &mut o);
        // A sweep that leaves many ranges half-way shows the same things as far as it goes.
        if i % 2 == 0 {
            let t = linesweeper::topology::Topology::from_paths_binary(&c.a, &c.b, c.eps()).unwrap();
            let names = trace::Names::new(&t.segments);
            let mut full = vec![];
            trace::sweep(&t.segments, &names, c.eps(), &mut trace::Bufs::default(), |s| full.push(s));
            let mut part = vec![];
            let mut bufs = trace::Bufs::default();
            let take = || if r.chance(0.5) { r.below(4) } else { usize::MAX };
            trace::sweep_partly(&t.segments, &names, c.eps(), &mut bufs, take, |s| part.push(s));
            o.evals += 1;
            o.count("sweeps that left ranges half-way", 1);
            for (p, f) in part.iter().zip(&mut full) {
                for (p, f) in p.ranges.iter().zip(&mut f.ranges) {
                    f.batches.truncate(p.batches.len());
                }
            }
            if part != full {
                o.violate(format!("partial-{:016x}", hash_str(&c.describe())), format!("a sweep that leaves ranges half-way differs from one that doesn't | {}", c.describe()));
            }
        }
        // On two other threads at once, each busy with another case before.
        if i % 4 == 0 {
            let barrier = Barrier::new(2);
            let ds: Vec<digest::Digest> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..2)
                    .map(|t| {
                        let (c, between, barrier) = (&c, &between, &barrier);
                        s.spawn(move || {
                            crate::budget::begin(i, 50_000_000, 1 << 30);
                            if t == 1 && !gen::has_subeps_slopes(between) {
                                let _ = run::guarded(|| digest::digest(between, j, true));
                            }
                            barrier.wait();
                            crate::budget::disturb(i + t);
                            let d = digest::digest(c, i, true);
                            crate::budget::disturb(0);
                            crate::budget::end();
                            d
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for d in &ds {
                compare(d, "on a concurrent thread", &mut o);
            }
        }
        if i % 9973 == 500 {
            o.sample = Some(format!("fingerprints {first:x?} | {}", c.describe()));
        }
        o
    });
    for (h, how) in [(other, "in another process, in reverse order"), (many, "in another process, on several threads")] {
        let m = h.join().unwrap();
        let mut n = 0;
        for (i, first) in firsts.lock().unwrap().iter() {
            let Some(d) = m.get(i) else { continue };
            n += 1;
            agg.evals += 3;
            if d.as_ref().ok() != Some(first) {
                agg.n_violations += 1;
                let c = digest::case(seed, *i).describe();
                agg.violations.push((*i, format!("process-{:016x}", hash_str(&c)), format!("differs {how}: {d:?} instead of {first:?} | {c}")));
            }
        }
        agg.counters.insert(how.to_string(), n);
    }
    Report {
        agg,
        rule: "The common workload. Each case's bit-exact fingerprints (contours of a boolean operation; windings, vertices and drawn curves of the arrangement; all sweep lines and events) are taken, and taken again on a second call with used buffers, after other work including a refused input, in a sweep that leaves ranges before their end, on two concurrent threads with injected yields, in another process in reverse order (an eighth of the cases) and in another process on several threads. An evaluation is one comparison of a fingerprint with the first one. Distinct: distinct fingerprints.".into(),
        assumptions: vec![],
        runaway_is_violation: false,
        describe: Box::new(move |i| digest::case(seed, i).describe()),
    }
}
