//! C18: the internal self-checks never fire and never change a result.
use super::{Ctx, Report};
use crate::common::case_rng;
use crate::{digest, driver::*, gen, run};

/// The known finding: the sweep line's self-check wants a queued event no later than a
/// crossing, but there is only a later one (for one of the two segments): up to eps later,
/// or more if the curves are close and steep.
fn late_witness(msg: &str, eps: f64) -> bool {
    let Some((head, rest)) = msg.split_once(", but there is no witness. y=") else { return false };
    let Some((names, y)) = head.split_once(" cross at ") else { return false };
    let Ok(y) = y.parse::<f64>() else { return false };
    let Some(names) = names.split_once("segments ").map(|x| x.1) else { return false };
    let names: Vec<&str> = names.split(" and ").collect();
    rest.split("IntersectionEvent { y: ").skip(1).any(|e| {
        let Some((ey, e)) = e.split_once(", left: ") else { return false };
        let Some((l, e)) = e.split_once(", right: ") else { return false };
        let r = e.split(' ').next().unwrap_or("");
        ey.parse::<f64>().is_ok_and(|ey| ey > y && ey <= y + 20.0 * eps) && (names.contains(&l) || names.contains(&r))
    })
}

/// Is there a monotone piece of a curve that rises less than `k` eps?
fn flat_piece(c: &gen::Case, k: f64) -> bool {
    let e = c.eps();
    [&c.a, &c.b].into_iter().any(|p| {
        let p = crate::oracle::Curves::new(p);
        p.monos.iter().any(|m| (m.p0.y - m.p1.y).abs() < k * e && (m.p0.x - m.p1.x).abs() > 3.0 * e)
    })
}

/// The class of known findings that a fired self-check belongs to.
pub fn class(msg: &str, c: &gen::Case) -> Option<&'static str> {
    if late_witness(msg, c.eps()) {
        Some("late-witness")
    } else if msg.contains("there is no witness") && gen::rises_less(c, 4.0) {
        Some("no-witness-almost-horizontal")
    } else if msg.contains("ev.smaller_x() <= upper && lower <= ev.larger_x()") && flat_piece(c, 4.0) {
        Some("position-almost-horizontal")
    } else if (msg.contains("there is no witness") || msg.contains("ev.smaller_x() <= upper && lower <= ev.larger_x()")) && harmless(c) {
        Some("harmless-self-check")
    } else {
        None
    }
}

/// Does the sweep keep the order and its positions all the same, as C09 and C10 see it?
fn harmless(c: &gen::Case) -> bool {
    (0..8).all(|k| {
        run::guarded(|| {
            let mut o = Outcome::default();
            super::c09::check(c, &mut case_rng(k, 9, k), &mut o);
            super::c10::check(c, &mut case_rng(k, 10, k), &mut o);
            o.violations.is_empty()
        })
        .is_ok_and(|x| x)
    })
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let cfg = ctx.config(16_000, 300_000);
    let (from, to) = (cfg.first, cfg.first + cfg.cases);
    let exe = std::env::current_exe().unwrap();
    let checked = exe.parent().unwrap().parent().unwrap().join("checked/lsmon");
    let m = digest::subprocess(&checked, seed, from, to, 8, false);
    let mut agg = crate::driver::run(cfg, move |i| {
        let mut o = Outcome::default();
        let c = digest::case(seed, i);
        if gen::has_subeps_slopes(&c) {
            o.count("skipped: almost horizontal edges", 1);
            return o;
        }
        let size = gen::max_abs(&c.a).max(gen::max_abs(&c.b));
        if c.eps() < 0.99e-8 * size {
            o.count("skipped: beyond the documented precision", 1);
            return o;
        }
        let d = match run::guarded(|| digest::digest(&c, i, false)) {
            Ok(d) => d,
            Err(p) => {
                o.violate(format!("panic-{i}"), format!("panic at {}: {} | {}", p.loc, p.msg, c.describe()));
                return o;
            }
        };
        let sig = format!("{:016x}", hash_str(&c.describe()));
        match m.get(&i) {
            None => o.inconclusive = Some("the checked build gave no answer".into()),
            Some(Err(p)) => {
                o.evals += 1;
                let class = class(p, &c);
                o.count(class.unwrap_or("other self-check"), 1);
                o.violate(class.map_or(format!("selfcheck-{sig}"), Into::into), format!("a self-check fired: {} | {}", p.chars().take(300).collect::<String>(), c.describe()))
            }
            Some(Ok(x)) => {
                o.nontrivial = Some(d[0] ^ d[1]);
                for k in 0..3 {
                    o.evals += 1;
                    if d[k] != x[k] {
                        o.violate(format!("differs-{sig}"), format!("{} differs between the builds | {}", digest::PARTS[k], c.describe()));
                    }
                }
            }
        }
        if i % 9973 == 500 {
            o.sample = Some(format!("fingerprints {d:x?} | {}", c.describe()));
        }
        o
    });
    // The known findings are rare. If their self-checks fire more often, something else is wrong.
    for (class, rate) in [("late-witness", 0.002), ("no-witness-almost-horizontal", 0.0005), ("position-almost-horizontal", 0.0006), ("harmless-self-check", 0.0005)] {
        let n = agg.counters.get(class).copied().unwrap_or(0);
        if n as f64 > 4.0 + rate * (to - from) as f64 {
            agg.violations.push((from, format!("often-{class}"), format!("self-checks of the known class {class} fired in {n} of {} cases", to - from)));
        }
    }
    Report {
        agg,
        rule: "The common workload (without long straight edges that rise less than eps, see DESIGN.md). Each case is run in an optimised build and in one with the expensive self-checks, debug assertions and overflow checks. An evaluation is the comparison of one bit-exact fingerprint (boolean operation, arrangement, sweep) between the builds; a panic in the checked build is a violation. Distinct: distinct fingerprints.".into(),
        assumptions: vec!["release and checked build run the same harness".into()],
        runaway_is_violation: false,
        describe: Box::new(move |i| digest::case(seed, i).describe()),
    }
}
