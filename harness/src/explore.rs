//! Exploration helpers (not used by any check).
use crate::{budget, digest, common::*, gen, oracle, rng, run, sample, shrink};
use linesweeper::*;

fn bad(c: &gen::Case, rule: FillRule, op: BinaryOp, k: f64) -> Option<String> {
    let out = match run::guarded(|| boolop(c, rule, op)) {
        Err(p) => return Some(format!("PANIC {} {}", p.loc, &p.msg[..p.msg.len().min(60)])),
        Ok(Err(_)) => return None,
        Ok(Ok(o)) => o,
    };
    let inp = sample::Inputs::new(&[&c.a, &c.b]);
    let oc: oracle::Curves = out_curves(&out);
    let d = k * c.eps();
    let mut r = rng::Rng::new(1, 2, 3);
    let ss = sample::samples(&inp, d, 30, 20, &mut r);
    let (mut worst, mut nf) = (0.0f64, 0);
    for s in &ss {
        let want = expect(op, fill(rule, s.w[0]), fill(rule, s.w[1]));
        if (oc.winding(s.p) != 0) != want {
            nf += 1;
            worst = worst.max(inp.all.dist(s.p) / c.eps());
        }
    }
    (nf > 0).then(|| format!("nf={nf}/{} worst={worst:.2}", ss.len()))
}

pub fn main(args: &[String]) -> ! {
    let num = |i: usize| args[i].parse::<f64>().unwrap();
    match args[0].as_str() {
        // near SEED CASE OP RULE X Y D: input and output curves near a point
        "near" => {
            let c = gen::workload(num(1) as u64, num(2) as u64);
            let op = OPS.into_iter().find(|o| format!("{o:?}") == args[3]).unwrap();
            let rule = RULES.into_iter().find(|o| format!("{o:?}") == args[4]).unwrap();
            let p = kurbo::Point::new(num(5), num(6));
            let d = num(7);
            println!("eps {} {}", c.eps(), c.family);
            for (n, q) in [("A", &c.a), ("B", &c.b)] {
                let cs = oracle::Curves::new(q);
                for i in 0..cs.segs.len() {
                    if oracle::seg_closer_than(&cs.segs[i], &cs.boxes[i], cs.is_line[i], p, d) {
                        println!("{n}{i} line={} {:?}", cs.is_line[i], cs.segs[i]);
                    }
                }
            }
            let out = boolop(&c, rule, op).unwrap();
            for (k, x) in out.contours().enumerate() {
                let cs = oracle::Curves::new(&x.path);
                for i in 0..cs.segs.len() {
                    if oracle::seg_closer_than(&cs.segs[i], &cs.boxes[i], cs.is_line[i], p, d) {
                        println!("out {k}.{i} line={} outer={} parent={:?} {:?}", cs.is_line[i], x.outer, x.parent, cs.segs[i]);
                    }
                }
            }
        }
        "present" => crate::checks::c20::probe(num(1) as u64, num(2) as u64),
        "lone" => crate::checks::c21::probe(num(1) as u64, num(2) as u64, num(3), num(4), num(5)),
        "work" => work(num(1) as u64),
        "dump" => println!("{}", gen::workload(num(1) as u64, num(2) as u64).describe()),
        // sites SEED FILE: families of the panics in a digest process's output
        "sites" => {
            for l in std::fs::read_to_string(&args[2]).unwrap().lines() {
                let f: Vec<&str> = l.splitn(4, ' ').collect();
                if f[1] == "panic" {
                    let i: u64 = f[0].parse().unwrap();
                    let c = gen::workload(num(1) as u64, i);
                    println!("{} {i} {} subeps={} eps={:?} max={}", f[2], c.family, gen::has_subeps_slopes(&c), c.eps(), gen::max_abs(&c.a).max(gen::max_abs(&c.b)));
                }
            }
        }
        // shrink EPS A B K: smallest input with a wrong point for some op
        "shrink" => {
            let c = gen::Case {
                family: "cli",
                eps: Some(num(1)),
                a: kurbo::BezPath::from_svg(&args[2]).unwrap(),
                b: kurbo::BezPath::from_svg(&args[3]).unwrap(),
            };
            for op in OPS {
                for rule in RULES {
                    if let Some(b) = bad(&c, rule, op, num(4)) {
                        println!("{op:?} {rule:?} {b}");
                        let m = shrink::shrink(&c, |c| bad(c, rule, op, num(4)).is_some());
                        println!("{}\n{:?}", m.describe(), bad(&m, rule, op, num(4)));
                        std::process::exit(0);
                    }
                }
            }
            println!("not bad");
        }
        // rshrink EPS A B: smallest input exhausting its work budget
        "rshrink" => {
            let c = gen::Case {
                family: "cli",
                eps: Some(num(1)),
                a: kurbo::BezPath::from_svg(&args[2]).unwrap(),
                b: kurbo::BezPath::from_svg(&args[3]).unwrap(),
            };
            use std::sync::atomic::Ordering::SeqCst;
            let m = shrink::shrink(&c, |c| {
                let n0 = budget::N_RUNAWAY.load(SeqCst);
                let c = c.clone();
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        budget::begin(0, 300_000, 1 << 28);
                        let _ = run::guarded(|| for rule in RULES { for op in OPS { let _ = boolop(&c, rule, op); } });
                        budget::end();
                    })
                    .unwrap();
                let t0 = std::time::Instant::now();
                loop {
                    if h.is_finished() {
                        return false;
                    }
                    if budget::N_RUNAWAY.load(SeqCst) > n0 || t0.elapsed().as_secs() > 3 {
                        return true;
                    }
                    std::thread::sleep(std::time::Duration::from_micros(200));
                }
            });
            println!("{}", m.describe());
        }
        // vshrink SEED CASE: smallest input with a C05 violation
        "vshrink" => {
            let c = gen::workload(num(1) as u64, num(2) as u64);
            let f = |c: &gen::Case| {
                let mut o = crate::driver::Outcome::default();
                let inp = crate::sample::Inputs::new(&[&c.a, &c.b]);
                for op in OPS {
                    for rule in RULES {
                        let mut r = case_rng(1, 5, 1);
                        crate::checks::c05::check_op(c, rule, op, &inp, &mut r, &mut o);
                    }
                }
                o.violations.first().map(|v| format!("{v:?}"))
            };
            println!("{}", f(&c).unwrap_or_default());
            let m = shrink::shrink(&c, |c| f(c).is_some());
            println!("{}", m.describe());
            println!("{}", f(&m).unwrap_or_default());
        }
        // kshrink CLASS SEED CASE: smallest input of a class of C18 findings
        "kshrink" => {
            let c = digest::case(args[2].parse().unwrap(), num(3) as u64);
            let f = |c: &gen::Case| match run::guarded(|| digest::digest(c, 0, false)) {
                Err(p) => crate::checks::c18::class(&format!("{} {}", p.loc, p.msg.replace('\n', " ")), c).unwrap_or("other") == args[1],
                Ok(_) => false,
            };
            println!("{}", f(&c));
            let m = shrink::shrink(&c, |c| !gen::has_subeps_slopes(c) && c.eps() >= 0.99e-8 * gen::max_abs(&c.a).max(gen::max_abs(&c.b)) && f(c));
            println!("{}", m.describe());
        }
        // self EPS A B: the panic of a self-check
        "self" => {
            let c = gen::Case { family: "x", eps: args[1].parse().ok(), a: kurbo::BezPath::from_svg(&args[2]).unwrap(), b: kurbo::BezPath::from_svg(&args[3]).unwrap() };
            println!("{:?}", run::guarded(|| digest::digest(&c, 0, false)).err());
        }
        // pshrink SEED CASE LOC: smallest input for which building and drawing panics at LOC
        "pshrink" => {
            let c = gen::workload(num(1) as u64, num(2) as u64);
            let m = shrink::shrink(&c, |c| !gen::has_subeps_slopes(c) && run::guarded(|| crate::digest::digest(c, 0, false)).is_err_and(|p| p.loc.contains(&args[3])));
            println!("{}", m.describe());
            println!("{:?}", run::guarded(|| crate::digest::digest(&m, 0, false)).err());
        }
        _ => eprintln!("unknown tool"),
    }
    std::process::exit(0)
}

/// How work grows with the ratio of coordinates to eps.
pub fn work(seed: u64) {
    use crate::*;
    for far in [false, true] {
        for rel in [1e-2f64, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13] {
            let mut v: Vec<(f64, f64, u64)> = vec![];
            for i in 0..300u64 {
                let c = gen::case(seed, i);
                if c.family == "corpus" { continue; }
                let m = gen::max_abs(&c.a).max(gen::max_abs(&c.b)).max(1e-300);
                let (a, b, mm) = if far {
                    let off = m * (1e-4 / rel).clamp(1.0, 1e9);
                    let t = kurbo::Affine::translate((off, off * 0.7));
                    (t * c.a, t * c.b, off + m)
                } else { (c.a, c.b, m) };
                let c = gen::Case { family: c.family, a, b, eps: Some(mm * rel) };
                if gen::has_subeps_slopes(&c) { continue; }
                let (n, pairs) = checks::c02::size(&c);
                budget::begin(i, 60_000_000, 1 << 33);
                let r = std::thread::scope(|s| { let _ = s; run::guarded(|| common::boolop(&c, linesweeper::FillRule::EvenOdd, linesweeper::BinaryOp::Union)) });
                let al = budget::end();
                let els = match r { Ok(Ok(o)) => o.contours().map(|c| c.path.elements().len()).sum::<usize>(), _ => 0 };
                let u = 8.0 + (n + pairs) as f64;
                v.push((al as f64 / u, els as f64 / u, i));
            }
            v.sort_by(|a, b| a.0.total_cmp(&b.0));
            let m = v[v.len() / 2].0;
            let (x, _, i) = v[v.len() - 1];
            let e = v.iter().map(|x| x.1).fold(0.0, f64::max);
            println!("far={far} rel={rel:e} median {m:.0} max {x:.0} (case {i} {}) max elements/unit {e:.1}", gen::case(seed, i).family);
        }
    }
}
