//! Bit-exact fingerprints of everything the library computes for a case.
use crate::{common::*, driver, gen, run, trace};
use linesweeper::topology::{BinaryWindingNumber, Topology};
use linesweeper::*;
use std::cell::RefCell;
use std::collections::HashMap;

/// Boolean operation; arrangement (windings, positions); sweep.
pub type Digest = [u64; 3];

thread_local! {
    static BUFS: RefCell<trace::Bufs> = RefCell::default();
}

fn opt(h: &mut Fnv, i: Option<usize>) {
    h.add(i.map_or(u64::MAX, |i| i as u64));
}

pub fn topology(t: &Topology<BinaryWindingNumber>) -> u64 {
    let mut h = Fnv::new();
    let pos = t.compute_positions();
    for i in t.segment_indices() {
        for half in [i.first_half(), i.second_half()] {
            for w in [t.winding_clockwise(half), t.winding_counter_clockwise(half)] {
                h.add(w.shape_a as u64);
                h.add(w.shape_b as u64);
            }
            let p = t.point(half);
            h.add(p.x.to_bits());
            h.add(p.y.to_bits());
        }
        let p = &pos[i];
        opt(&mut h, p.copied_idx);
        for e in p.path.elements() {
            for q in gen::el_points(e) {
                h.add(q.x.to_bits());
                h.add(q.y.to_bits());
            }
        }
    }
    h.0
}

pub fn events(segs: &Segments, eps: f64, bufs: &mut trace::Bufs) -> u64 {
    let mut h = Fnv::new();
    let names = trace::Names::new(segs);
    trace::sweep(segs, &names, eps, bufs, |s| {
        h.add(s.y.to_bits());
        for i in &s.order {
            h.add(*i as u64);
        }
        for r in &s.ranges {
            h.add(u64::MAX);
            for i in r.old.iter().chain(&r.new) {
                h.add(*i as u64);
            }
            for (x, b) in &r.batches {
                h.add(x.to_bits());
                for e in b {
                    h.add(e.seg as u64);
                    h.add(e.x0.to_bits());
                    h.add(e.x1.to_bits());
                    h.add(e.above as u64 * 2 + e.below as u64);
                    opt(&mut h, e.new_idx);
                    opt(&mut h, e.old_idx);
                }
            }
        }
    });
    h.0
}

/// Fingerprints of case `i`. With `reuse`, the thread's own scratch buffers are used.
pub fn digest(c: &gen::Case, i: u64, reuse: bool) -> Digest {
    let rule = RULES[(i / 4 % 2) as usize];
    let op = OPS[(i % 4) as usize];
    let d0 = match boolop(c, rule, op) {
        Ok(x) => crate::common::digest(&x),
        Err(_) => 1,
    };
    let t = Topology::from_paths_binary(&c.a, &c.b, c.eps()).map_err(Error::from).unwrap();
    let d1 = topology(&t);
    let d2 = if reuse {
        BUFS.with(|b| events(&t.segments, c.eps(), &mut b.borrow_mut()))
    } else {
        events(&t.segments, c.eps(), &mut trace::Bufs::default())
    };
    [d0, d1, d2]
}

pub const PARTS: [&str; 3] = ["the boolean operation", "the arrangement", "the sweep"];

/// The cases whose fingerprints are compared.
pub fn case(seed: u64, i: u64) -> gen::Case {
    let k = gen::known_checks();
    match k.get(i as usize) {
        Some(c) => c.clone(),
        None => gen::workload(seed, i - k.len() as u64),
    }
}

/// lsmon digest SEED FROM TO THREADS REVERSE: prints the fingerprints of many cases.
pub fn main(args: &[String]) -> ! {
    use std::io::Write;
    let n: Vec<u64> = args.iter().map(|a| a.parse().unwrap()).collect();
    let (seed, from, to, threads, reverse) = (n[0], n[1], n[2], n[3], n[4]);
    let cfg = driver::Config {
        first: from,
        cases: to - from,
        threads: threads as usize,
        wall: std::time::Duration::from_secs(800),
        max_allocs: 200_000_000,
        ..driver::Config::default()
    };
    driver::run(cfg, move |k| {
        let i = if reverse == 1 { from + to - 1 - k } else { k };
        let c = case(seed, i);
        let line = match run::guarded(|| digest(&c, i, true)) {
            Ok([a, b, c]) => format!("{i} {a} {b} {c}\n"),
            Err(p) => format!("{i} panic {} {}\n", p.loc, p.msg.replace('\n', " ").chars().take(20_000).collect::<String>()),
        };
        std::io::stdout().lock().write_all(line.as_bytes()).unwrap();
        driver::Outcome { evals: 1, ..Default::default() }
    });
    std::io::stdout().lock().flush().unwrap();
    std::process::exit(0)
}

/// Runs a digest process and collects what it printed.
pub fn subprocess(exe: &std::path::Path, seed: u64, from: u64, to: u64, threads: u64, reverse: bool) -> HashMap<u64, Result<Digest, String>> {
    let out = std::process::Command::new(exe)
        .args(["digest".to_string(), seed.to_string(), from.to_string(), to.to_string(), threads.to_string(), (reverse as u64).to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .expect("cannot run the digest process");
    let mut m = HashMap::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let mut f = l.splitn(3, ' ');
        let i: u64 = f.next().unwrap().parse().unwrap();
        let a = f.next().unwrap();
        let rest = f.next().unwrap_or("");
        let v = if a == "panic" {
            Err(rest.to_string())
        } else {
            let (b, c) = rest.split_once(' ').unwrap();
            Ok([a.parse().unwrap(), b.parse().unwrap(), c.parse().unwrap()])
        };
        m.insert(i, v);
    }
    m
}
