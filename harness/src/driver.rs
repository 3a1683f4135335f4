//! Drives a monitor over many cases on all cores and aggregates its verdicts.
use crate::budget;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Debug)]
pub struct Outcome {
    /// Number of oracle evaluations (observed facts that were checked).
    pub evals: u64,
    /// Fingerprint of the case, if it was non-trivial.
    pub nontrivial: Option<u64>,
    pub counters: Vec<(&'static str, u64)>,
    /// (signature, full description) of each violation.
    pub violations: Vec<(String, String)>,
    pub inconclusive: Option<String>,
    pub sample: Option<String>,
}

impl Outcome {
    pub fn count(&mut self, k: &'static str, n: u64) {
        self.counters.push((k, n));
    }
    pub fn violate(&mut self, sig: impl Into<String>, desc: impl Into<String>) {
        self.violations.push((sig.into(), desc.into()));
    }
}

#[derive(Default, Debug)]
pub struct Agg {
    pub cases: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub violations: Vec<(u64, String, String)>,
    pub n_violations: u64,
    pub n_new: usize,
    pub inconclusive: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Cases that ran out of their work budget: (case, reason)
    pub runaway: Vec<(u64, &'static str)>,
    pub timed_out: bool,
}

pub struct Config {
    pub first: u64,
    pub cases: u64,
    pub threads: usize,
    /// Generous wall-clock limit for the whole run; reaching it only stops the
    /// run early (fewer cases), it never decides a verdict.
    pub wall: Duration,
    pub max_allocs: u64,
    pub max_live: i64,
    /// CPU seconds of one thread in one case.
    pub max_cpu: f64,
    pub stop_after: usize,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            first: 0,
            cases: 1000,
            threads: 8,
            wall: Duration::from_secs(300),
            max_allocs: 50_000_000,
            max_live: 1 << 29,
            max_cpu: 40.0,
            stop_after: std::env::var("LSMON_STOP").ok().and_then(|s| s.parse().ok()).unwrap_or(40),
        }
    }
}

/// Signatures of known findings, which don't count when deciding whether to stop.
pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

fn is_known(sig: &str) -> bool {
    KNOWN.get().is_some_and(|k| k.iter().any(|k| k == sig))
}

struct Slot {
    case: AtomicU64,
    tid: AtomicU64,
    cpu_at_start: Mutex<f64>,
    dead: AtomicBool,
}

fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.parse().unwrap_or(0))))
        .unwrap_or(0)
}

pub fn run(cfg: Config, f: impl Fn(u64) -> Outcome + Send + Sync + 'static) -> Agg {
    let f = Arc::new(f);
    let agg = Arc::new(Mutex::new(Agg::default()));
    let next = Arc::new(AtomicU64::new(cfg.first));
    let end = cfg.first + cfg.cases;
    let stop = Arc::new(AtomicBool::new(false));
    let live = Arc::new(AtomicU64::new(0));
    let spawn = {
        let (agg, next, stop, live) = (agg.clone(), next.clone(), stop.clone(), live.clone());
        let (ma, ml) = (cfg.max_allocs, cfg.max_live);
        move || {
            let slot = Arc::new(Slot {
                case: AtomicU64::new(u64::MAX),
                tid: AtomicU64::new(0),
                cpu_at_start: Mutex::new(0.0),
                dead: AtomicBool::new(false),
            });
            let (agg, next, stop, live, f, s2) =
                (agg.clone(), next.clone(), stop.clone(), live.clone(), f.clone(), slot.clone());
            live.fetch_add(1, Ordering::SeqCst);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let tid = my_tid();
                    s2.tid.store(tid, Ordering::SeqCst);
                    loop {
                        if stop.load(Ordering::SeqCst) || s2.dead.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= end {
                            break;
                        }
                        *s2.cpu_at_start.lock().unwrap() = -1.0;
                        s2.case.store(i, Ordering::SeqCst);
                        budget::begin(i, ma, ml);
                        let o = observed(&*f, i);
                        budget::end();
                        s2.case.store(u64::MAX, Ordering::SeqCst);
                        if s2.dead.load(Ordering::SeqCst) {
                            return;
                        }
                        let mut g = agg.lock().unwrap();
                        g.cases += 1;
                        g.evals += o.evals;
                        if let Some(h) = o.nontrivial {
                            g.nontrivial += 1;
                            g.distinct.insert(h);
                        }
                        for (k, n) in o.counters {
                            if let Some(k) = k.strip_prefix("max:") {
                                let e = g.maxima.entry(k.to_string()).or_default();
                                *e = e.max(n as f64);
                            } else {
                                *g.counters.entry(k.to_string()).or_default() += n;
                            }
                        }
                        if let Some(r) = o.inconclusive {
                            *g.inconclusive.entry(r).or_default() += 1;
                        }
                        for (sig, d) in o.violations {
                            g.n_violations += 1;
                            let known = is_known(&sig);
                            g.n_new += !known as usize;
                            if g.violations.len() < 2000 && !(known && g.violations.iter().any(|v| v.1 == sig)) {
                                g.violations.push((i, sig, d));
                            }
                        }
                        if let Some(s) = o.sample {
                            if g.samples.len() < 6 {
                                g.samples.push(s);
                            }
                        }
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
            slot
        }
    };
    let mut slots: Vec<Arc<Slot>> = (0..cfg.threads).map(|_| spawn()).collect();
    let t0 = Instant::now();
    let mut seen = 0usize;
    let mut tick = 0u64;
    loop {
        std::thread::sleep(Duration::from_millis(if tick < 20 { 5 } else { 50 }));
        tick += 1;
        // Budget exhaustion, reported by the allocator.
        let n = budget::N_RUNAWAY.load(Ordering::SeqCst) as usize;
        while seen < n.min(budget::RUNAWAY.len()) {
            let case = budget::RUNAWAY[seen].load(Ordering::SeqCst);
            if case == u64::MAX {
                break;
            }
            seen += 1;
            for s in slots.iter_mut() {
                if s.case.load(Ordering::SeqCst) == case && !s.dead.load(Ordering::SeqCst) {
                    s.dead.store(true, Ordering::SeqCst);
                    live.fetch_sub(1, Ordering::SeqCst);
                    agg.lock().unwrap().runaway.push((case, "allocation budget exhausted"));
                    if agg.lock().unwrap().runaway.len() < 8 {
                        *s = spawn();
                    }
                    break;
                }
            }
        }
        // CPU time of the current case.
        if tick % 10 == 0 {
            for s in slots.iter_mut() {
                let case = s.case.load(Ordering::SeqCst);
                if case == u64::MAX || s.dead.load(Ordering::SeqCst) {
                    continue;
                }
                let Some(cpu) = thread_cpu(s.tid.load(Ordering::SeqCst)) else { continue };
                let mut g = s.cpu_at_start.lock().unwrap();
                if *g < 0.0 {
                    *g = cpu;
                } else if cpu - *g > cfg.max_cpu && s.case.load(Ordering::SeqCst) == case {
                    drop(g);
                    s.dead.store(true, Ordering::SeqCst);
                    live.fetch_sub(1, Ordering::SeqCst);
                    agg.lock().unwrap().runaway.push((case, "CPU budget exhausted"));
                    if agg.lock().unwrap().runaway.len() < 8 {
                        *s = spawn();
                    }
                }
            }
        }
        if live.load(Ordering::SeqCst) == 0 {
            break;
        }
        if t0.elapsed() > cfg.wall {
            agg.lock().unwrap().timed_out = true;
            stop.store(true, Ordering::SeqCst);
            if t0.elapsed() > cfg.wall + Duration::from_secs(60) {
                break;
            }
        }
        if agg.lock().unwrap().n_new >= cfg.stop_after {
            stop.store(true, Ordering::SeqCst);
        }
    }
    let mut g = agg.lock().unwrap();
    std::mem::take(&mut *g)
}

/// A monitor that trips over something it never expected to see reports that.
fn observed(f: &dyn Fn(u64) -> Outcome, i: u64) -> Outcome {
    crate::crash::working_on(i);
    match crate::run::guarded(|| f(i)) {
        Ok(o) => o,
        Err(p) => {
            let mut o = Outcome { evals: 1, ..Outcome::default() };
            o.violate(format!("panic-{i}"), format!("panic while observing case {i} at {}: {}", p.loc, p.msg));
            o
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
