//! C13: the sweep line's container behaves like a plain vector.
use super::*;
use crate::{driver::*, rng::Rng, run};
use linesweeper::treevec::TreeVec;
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// An element that is counted while it exists, and moved around but never copied.
#[derive(Debug)]
struct Item {
    id: u64,
    /// What is updated in place.
    val: u64,
}

impl Item {
    fn new(id: u64, val: u64) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Item { id, val }
    }
}

impl Clone for Item {
    fn clone(&self) -> Self {
        Item::new(self.id, self.val)
    }
}

impl Drop for Item {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

/// How positions are chosen.
#[derive(Clone, Copy, Debug)]
enum Skew {
    Front,
    Back,
    Anywhere,
    /// Near a fixed relative position.
    Near(f64),
    /// Around a position that wanders.
    Walk(usize, usize),
    /// Multiples of a stride, to hit every node alike.
    Stride(usize, usize),
}

impl Skew {
    fn new(r: &mut Rng) -> Skew {
        match r.below(7) {
            0 => Skew::Front,
            1 => Skew::Back,
            2 => Skew::Near(r.f()),
            3 => Skew::Walk(r.below(1000), 1 + r.below(5)),
            4 => Skew::Stride(r.below(1000), 1 + r.below(20)),
            _ => Skew::Anywhere,
        }
    }
    /// A position among `n > 0`.
    fn pos(&mut self, n: usize, r: &mut Rng) -> usize {
        match self {
            Skew::Front => r.below(2.min(n)),
            Skew::Back => n - 1 - r.below(2.min(n)),
            Skew::Anywhere => r.below(n),
            Skew::Near(f) => ((*f * n as f64) as usize + r.below(3)).min(n - 1),
            Skew::Walk(p, w) => {
                *p = (*p + r.below(2 * *w + 1) + n - (*w).min(n)) % n;
                *p
            }
            Skew::Stride(p, d) => {
                *p = (*p + *d) % n;
                *p
            }
        }
    }
}

struct Hist<const B: usize> {
    t: TreeVec<Item, B>,
    model: Vec<(u64, u64)>,
    next: u64,
    evals: u64,
    /// Fingerprint of everything observed.
    seen: u64,
}

macro_rules! ensure {
    ($h:expr, $a:expr, $b:expr, $($m:tt)*) => {{
        $h.evals += 1;
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: {a:?} instead of {b:?}", format!($($m)*)));
        }
    }};
}

fn key(i: &Item) -> (u64, u64) {
    (i.id, i.val)
}

impl<const B: usize> Hist<B> {
    fn insert(&mut self, p: usize, r: &mut Rng) -> Result<(), String> {
        let (id, val) = (self.next, r.u64() % 1000);
        self.next += 1;
        self.t.insert(p, Item::new(id, val));
        self.model.insert(p, (id, val));
        self.point(p)
    }

    fn remove(&mut self, p: usize) -> Result<(), String> {
        let got = self.t.remove(p);
        let want = self.model.remove(p);
        ensure!(self, key(&got), want, "remove({p}) with {} left", self.model.len());
        self.point(p)
    }

    /// What is cheap to look at after every step.
    fn point(&mut self, p: usize) -> Result<(), String> {
        let n = self.model.len();
        ensure!(self, self.t.len(), n, "len()");
        ensure!(self, self.t.is_empty(), n == 0, "is_empty()");
        for q in [p.wrapping_sub(1), p, p + 1, 0, n.wrapping_sub(1), n] {
            ensure!(self, self.t.get(q).map(key), self.model.get(q).copied(), "get({q}) of {n}");
        }
        self.seen = (self.seen ^ p as u64).wrapping_mul(0x100000001b3) ^ n as u64;
        Ok(())
    }

    fn update(&mut self, p: usize, r: &mut Rng) -> Result<(), String> {
        let v = r.u64() % 1000;
        ensure!(self, self.t.get_mut(p).map(|i| key(i)), self.model.get(p).copied(), "get_mut({p})");
        if r.chance(0.5) {
            if let Some(x) = self.t.get_mut(p) {
                x.val = v;
            }
        } else {
            self.t[p].val = v;
        }
        self.model[p].1 = v;
        ensure!(self, key(&self.t[p]), self.model[p], "[{p}] after an update");
        ensure!(self, self.t.get_mut(self.model.len()).is_none(), true, "get_mut(len)");
        self.point(p)
    }

    fn ranges(&mut self, r: &mut Rng) -> Result<(), String> {
        let n = self.model.len();
        let (mut a, mut b) = (r.below(n + 1), r.below(n + 1));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        match r.below(8) {
            0 => b = a,
            1 => b = n,
            2 => a = 0,
            3 => (a, b) = (n, n),
            4 => b = (a + 1).min(n),
            _ => {}
        }
        let want = self.model[a..b].to_vec();
        ensure!(self, self.t.range(a..b).map(key).collect::<Vec<_>>(), want, "range({a}..{b}) of {n}");
        if b > a {
            ensure!(self, self.t.range(a..=b - 1).map(key).collect::<Vec<_>>(), want, "range({a}..={}) of {n}", b - 1);
        }
        ensure!(self, self.t.range(..b).map(key).collect::<Vec<_>>(), self.model[..b].to_vec(), "range(..{b}) of {n}");
        ensure!(self, self.t.range(a..).map(key).collect::<Vec<_>>(), self.model[a..].to_vec(), "range({a}..) of {n}");
        if a > 0 {
            use std::ops::Bound::*;
            let got: Vec<_> = self.t.range((Excluded(a - 1), Excluded(b))).map(key).collect();
            ensure!(self, got, want, "range(({}, {b})) of {n}", a - 1);
        }
        // An exhausted iterator stays exhausted.
        let mut it = self.t.range(a..b);
        it.by_ref().for_each(drop);
        let extra = it.next().map(key);
        ensure!(self, extra, None, "after range({a}..{b}) of {n}");
        Ok(())
    }

    fn range_mut(&mut self, r: &mut Rng) -> Result<(), String> {
        let n = self.model.len();
        let a = r.below(n + 1);
        let b = a + r.below((n - a).min(40) + 1);
        let add = 1 + r.u64() % 7;
        let mut got = vec![];
        for x in self.t.range_mut(a..b) {
            got.push(key(x));
            x.val += add;
        }
        ensure!(self, got, self.model[a..b].to_vec(), "range_mut({a}..{b}) of {n}");
        for m in &mut self.model[a..b] {
            m.1 += add;
        }
        for p in [a.wrapping_sub(1), a, b.wrapping_sub(1), b] {
            ensure!(self, self.t.get(p).map(key), self.model.get(p).copied(), "get({p}) after range_mut({a}..{b})");
        }
        Ok(())
    }

    fn partition(&mut self, r: &mut Rng) -> Result<(), String> {
        let n = self.model.len();
        // Sorted: there is exactly one answer.
        let p = if r.chance(0.2) { *r.pick(&[0, n]) } else { r.below(n + 1) };
        let firsts: std::collections::HashSet<u64> = self.model[..p].iter().map(|m| m.0).collect();
        let mut calls = 0u64;
        let got = self.t.partition_point(|x| {
            calls += 1;
            firsts.contains(&x.id)
        });
        ensure!(self, got, p, "partition_point, sorted, {n} elements");
        // Not sorted: true just before, false there.
        let (m, k) = (2 + r.u64() % 5, r.u64() % 4);
        let pred = |v: (u64, u64)| (v.0 ^ v.1) % m > k;
        let got = self.t.partition_point(|x| pred(key(x)));
        let ok = got <= n && (got == n || !pred(self.model[got])) && (got == 0 || pred(self.model[got - 1]));
        ensure!(self, ok, true, "partition_point = {got}, not sorted, {n} elements");
        Ok(())
    }

    fn whole(&mut self, r: &mut Rng) -> Result<(), String> {
        self.t.check_invariants();
        ensure!(self, self.t.iter().map(key).collect::<Vec<_>>(), self.model, "iter()");
        let add = r.u64() % 5;
        let mut got = vec![];
        for x in self.t.iter_mut() {
            got.push(key(x));
            x.val += add;
        }
        ensure!(self, got, self.model, "iter_mut()");
        for m in &mut self.model {
            m.1 += add;
        }
        for p in 0..self.model.len() {
            ensure!(self, self.t.get(p).map(key), Some(self.model[p]), "get({p})");
        }
        ensure!(self, LIVE.with(|l| l.get()), self.model.len() as i64, "elements in existence");
        Ok(())
    }
}

fn depth(s: &str) -> u64 {
    let (mut d, mut best) = (0, 0);
    let b = s.as_bytes();
    let mut i = 0;
    let mut open = vec![];
    while i < b.len() {
        match b[i] {
            b'{' => {
                let internal = s[..i].ends_with("Internal ");
                d += internal as u64;
                open.push(internal);
                best = best.max(d);
            }
            b'}' => d -= open.pop().unwrap_or(false) as u64,
            _ => {}
        }
        i += 1;
    }
    best
}

fn history<const B: usize>(r: &mut Rng, steps: usize, o: &mut Outcome, log: &mut String) -> Result<u64, String> {
    LIVE.with(|l| l.set(0));
    let mut h: Hist<B> = Hist { t: TreeVec::new(), model: vec![], next: 0, evals: 0, seen: B as u64 };
    if r.chance(0.3) {
        // Start from a collected one.
        let n = r.below(200);
        h.model = (0..n as u64).map(|i| (i, i * 7 % 1000)).collect();
        h.t = h.model.iter().map(|(i, v)| Item::new(*i, *v)).collect();
        h.next = n as u64;
        h.whole(r)?;
    }
    let mut done = 0;
    let mut most = 0;
    let mut spare: Option<(TreeVec<Item, B>, Vec<(u64, u64)>)> = None;
    let mut spare_len = 0i64;
    while done < steps {
        let mut ins = Skew::new(r);
        let mut del = if r.chance(0.3) { ins } else { Skew::new(r) };
        // The probability of growing.
        let grow = *r.pick(&[1.0, 0.95, 0.7, 0.5, 0.5, 0.3, 0.05, 0.0]);
        let len = 1 + r.below(*r.clone().pick(&[10, 60, 400]));
        *log = format!("after {done} steps, {} elements: {len} steps at {ins:?} / {del:?}, growing with {grow}", h.model.len());
        for _ in 0..len {
            done += 1;
            let n = h.model.len();
            if n > 0 && r.chance(0.15) {
                let p = ins.pos(n, r);
                h.update(p, r)?;
            } else if n == 0 || r.chance(grow) {
                let p = ins.pos(n + 1, r);
                h.insert(p, r)?;
            } else {
                let p = del.pos(n, r);
                h.remove(p)?;
            }
            if n < 60 || r.chance(0.05) {
                h.t.check_invariants();
            }
            if r.chance(0.1) {
                h.ranges(r)?;
                h.range_mut(r)?;
                h.partition(r)?;
            }
            most = most.max(h.model.len());
        }
        if spare.is_none() {
            h.whole(r)?;
        }
        // A clone is independent of the original.
        match spare.take() {
            None if r.chance(0.15) => {
                spare_len = h.model.len() as i64;
                spare = Some((h.t.clone(), h.model.clone()));
            }
            None => {}
            Some((t, m)) => {
                h.evals += 1;
                t.check_invariants();
                if t.iter().map(key).collect::<Vec<_>>() != m || t.len() != m.len() {
                    return Err("a clone changed with its original".into());
                }
                let live = LIVE.with(|l| l.get());
                if live != h.model.len() as i64 + spare_len {
                    return Err(format!("{live} elements exist instead of {} + {spare_len}", h.model.len()));
                }
                if r.chance(0.5) {
                    h.t = t;
                    h.model = m;
                } else {
                    drop(t);
                }
                h.whole(r)?;
            }
        }
        if h.model.is_empty() {
            o.count("emptied", 1);
        }
    }
    drop(spare);
    h.whole(r)?;
    o.count("max:depth", depth(&format!("{:?}", h.t)));
    o.count("max:elements", most as u64);
    // Take it apart completely.
    if r.chance(0.5) {
        let mut sk = Skew::new(r);
        *log = format!("removing everything at {sk:?}");
        while !h.model.is_empty() {
            let n = h.model.len();
            h.remove(sk.pos(n, r))?;
            if n < 200 {
                h.t.check_invariants();
            }
        }
        h.whole(r)?;
        o.count("emptied", 1);
    }
    let Hist { t, evals, seen, .. } = h;
    drop(t);
    o.evals += evals + 1;
    if LIVE.with(|l| l.get()) != 0 {
        return Err("elements exist after the container is gone".into());
    }
    o.count("steps", done as u64);
    Ok(seen)
}

fn one(i: u64, r: &mut Rng, o: &mut Outcome, log: &mut String) -> Result<u64, String> {
    let steps = if i % 50 == 49 { 40_000 } else { 2500 };
    match i % 12 {
        0 | 1 | 2 => history::<4>(r, steps, o, log),
        3 | 4 => history::<5>(r, steps, o, log),
        5 => history::<6>(r, steps, o, log),
        6 => history::<7>(r, steps, o, log),
        7 | 8 => history::<8>(r, steps, o, log),
        9 => history::<9>(r, steps, o, log),
        10 => history::<16>(r, steps, o, log),
        // What the sweep line uses.
        _ => history::<128>(r, steps, o, log),
    }
}

fn describe(seed: u64, i: u64) -> String {
    format!("history {i} of seed {seed}, branching factor {}", [4, 4, 4, 5, 5, 6, 7, 8, 8, 9, 16, 128][(i % 12) as usize])
}

pub fn run(ctx: &Ctx) -> Report {
    let seed = ctx.seed;
    let agg = crate::driver::run(ctx.config(2400, 120_000), move |i| {
        let mut o = Outcome::default();
        let mut r = Rng::new(seed, 13, i);
        let mut log = String::new();
        let res = run::guarded(|| one(i, &mut r, &mut o, &mut log));
        o.evals += 1;
        match res {
            Ok(Ok(h)) => o.nontrivial = Some(h),
            Ok(Err(m)) => o.violate(format!("differs-{:016x}", hash_str(&describe(seed, i))), format!("{m} | {}, {log}", describe(seed, i))),
            Err(p) => o.violate(format!("panic-{:016x}", hash_str(&describe(seed, i))), format!("panic at {}: {} | {}, {log}", p.loc, p.msg, describe(seed, i))),
        }
        if i % 997 == 5 {
            o.sample = Some(describe(seed, i));
        }
        o
    });
    Report {
        agg,
        rule: "Histories of 2500 to 40000 insertions, removals, in-place updates, range queries and partition points, in phases whose positions are skewed (front, back, wandering, strided, clustered, uniform) and which grow, shrink or hover, for branching factors 4 to 9, 16 and 128; also collecting, cloning and taking apart. After every step the lengths and the elements around the position (and past the end) are compared with a plain vector, regularly everything is, through every iterator; elements are counted as they come into and go out of existence; the container's own invariant check runs after every step of small and regularly on large ones. An evaluation is one comparison. Non-trivial: every completed history.".into(),
        assumptions: vec!["std's Vec".into()],
        runaway_is_violation: true,
        describe: Box::new(move |i| describe(seed, i)),
    }
}
