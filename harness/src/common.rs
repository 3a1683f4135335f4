//! Shared helpers of the monitors of boolean operations.
use crate::{driver::*, gen, oracle, rng::Rng, run, sample};
use linesweeper::topology::Contours;
use linesweeper::*;

pub const OPS: [BinaryOp; 4] = [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor];
pub const RULES: [FillRule; 2] = [FillRule::EvenOdd, FillRule::NonZero];

/// All tolerances are this multiple of eps (see DESIGN.md for the measurements behind it).
pub const K: f64 = 20.0;

pub fn fill(r: FillRule, w: i32) -> bool {
    match r {
        FillRule::EvenOdd => w % 2 != 0,
        FillRule::NonZero => w != 0,
    }
}

pub fn expect(op: BinaryOp, a: bool, b: bool) -> bool {
    match op {
        BinaryOp::Union => a || b,
        BinaryOp::Intersection => a && b,
        BinaryOp::Difference => a && !b,
        BinaryOp::Xor => a != b,
    }
}

pub fn boolop(c: &gen::Case, rule: FillRule, op: BinaryOp) -> Result<Contours, Error> {
    match c.eps {
        Some(e) => binary_op_with_eps(&c.a, &c.b, rule, op, e),
        None => binary_op(&c.a, &c.b, rule, op),
    }
}

/// Run an operation under observation; a panic or an error is recorded as a violation.
pub fn observe(c: &gen::Case, rule: FillRule, op: BinaryOp, o: &mut Outcome) -> Option<Contours> {
    match run::guarded(|| boolop(c, rule, op)) {
        Err(p) => {
            o.violate(sig(c, rule, op), format!("panic at {}: {} | {op:?} {rule:?} {}", p.loc, p.msg, c.describe()));
            None
        }
        Ok(Err(e)) => {
            o.violate(sig(c, rule, op), format!("valid input refused: {e:?} | {op:?} {rule:?} {}", c.describe()));
            None
        }
        Ok(Ok(r)) => Some(r),
    }
}

/// The signature of a failing case: it identifies the exact input.
pub fn sig(c: &gen::Case, rule: FillRule, op: BinaryOp) -> String {
    format!("{op:?}-{rule:?}-{:016x}", hash_str(&c.describe()))
}

pub fn out_curves(out: &Contours) -> oracle::Curves {
    let mut oc = oracle::Curves::default();
    for x in out.contours() {
        oc.extend(&x.path);
    }
    oc
}

/// Does the case have any sample where the input regions overlap or are nonempty?
pub fn interesting(ss: &[sample::Sample]) -> bool {
    ss.iter().any(|s| s.w.iter().any(|w| *w != 0))
}

pub fn case_rng(seed: u64, check: u64, i: u64) -> Rng {
    Rng::new(seed, 1000 + check, i)
}

/// Everything observable about a result, bit-exact.
pub fn digest(out: &Contours) -> u64 {
    let mut h = Fnv::new();
    for c in out.contours() {
        h.add(0xc0);
        h.add(c.parent.map_or(u64::MAX, |p| p.0 as u64));
        h.add(c.outer as u64);
        for e in c.path.elements() {
            h.add(match e {
                kurbo::PathEl::MoveTo(_) => 1,
                kurbo::PathEl::LineTo(_) => 2,
                kurbo::PathEl::QuadTo(..) => 3,
                kurbo::PathEl::CurveTo(..) => 4,
                kurbo::PathEl::ClosePath => 5,
            });
            for p in gen::el_points(e) {
                h.add(p.x.to_bits());
                h.add(p.y.to_bits());
            }
        }
    }
    h.0
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
    pub fn add(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
    }
}

/// The subpaths of a path (each starts with a `MoveTo`).
pub fn subpaths(p: &kurbo::BezPath) -> Vec<Vec<kurbo::PathEl>> {
    let mut out: Vec<Vec<kurbo::PathEl>> = vec![];
    for e in p.elements() {
        if matches!(e, kurbo::PathEl::MoveTo(_)) || out.is_empty() {
            out.push(vec![]);
        }
        out.last_mut().unwrap().push(*e);
    }
    out
}

pub fn join(s: &[Vec<kurbo::PathEl>]) -> kurbo::BezPath {
    s.iter().flatten().copied().collect()
}

/// Approximate length of the curves (length of the control polygons).
pub fn length(c: &oracle::Curves) -> f64 {
    c.segs.iter().map(|s| s.p0.distance(s.p1) + s.p1.distance(s.p2) + s.p2.distance(s.p3)).sum()
}
