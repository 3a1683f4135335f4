//! The computed arrangement in plain terms, and the winding numbers it implies.
use crate::oracle;
use kurbo::{BezPath, CubicBez, Point};
use linesweeper::topology::{HalfOutputSegIdx, OutputSegIdx, Topology, WindingNumber};
use std::collections::{BTreeMap, HashMap};

pub struct Piece<W> {
    pub idx: OutputSegIdx,
    pub top: Point,
    pub bot: Point,
    pub path: BezPath,
    pub copied: Option<usize>,
    pub segs: Vec<CubicBez>,
    /// Winding numbers to the left and to the right when running from `top` to `bot`
    /// in a drawing whose y axis points down.
    pub left: W,
    pub right: W,
}

pub struct Arr<W> {
    pub pieces: Vec<Piece<W>>,
    pub curves: Vec<oracle::Curves>,
}

fn pt<W: WindingNumber>(t: &Topology<W>, h: HalfOutputSegIdx) -> Point {
    let p = t.point(h);
    Point::new(p.x, p.y)
}

impl<W: WindingNumber> Arr<W> {
    pub fn new(t: &Topology<W>) -> Self {
        let pos = t.compute_positions();
        let mut pieces = vec![];
        let mut curves = vec![];
        for i in t.segment_indices() {
            let p = &pos[i];
            let h = i.first_half();
            let c = oracle::Curves::new(&p.path);
            pieces.push(Piece {
                idx: i,
                top: pt(t, h),
                bot: pt(t, i.second_half()),
                segs: c.segs.clone(),
                path: p.path.clone(),
                copied: p.copied_idx,
                left: t.winding_counter_clockwise(h).clone(),
                right: t.winding_clockwise(h).clone(),
            });
            curves.push(c);
        }
        Arr { pieces, curves }
    }
}

/// How often each winding number is implied at a point: exactly one of them
/// should be there once, all others not at all.
pub type Formal<W> = HashMap<W, i32>;

impl<W: WindingNumber + std::hash::Hash> Arr<W> {
    /// Walk from far west to `p`, following what the pieces on the way say about their two sides.
    pub fn formal(&self, p: Point) -> Formal<W> {
        let mut f: Formal<W> = HashMap::new();
        *f.entry(W::default()).or_default() += 1;
        for (piece, c) in self.pieces.iter().zip(&self.curves) {
            // +1 for each part that runs downwards and has `p` to its east, -1 for upwards.
            let n = c.winding(p);
            if n != 0 {
                *f.entry(piece.left.clone()).or_default() += n;
                *f.entry(piece.right.clone()).or_default() -= n;
            }
        }
        f.retain(|_, n| *n != 0);
        f
    }

    /// Around each vertex, the sides facing each other must agree. Returns a failing vertex.
    pub fn unbalanced_vertex(&self) -> Option<(Point, Formal<W>)> {
        let mut m: BTreeMap<(u64, u64), Formal<W>> = BTreeMap::new();
        for q in &self.pieces {
            for (p, s) in [(q.top, 1), (q.bot, -1)] {
                let f = m.entry(((p.x + 0.0).to_bits(), (p.y + 0.0).to_bits())).or_default();
                *f.entry(q.left.clone()).or_default() += s;
                *f.entry(q.right.clone()).or_default() -= s;
            }
        }
        for ((x, y), mut f) in m {
            f.retain(|_, n| *n != 0);
            if !f.is_empty() {
                return Some((Point::new(f64::from_bits(x), f64::from_bits(y)), f));
            }
        }
        None
    }
}

/// Does the walk say exactly `w`?
pub fn says<W: WindingNumber + std::hash::Hash>(f: &Formal<W>, w: &W) -> bool {
    f.len() == 1 && f.get(w) == Some(&1)
}
