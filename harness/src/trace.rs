//! Records everything a sweep reports, in terms of plain numbers.
use linesweeper::sweep::{SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::{SegIdx, Segments};

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub seg: usize,
    pub x0: f64,
    pub x1: f64,
    pub above: bool,
    pub below: bool,
    pub new_idx: Option<usize>,
    pub old_idx: Option<usize>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Range {
    /// The segments of the interval just above and just below this height.
    pub old: Vec<usize>,
    pub new: Vec<usize>,
    /// The batches of events, with the position at which each was reported.
    pub batches: Vec<(f64, Vec<Ev>)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Step {
    pub y: f64,
    /// The segments on the line at this height, in their new order, including
    /// those that exit here.
    pub order: Vec<usize>,
    pub ranges: Vec<Range>,
}

pub struct Names(Vec<SegIdx>);

impl Names {
    pub fn new(s: &Segments) -> Self {
        let mut v: Vec<SegIdx> = s.indices().collect();
        v.sort();
        Names(v)
    }
    pub fn of(&self, i: SegIdx) -> usize {
        self.0.binary_search(&i).expect("unknown segment")
    }
    pub fn idx(&self, i: usize) -> SegIdx {
        self.0[i]
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

#[derive(Default)]
pub struct Bufs {
    line: SweepLineBuffers,
    range: SweepLineRangeBuffers,
}

/// Sweeps over the segments; `f` sees every step as it happens.
pub fn sweep(segs: &Segments, names: &Names, eps: f64, bufs: &mut Bufs, f: impl FnMut(Step)) {
    sweep_partly(segs, names, eps, bufs, || usize::MAX, f)
}

/// Like `sweep`, but leaves each range after as many batches of events as `take` says.
pub fn sweep_partly(
    segs: &Segments,
    names: &Names,
    eps: f64,
    bufs: &mut Bufs,
    mut take: impl FnMut() -> usize,
    mut f: impl FnMut(Step),
) {
    let mut st = Sweeper::new(segs, eps);
    while let Some(mut line) = st.next_line(&mut bufs.line) {
        let mut s = Step { y: line.y(), ..Step::default() };
        let mut i = 0;
        while let Some(x) = line.line_segment(i) {
            s.order.push(names.of(x));
            i += 1;
        }
        while let Some(mut r) = line.next_range(&mut bufs.range, segs) {
            let mut rec = Range {
                old: r.old_segment_range().map(|x| names.of(x)).collect(),
                new: r.segment_range().map(|x| names.of(x)).collect(),
                batches: vec![],
            };
            let mut left = take();
            while let Some(x) = r.x() {
                if left == 0 {
                    break;
                }
                left -= 1;
                let Some(evs) = r.events() else { break };
                rec.batches.push((
                    x,
                    evs.into_iter()
                        .map(|e| Ev {
                            seg: names.of(e.seg_idx),
                            x0: e.x0,
                            x1: e.x1,
                            above: e.connected_above,
                            below: e.connected_below,
                            new_idx: e.sweep_idx,
                            old_idx: e.old_sweep_idx,
                        })
                        .collect(),
                ));
            }
            s.ranges.push(rec);
        }
        f(s);
    }
}
