//! The default slicing helpers, on element types that provide nothing but `_slice`.
use crate::engine::*;
use crate::rng::Rng;
use generic_btree::rle::{HasLength, Sliceable};
use std::ops::{Bound, Range};

/// a run of numbered units; records the ranges it was asked for
#[derive(Debug, Clone, PartialEq)]
struct Units(Vec<u32>);
impl HasLength for Units {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for Units {
    fn _slice(&self, r: Range<usize>) -> Self {
        if r.start > r.end || r.end > self.0.len() {
            panic!("CONTRACT: _slice({r:?}) of an element of length {}", self.0.len());
        }
        Units(self.0[r].to_vec())
    }
}
/// run-length encoded: start and length only
#[derive(Debug, Clone, PartialEq)]
struct Run {
    start: u32,
    len: usize,
    mark: u32,
}
impl HasLength for Run {
    fn rle_len(&self) -> usize {
        self.len
    }
}
impl Sliceable for Run {
    fn _slice(&self, r: Range<usize>) -> Self {
        if r.start > r.end || r.end > self.len {
            panic!("CONTRACT: _slice({r:?}) of an element of length {}", self.len);
        }
        Run { start: self.start + r.start as u32, len: r.end - r.start, mark: self.mark }
    }
}
/// provides its own `split` (as recommended) and nothing else
#[derive(Debug, Clone, PartialEq)]
struct OwnSplit(Vec<u32>);
impl HasLength for OwnSplit {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for OwnSplit {
    fn _slice(&self, r: Range<usize>) -> Self {
        if r.start > r.end || r.end > self.0.len() {
            panic!("CONTRACT: _slice({r:?}) of an element of length {}", self.0.len());
        }
        OwnSplit(self.0[r].to_vec())
    }
    fn split(&mut self, pos: usize) -> Self {
        if pos > self.0.len() {
            panic!("CONTRACT: split({pos}) of an element of length {}", self.0.len());
        }
        OwnSplit(self.0.split_off(pos))
    }
}
trait El: Sliceable + Clone + PartialEq + std::fmt::Debug {
    fn mk(start: u32, len: usize) -> Self;
    /// (unit, mark)
    fn units(&self) -> Vec<(u32, u32)>;
    fn touch(&mut self);
}
impl El for Units {
    fn mk(start: u32, len: usize) -> Self {
        Units((0..len as u32).map(|i| start + i).collect())
    }
    fn units(&self) -> Vec<(u32, u32)> {
        self.0.iter().map(|&x| (x & 0xffffff, x >> 24)).collect()
    }
    fn touch(&mut self) {
        self.0.iter_mut().for_each(|x| *x += 1 << 24)
    }
}
impl El for OwnSplit {
    fn mk(start: u32, len: usize) -> Self {
        OwnSplit((0..len as u32).map(|i| start + i).collect())
    }
    fn units(&self) -> Vec<(u32, u32)> {
        self.0.iter().map(|&x| (x & 0xffffff, x >> 24)).collect()
    }
    fn touch(&mut self) {
        self.0.iter_mut().for_each(|x| *x += 1 << 24)
    }
}
impl El for Run {
    fn mk(start: u32, len: usize) -> Self {
        Run { start, len, mark: 0 }
    }
    fn units(&self) -> Vec<(u32, u32)> {
        (0..self.len as u32).map(|i| (self.start + i, self.mark)).collect()
    }
    fn touch(&mut self) {
        self.mark += 1
    }
}

pub fn run(mut rng: Rng) -> (Vec<Finding>, Stats, Vec<String>) {
    crate::elem::arm_budget(u64::MAX);
    match rng.below(3) {
        0 => go::<Units>(rng, "list of units"),
        1 => go::<Run>(rng, "run-length element"),
        _ => go::<OwnSplit>(rng, "list of units with its own split"),
    }
}

fn go<E: El>(mut rng: Rng, name: &str) -> (Vec<Finding>, Stats, Vec<String>) {
    let mut st = Stats { histories: 1, ..Default::default() };
    let mut fs: Vec<Finding> = vec![];
    let mut log = vec![format!("slicing helpers on a {name}")];
    let n = if rng.chance(1, 3) { rng.range(0, 3) } else { rng.range(0, 40) };
    let first = rng.below(1000) as u32;
    // every pair of bounds when the element is short, a sample otherwise
    let mut cases: Vec<(Bound<usize>, Bound<usize>)> = vec![];
    let bounds = |upper: bool| -> Vec<Bound<usize>> {
        let mut v = vec![Bound::Unbounded];
        for x in 0..=n {
            v.push(Bound::Excluded(x));
            v.push(Bound::Included(x));
        }
        if upper {
            v.retain(|b| !matches!(b, Bound::Included(x) if *x >= n));
        } else {
            v.retain(|b| !matches!(b, Bound::Excluded(x) if *x >= n));
        }
        v
    };
    let (ls, hs) = (bounds(false), bounds(true));
    for a in &ls {
        for b in &hs {
            if n <= 6 || rng.chance(40, ls.len() * hs.len()) {
                cases.push((*a, *b));
            }
        }
    }
    for (a, b) in cases {
        let lo = match a {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match b {
            Bound::Included(x) => x + 1,
            Bound::Excluded(x) => x,
            Bound::Unbounded => n,
        };
        let e = E::mk(first, n);
        let all = e.units();
        st.states += 1;
        st.max_leaves = st.max_leaves.max(n as u64);
        st.cases.insert(crate::rng::mix((lo * 1000 + hi) as u64, n as u64 + 7919 * kind(&a) + 104729 * kind(&b)));
        log.truncate(1);
        log.push(format!("element of length {n}, range ({a:?}, {b:?})"));
        let mut bad = |m: String| fs.push(Finding { tags: vec!["C23"], msg: format!("{name} of length {n}, range ({a:?}, {b:?}): {m}") });
        if lo <= hi {
            st.op("slice");
            match guarded(|| e.slice((a, b))) {
                Ok(s) if s.units() == all[lo..hi] && s.rle_len() == hi - lo => {}
                Ok(s) => bad(format!("slice gives {:?}", s.units())),
                Err(m) => bad(format!("slice panicked: {m}")),
            }
            st.op("slice_");
            let mut x = e.clone();
            match guarded(|| x.slice_((a, b))) {
                Ok(()) if x.units() == all[lo..hi] => {}
                Ok(()) => bad(format!("slice_ leaves {:?}", x.units())),
                Err(m) => bad(format!("slice_ panicked: {m}")),
            }
        }
        if lo == 0 || matches!(a, Bound::Unbounded) {
            st.op("split");
            let mut x = e.clone();
            match guarded(|| x.split(hi)) {
                Ok(r) if x.units() == all[..hi] && r.units() == all[hi..] => {}
                Ok(r) => bad(format!("split({hi}) gives {:?} and {:?}", x.units(), r.units())),
                Err(m) => bad(format!("split({hi}) panicked: {m}")),
            }
        }
        st.op("update_with_split");
        let mut x = e.clone();
        let mut seen: Vec<Vec<(u32, u32)>> = vec![];
        let r = guarded(|| {
            x.update_with_split((a, b), |p| {
                seen.push(p.units());
                p.touch();
            })
        });
        match r {
            Err(m) => bad(format!("update_with_split panicked: {m}")),
            Ok((m, r)) => {
                if lo >= hi {
                    st.read("empty sub-range");
                    if !seen.is_empty() || m.is_some() || r.is_some() || x != e {
                        bad(format!("update_with_split of an empty range: updater ran {} times, parts {m:?} {r:?}, element {x:?}", seen.len()));
                    }
                } else {
                    st.read(match (lo == 0, hi == n) {
                        (true, true) => "whole element",
                        (true, false) => "left part",
                        (false, true) => "right part",
                        _ => "middle part",
                    });
                    if seen != vec![all[lo..hi].to_vec()] {
                        bad(format!("the updater saw {seen:?}"));
                    }
                    let mut got = x.units();
                    let parts = [m, r];
                    let empties = parts.iter().flatten().filter(|p| p.rle_len() == 0).count();
                    for p in parts.iter().flatten() {
                        got.extend(p.units());
                    }
                    let want: Vec<(u32, u32)> = all.iter().enumerate().map(|(i, u)| (u.0, if i >= lo && i < hi { 1 } else { 0 })).collect();
                    if got != want {
                        bad(format!("update_with_split leaves {:?} + {:?}", x.units(), parts));
                    }
                    if empties > 0 || (x.rle_len() == 0 && n > 0) {
                        bad(format!("update_with_split made an empty part: {x:?} {parts:?}"));
                    }
                    let k = parts.iter().flatten().count();
                    let want = (lo > 0) as usize + (hi < n) as usize;
                    if k != want {
                        bad(format!("update_with_split returned {k} parts, expected {want}"));
                    }
                }
            }
        }
        if !fs.is_empty() {
            break;
        }
    }
    (fs, st, log)
}

fn kind(b: &Bound<usize>) -> u64 {
    match b {
        Bound::Included(_) => 0,
        Bound::Excluded(_) => 1,
        Bound::Unbounded => 2,
    }
}
