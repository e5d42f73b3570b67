//! C26: what a tree, an ordered map or a rope occupies follows what it holds (at most), not what was done to it.
//! Nothing here but the structure under test allocates while a history runs (the harness's own buffers are
//! reserved beforehand), so that the level of this thread's allocations is the size of the structure at every moment.
use crate::engine::{guarded, Finding, Log, Stats};
use crate::leak::level;
use crate::rng::Rng;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, LeafIndex, LeafNode, LengthFinder, Node, OrdTreeMap, Rope, UseLengthFinder};
use std::cell::Cell;
use std::mem::size_of;
use std::ops::Range;

thread_local! {
    static CAP: Cell<u32> = const { Cell::new(0) };
}
/// a run of `n` units
#[derive(Debug, Clone, Copy)]
struct Run {
    n: u32,
    v: u32,
}
impl HasLength for Run {
    fn rle_len(&self) -> usize {
        self.n as usize
    }
}
impl Sliceable for Run {
    fn _slice(&self, r: Range<usize>) -> Self {
        Run { n: r.len() as u32, v: self.v }
    }
}
impl Mergeable for Run {
    fn can_merge(&self, r: &Self) -> bool {
        self.v == r.v && self.n + r.n <= CAP.with(|c| c.get())
    }
    fn merge_right(&mut self, r: &Self) {
        self.n += r.n
    }
    fn merge_left(&mut self, l: &Self) {
        self.n += l.n
    }
}
impl TryInsert for Run {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for Run {
    fn can_remove(&self) -> bool {
        self.n == 0
    }
}
#[derive(Debug)]
struct T<const DIFF: bool>;
impl<const X: bool> BTreeTrait for T<X> {
    type Elem = Run;
    type Cache = i64;
    type CacheDiff = isize;
    const USE_DIFF: bool = X;
    fn calc_cache_internal(cache: &mut i64, c: &[Child<Self>]) -> isize {
        let n: i64 = c.iter().map(|c| *c.cache()).sum();
        let d = n - *cache;
        *cache = n;
        d as isize
    }
    fn apply_cache_diff(c: &mut i64, d: &isize) {
        *c += *d as i64
    }
    fn merge_cache_diff(a: &mut isize, b: &isize) {
        *a += b
    }
    fn get_elem_cache(e: &Run) -> i64 {
        e.n as i64
    }
    fn new_cache_to_diff(c: &i64) -> isize {
        *c as isize
    }
    fn sub_cache(a: &i64, b: &i64) -> isize {
        (a - b) as isize
    }
}
impl<const X: bool> UseLengthFinder<T<X>> for T<X> {
    fn get_len(c: &i64) -> usize {
        *c as usize
    }
}

/// bytes of a growing array that never held more than `n` entries of this size (doubling, plus a little)
fn room(n: usize, entry: usize) -> i64 {
    (2 * (n + 6) * (entry + 16)) as i64 + 2000
}
const OPS: [&str; 13] = [
    "insert_by_path", "push", "prepend", "remove_leaf", "drain", "update", "update_leaf", "insert_many_by_cursor",
    "update_leaves_with_arg_in_ranges", "clone", "clear", "from_iter", "insert(query)",
];

struct Mem<const X: bool> {
    t: BTree<T<X>>,
    base: i64,
    /// most nodes that can have been in use at one time
    inner: usize,
    leaves: usize,
    at: (usize, usize),
    most: i64,
    thin: usize,
}
impl<const X: bool> Mem<X> {
    /// (inner nodes, leaves) in use
    fn count(&self) -> (usize, usize) {
        let n = self.t.node_len();
        if self.t.is_empty() {
            return (1, n - 1);
        }
        // every node but the root is the child of an inner node
        let inner = ((n - 1) as f64 / self.t.internal_avg_children_num()).round() as usize;
        (inner, n - inner)
    }
    fn settle(&mut self, given: usize) -> Option<String> {
        let (i, l) = self.count();
        self.leaves = self.leaves.max(l).max(self.at.1 + given + 2);
        self.inner = self.inner.max(i).max(self.at.0 + given / 4 + 12);
        self.at = (i, l);
        let held = level().0 - self.base;
        let limit = room(self.inner.min(self.leaves / 3 + 8), size_of::<Node<T<X>>>()) + room(self.leaves, size_of::<LeafNode<Run>>());
        self.most = self.most.max(held * 1000 / limit);
        self.thin = self.thin.max(i * 1000 / (l + 10));
        (held > limit).then(|| {
            format!("the tree holds {l} elements in {i} inner nodes (most so far: {} and {}) and occupies {held} bytes; limit {limit}", self.leaves, self.inner)
        })
    }
}

fn tree<const X: bool>(rng: &mut Rng, n_ops: usize, st: &mut Stats, log: &mut Log) -> Option<String> {
    let b0 = level().0;
    let e: BTree<T<X>> = BTree::new();
    let empty = level().0 - b0;
    drop(e);
    CAP.with(|c| c.set(*rng.pick(&[0, 0, 4, 30, 1000])));
    // the size it keeps coming back to
    let target = *rng.pick(&[0, 3, 12, 40, 150, 600, 1500]);
    let values = *rng.pick(&[1, 2, 50]) as usize;
    let mut w = [12, 4, 4, 10, 4, 5, 6, 2, 3, 1, 1, 1, 4];
    for x in w.iter_mut() {
        if rng.chance(1, 4) {
            *x = 0;
        }
    }
    w[0] += 2;
    w[3] += 1;
    log.push(format!("tree: diff={X} target={target} values={values} merging to {} weights {w:?}", CAP.with(|c| c.get())));
    let mut trail: Vec<u8> = Vec::with_capacity(n_ops);
    let mut hs: [LeafIndex; 0] = [];
    let _ = &mut hs;
    let base = level().0;
    let mut m = Mem::<X> { t: BTree::new(), base, inner: 1, leaves: 0, at: (1, 0), most: 0, thin: 0 };
    let mut bad = None;
    for _ in 0..n_ops {
        let one = |rng: &mut Rng| Run { n: rng.range(1, 6) as u32, v: rng.below(values) as u32 };
        let total = *m.t.root_cache() as usize;
        let big = m.at.1 > target;
        let mut k = rng.weighted(&w);
        if big && matches!(k, 0 | 1 | 2 | 7 | 12) && rng.chance(4, 5) {
            k = *rng.pick(&[3, 3, 4, 6]);
        }
        if !big && k == 4 && rng.chance(3, 4) {
            k = 1;
        }
        if total == 0 && !matches!(k, 1 | 2 | 4 | 9 | 10 | 11 | 12) {
            k = 1;
        }
        trail.push(k as u8);
        st.op(OPS[k]);
        let p = rng.range(0, total);
        let find = |t: &BTree<T<X>>, p: usize| t.query::<LengthFinder>(&p).unwrap().cursor;
        let mut given = 1;
        match k {
            0 => {
                let c = find(&m.t, p);
                m.t.insert_by_path(c, one(rng));
            }
            1 => {
                m.t.push(one(rng));
            }
            2 => {
                m.t.prepend(one(rng));
            }
            3 => {
                let c = find(&m.t, p);
                m.t.remove_leaf(c);
            }
            4 => {
                let q = if rng.chance(1, 6) { rng.range(0, total) } else { (p + rng.below(30)).min(total) };
                let take = rng.below(8);
                let mut d = m.t.drain_by_query::<LengthFinder>(p.min(q)..p.max(q));
                for _ in 0..take {
                    d.next();
                }
            }
            5 => {
                let q = if rng.chance(1, 6) { rng.range(0, total) } else { (p + rng.below(30)).min(total) };
                if p == q {
                    continue;
                }
                let (a, b) = (find(&m.t, p.min(q)), find(&m.t, p.max(q)));
                let mut r = rng.clone();
                let gone = *rng.pick(&[0, 0, 1, 5, 10]);
                m.t.update(a..b, &mut |e| {
                    e.v = r.below(values) as u32;
                    if r.below(10) < gone {
                        let n = e.n as isize;
                        e.n = 0;
                        return Some(-n);
                    }
                    Some(0)
                });
            }
            6 => {
                let c = find(&m.t, p);
                let x = one(rng);
                let y = one(rng);
                let how = rng.below(4);
                m.t.update_leaf(c.leaf, |e| match how {
                    0 => {
                        e.n = 0;
                        (true, None, None)
                    }
                    1 => {
                        e.n += 1;
                        (true, Some(x), None)
                    }
                    2 => (true, Some(x), Some(y)),
                    _ => {
                        e.n = 0;
                        (true, Some(x), Some(Run { n: 0, v: 0 }))
                    }
                });
                given = 2;
            }
            7 => {
                given = *rng.pick(&[2, 5, 13, 60, 200]);
                let c = find(&m.t, p);
                let mut r = rng.clone();
                let hint = rng.chance(1, 2);
                // an iterator that knows its length, or one that may have up to 50 times as many items as it does
                if hint {
                    m.t.insert_many_by_cursor(Some(c), (0..given).map(|_| one(&mut r)));
                } else {
                    m.t.insert_many_by_cursor(Some(c), (0..given * 50).filter(|i| i % 50 == 7).map(|_| one(&mut r)));
                }
            }
            8 => {
                let n = rng.range(1, 6);
                given = 2 * n;
                let mut args = Vec::with_capacity(n);
                for _ in 0..n {
                    let c = find(&m.t, rng.below(total));
                    let len = m.t.get_elem(c.leaf).unwrap().rle_len();
                    let a = rng.below(len);
                    args.push((c.leaf, a..rng.range(a + 1, len), rng.below(values) as u32));
                }
                m.t.update_leaves_with_arg_in_ranges(args, |e, v| e.v ^= v & 1);
            }
            9 => {
                let c = m.t.clone();
                if rng.chance(1, 2) {
                    m.t = c;
                }
            }
            10 => {
                m.t.clear();
                let held = level().0 - m.base;
                st.read("occupied bytes of a cleared tree");
                if held > 2 * empty + 64 {
                    bad = Some(format!("a cleared tree occupies {held} bytes, a new one {empty}"));
                    break;
                }
                m.inner = 1;
                m.leaves = 0;
                m.at = (1, 0);
            }
            11 => {
                given = if rng.chance(1, 3) { rng.range(0, 40) } else { target };
                let mut r = rng.clone();
                m.t = if rng.chance(1, 2) { (0..given).map(|_| one(&mut r)).collect() } else { (0..given * 50).filter(|i| i % 50 == 7).map(|_| one(&mut r)).collect() };
                m.inner = 1;
                m.leaves = 0;
                m.at = (1, 0);
            }
            _ => {
                m.t.insert::<LengthFinder>(&p, one(rng));
            }
        }
        st.states += 1;
        let f = m.settle(given);
        st.read("occupied bytes of a tree");
        st.cases.insert(crate::rng::mix((k * 1000 + m.at.0) as u64, (m.at.1 * 100_000) as u64 + (level().0 - m.base) as u64));
        if f.is_some() {
            bad = f;
            break;
        }
        // what a search leaves behind, too
        if rng.chance(1, 8) && !m.t.is_empty() {
            let c = m.t.start_cursor().unwrap();
            let _ = m.t.compare_pos(c, m.t.end_cursor().unwrap());
            m.t.visit_previous_caches(Cursor { leaf: c.leaf, offset: 0 }, |_| {});
        }
    }
    st.max_leaves = st.max_leaves.max(m.leaves as u64);
    st.work_max("bytes occupied", (level().0 - m.base) as u64);
    st.work_max("bytes per mille of the limit: tree", m.most as u64);
    st.work_max("inner nodes per mille of elements + 10", m.thin as u64);
    st.work_max("operations in one history", trail.len() as u64);
    if bad.is_some() {
        let k = trail.len().saturating_sub(40);
        log.push(format!("{} operations; the newest: {:?}", trail.len(), trail[k..].iter().map(|&k| OPS[k as usize]).collect::<Vec<_>>()));
        std::mem::forget(m);
        return bad;
    }
    drop(m);
    bad
}

fn map(rng: &mut Rng, n_ops: usize, st: &mut Stats, log: &mut Log) -> Option<String> {
    let keys = *rng.pick(&[3, 30, 200, 1500]);
    log.push(format!("map: {keys} keys"));
    let mut present = vec![false; keys];
    let base = level().0;
    let mut m: OrdTreeMap<u64, u64> = OrdTreeMap::new();
    let (mut n, mut peak) = (0usize, 0usize);
    let mut up = true;
    for i in 0..n_ops {
        if rng.chance(1, 200) {
            up = !up;
        }
        let k = rng.below(keys);
        if rng.chance(if up { 3 } else { 1 }, 4) {
            st.op("map insert");
            m.insert(k as u64, i as u64);
            n += !present[k] as usize;
            present[k] = true;
        } else {
            st.op("map delete");
            m.delete(&(k as u64));
            n -= present[k] as usize;
            present[k] = false;
        }
        peak = peak.max(n);
        st.states += 1;
        st.read("occupied bytes of a map");
        let held = level().0 - base;
        st.cases.insert(crate::rng::mix((keys * 10_000 + n) as u64, held as u64));
        // an inner node: at most 12 children of a handle and two keys
        let limit = (room(peak / 3 + 6, 12 * 56 + 48) + room(peak, 40)) * 3 / 5;
        st.work_max("bytes per mille of the limit: map", (held * 1000 / limit) as u64);
        if held > limit {
            std::mem::forget(m);
            return Some(format!("after {} operations a map of {n} entries (at most {peak}) occupies {held} bytes; limit {limit}", i + 1));
        }
    }
    st.work_max("bytes occupied", (level().0 - base) as u64);
    st.work_max("operations in one history", n_ops as u64);
    None
}

fn rope(rng: &mut Rng, n_ops: usize, st: &mut Stats, log: &mut Log) -> Option<String> {
    let target = *rng.pick(&[10, 100, 300, 3000, 20_000]);
    let text: String = "abcdefghij".repeat(300);
    log.push(format!("rope: around {target} bytes"));
    let b0 = level().0;
    drop(Rope::new());
    let e = Rope::new();
    let empty = level().0 - b0;
    drop(e);
    let base = level().0;
    let mut r = Rope::new();
    let (mut len, mut peak, mut pieces) = (0usize, 0usize, 0usize);
    let mut at = 0;
    let typing = rng.chance(1, 3);
    for i in 0..n_ops {
        if rng.chance(1, 6) && !typing {
            at = rng.range(0, len);
        }
        at = at.min(len);
        if typing && len < target * 4 || len < target && rng.chance(3, 4) || rng.chance(1, 3) {
            st.op("rope insert");
            let k = if typing || rng.chance(3, 4) { rng.range(1, 3) } else { rng.range(1, (target / 2).clamp(2, 2900)) };
            r.insert(at, &text[..k]);
            at += k;
            len += k;
            if !typing {
                pieces += k / 40 + 3;
            }
        } else if rng.chance(1, 150) {
            st.op("rope clear");
            if rng.chance(1, 2) {
                r.clear();
                let held = level().0 - base;
                st.read("occupied bytes of a cleared rope");
                if held > 2 * empty + 64 {
                    std::mem::forget(r);
                    return Some(format!("a cleared rope occupies {held} bytes, a new one {empty}"));
                }
                (peak, pieces) = (0, 0);
            } else {
                r.delete_range(..);
            }
            len = 0;
        } else {
            st.op("rope delete_range");
            let most = if rng.chance(1, 8) { target } else { 12 };
            let n = rng.range(0, most).min(len - at);
            r.delete_range(at..at + n);
            len -= n;
        }
        peak = peak.max(len);
        st.states += 1;
        st.read("occupied bytes of a rope");
        let held = level().0 - base;
        st.cases.insert(crate::rng::mix(len as u64 * 7 + typing as u64, held as u64));
        // one piece for every edited place at most, none of them empty; typed text fills its pieces
        let most = (if typing { peak / 16 + 4 } else { peak.min(pieces) }) + 2;
        let limit = (room(most, 176) + room(most / 3 + 6, 12 * 24 + 48)) * 2 / 5;
        st.work_max(if typing { "bytes per mille of the limit: typed rope" } else { "bytes per mille of the limit: rope" }, (held * 1000 / limit) as u64);
        if held > limit {
            std::mem::forget(r);
            return Some(format!("after {} edits a rope of {len} bytes (at most {peak}) occupies {held} bytes; limit {limit}", i + 1));
        }
    }
    st.work_max("bytes occupied", (level().0 - base) as u64);
    st.work_max("operations in one history", n_ops as u64);
    None
}

pub fn run(mut rng: Rng, tier: usize) -> (Vec<Finding>, Stats, Vec<String>) {
    let mut st = Stats { histories: 1, ..Stats::default() };
    let mut log = Log::default();
    let n = if rng.chance(1, 6) { rng.range(1500, 6000) } else { rng.range(100, 900) } * if tier == 1 { 2 } else { 1 };
    // the map of seen sizes grows: not inside what is measured
    st.cases.reserve(2 * n + 64);
    for k in OPS.iter().chain(["map insert", "map delete", "rope insert", "rope delete_range", "rope clear"].iter()) {
        st.ops.insert(k, 0);
    }
    for k in ["occupied bytes of a tree", "occupied bytes of a map", "occupied bytes of a rope", "occupied bytes of a cleared tree", "occupied bytes of a cleared rope"] {
        st.reads.insert(k, 0);
    }
    for k in ["bytes per mille of the limit: tree", "bytes per mille of the limit: typed rope", "bytes per mille of the limit: map", "bytes per mille of the limit: rope", "bytes occupied", "operations in one history", "inner nodes per mille of elements + 10"] {
        st.max_work.insert(k, 0);
    }
    let r = guarded(|| match rng.below(8) {
        0 => map(&mut rng, n, &mut st, &mut log),
        1 | 2 => rope(&mut rng, n, &mut st, &mut log),
        3..=5 => tree::<true>(&mut rng, n, &mut st, &mut log),
        _ => tree::<false>(&mut rng, n, &mut st, &mut log),
    });
    st.ops.retain(|_, v| *v > 0);
    st.reads.retain(|_, v| *v > 0);
    let findings = match r {
        Ok(None) => vec![],
        Ok(Some(m)) => vec![Finding { tags: vec!["C26"], msg: m }],
        Err(m) => vec![Finding { tags: vec!["C01"], msg: format!("panic: {m}") }],
    };
    (findings, st, log.0)
}
