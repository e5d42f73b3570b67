//! Trees of up to hundreds of thousands of elements that grow and shrink in many ways. A flat copy of such a
//! sequence is too slow to keep; instead every element carries a key, the keys ascend along the tree, and
//! the number of elements is known. Observed after every operation: the height, the steps it took, the total,
//! the elements it reports; every now and then searches, neighbours, comparisons and the summaries before a cursor.
use crate::engine::{guarded, height_limit, Finding, Log, Stats};
use crate::rng::Rng;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, LengthFinder, PreviousCache, UseLengthFinder};
use std::cell::Cell;
use std::ops::Range;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
}
fn step(n: usize) {
    STEPS.with(|s| s.set(s.get() + n as u64))
}
#[derive(Debug, Clone)]
struct K {
    key: u128,
    len: u8,
}
impl HasLength for K {
    fn rle_len(&self) -> usize {
        self.len as usize
    }
}
impl Sliceable for K {
    fn _slice(&self, r: Range<usize>) -> Self {
        K { key: self.key, len: r.len() as u8 }
    }
}
impl Mergeable for K {
    fn can_merge(&self, _: &Self) -> bool {
        false
    }
    fn merge_right(&mut self, _: &Self) {}
    fn merge_left(&mut self, _: &Self) {}
}
impl TryInsert for K {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for K {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}
#[derive(Debug)]
struct T<const DIFF: bool>;
impl<const X: bool> BTreeTrait for T<X> {
    type Elem = K;
    type Cache = i64;
    type CacheDiff = isize;
    const USE_DIFF: bool = X;
    fn calc_cache_internal(cache: &mut i64, c: &[Child<Self>]) -> isize {
        step(c.len());
        let n: i64 = c.iter().map(|c| *c.cache()).sum();
        let d = n - *cache;
        *cache = n;
        d as isize
    }
    fn apply_cache_diff(c: &mut i64, d: &isize) {
        step(1);
        *c += *d as i64
    }
    fn merge_cache_diff(a: &mut isize, b: &isize) {
        step(1);
        *a += b
    }
    fn get_elem_cache(e: &K) -> i64 {
        step(1);
        e.len as i64
    }
    fn new_cache_to_diff(c: &i64) -> isize {
        *c as isize
    }
    fn sub_cache(a: &i64, b: &i64) -> isize {
        (a - b) as isize
    }
}
impl<const X: bool> UseLengthFinder<T<X>> for T<X> {
    fn get_len(c: &i64) -> usize {
        step(1);
        *c as usize
    }
}
type Tr<const X: bool> = BTree<T<X>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Front,
    Back,
    Ends,
    Random,
    Hot,
    /// every few elements, over and over
    Sweep(usize),
    SweepBack(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Insert,
    Remove,
    UpdateLeaf,
    UpdateBySearch,
    Drain(usize),
    /// length of the range, percentage of the elements that go
    Update(usize, usize),
}
const FIRST: u128 = 1 << 127;
const GAP: u128 = 1 << 64;

struct Big<const X: bool> {
    t: Tr<X>,
    n: usize,
    hot: f64,
    at: usize,
    rng: Rng,
}
type Res = Result<(), (&'static str, String)>;
macro_rules! need {
    ($c:expr, $p:expr, $($a:tt)*) => { if !$c { return Err(($p, format!($($a)*))); } };
}
impl<const X: bool> Big<X> {
    fn place(&mut self, w: Where) -> usize {
        let n = self.n;
        if n == 0 {
            return 0;
        }
        match w {
            Where::Front => 0,
            Where::Back => n - 1,
            Where::Ends => if self.rng.chance(1, 2) { 0 } else { n - 1 },
            Where::Random => self.rng.below(n),
            Where::Hot => ((self.hot * n as f64) as usize + self.rng.below(20)).min(n - 1),
            Where::Sweep(k) => {
                self.at += k;
                if self.at >= n {
                    self.at = self.rng.below(k.min(n));
                }
                self.at
            }
            Where::SweepBack(k) => {
                if self.at < k + 1 || self.at >= n {
                    self.at = n - 1 - self.rng.below(k.min(n));
                } else {
                    self.at -= k + 1;
                }
                self.at
            }
        }
    }
    fn find(&self, p: usize) -> Result<Cursor, (&'static str, String)> {
        let Some(r) = self.t.query::<LengthFinder>(&p) else { return Err(("C05", format!("search for {p} of {} finds nothing", self.n))) };
        need!(r.found == (p < self.n), "C05", "search for {p} of {} reports found={}", self.n, r.found);
        need!(r.cursor.offset == (p == self.n) as usize, "C05", "search for {p} of {} gives offset {}", self.n, r.cursor.offset);
        Ok(r.cursor)
    }
    fn key(&self, c: Cursor) -> Result<u128, (&'static str, String)> {
        match self.t.get_elem(c.leaf) {
            Some(e) => Ok(e.key),
            None => Err(("C06", format!("no element at {c:?}"))),
        }
    }
    fn op(&mut self, how: How, w: Where) -> Res {
        let p = self.place(w);
        match how {
            How::Insert => {
                if self.n == 0 {
                    let c = self.t.push(K { key: FIRST, len: 1 });
                    need!(self.key(c)? == FIRST, "C19", "push reports another element");
                    self.n = 1;
                    return Ok(());
                }
                // before the element at p, or at the end
                let p = if w == Where::Back || w == Where::Ends && p > 0 || self.rng.chance(1, self.n + 1) { self.n } else { p };
                let c = self.find(p)?;
                let (lo, hi) = if p == self.n {
                    let k = self.key(c)?;
                    (k, k + 2 * GAP)
                } else {
                    let k = self.key(c)?;
                    match self.t.prev_elem(c) {
                        Some(q) => (self.key(q)?, k),
                        None => {
                            need!(p == 0, "C13", "element {p} has no previous one");
                            (k - 2 * GAP, k)
                        }
                    }
                };
                need!(lo < hi, "C13", "keys around position {p} are {lo} and {hi}");
                if hi - lo < 2 {
                    self.hot = self.rng.below(1000) as f64 / 1000.0;
                    return Ok(());
                }
                let key = lo + (hi - lo) / 2;
                let e = K { key, len: 1 };
                STEPS.with(|s| s.set(0));
                let got = match self.rng.below(4) {
                    0 if p == self.n => self.t.push(e),
                    1 if p == 0 => self.t.prepend(e),
                    2 => self.t.insert::<LengthFinder>(&p, e).0,
                    _ => self.t.insert_by_path(c, e).0,
                };
                self.n += 1;
                need!(got.offset == 0 && self.key(got)? == key, "C19", "insertion at {p} reports {got:?}, which is another element");
            }
            _ if self.n == 0 => {}
            How::Remove => {
                let c = self.find(p)?;
                let k = self.key(c)?;
                STEPS.with(|s| s.set(0));
                let e = self.t.remove_leaf(c);
                self.n -= 1;
                need!(e.as_ref().map(|e| e.key) == Some(k), "C01", "remove_leaf gives {e:?}, not the element with key {k}");
                need!(self.t.get_elem(c.leaf).is_none(), "C06", "the handle of the removed element is still valid");
            }
            How::UpdateLeaf => {
                let c = self.find(p)?;
                STEPS.with(|s| s.set(0));
                let r = self.t.update_leaf(c.leaf, |e| {
                    e.len = 0;
                    (true, None, None)
                });
                self.n -= 1;
                need!(!r.0 && self.t.get_elem(c.leaf).is_none(), "C09", "an emptied element is still there");
            }
            How::UpdateBySearch => {
                STEPS.with(|s| s.set(0));
                self.t.update_leaf_by_search::<LengthFinder>(&p, |e, _| {
                    e.len = 0;
                    Some((-1, None, None))
                });
                self.n -= 1;
            }
            How::Drain(len) => {
                let q = (p + self.rng.range(0, len)).min(self.n);
                let take = self.rng.range(0, q - p + 1);
                let mut d = self.t.drain_by_query::<LengthFinder>(p..q);
                let mut last = 0;
                for i in 0..take {
                    match d.next() {
                        Some(e) => {
                            need!(e.key > last && i < q - p, "C07", "item {i} of a drain of {p}..{q} has key {} after {last}", e.key);
                            last = e.key;
                        }
                        None => {
                            need!(i == q - p, "C07", "a drain of {p}..{q} yields {i} items");
                            break;
                        }
                    }
                }
                drop(d);
                self.n -= q - p;
            }
            How::Update(len, pct) => {
                let q = (p + self.rng.range(1, len)).min(self.n);
                let (a, b) = (self.find(p)?, self.find(q)?);
                let (mut gone, mut seen, mut last, mut order) = (0, 0, 0, true);
                let mut r = self.rng.clone();
                self.t.update(a..b, &mut |e| {
                    seen += 1;
                    order &= e.key > last;
                    last = e.key;
                    if r.below(100) < pct {
                        gone += 1;
                        e.len = 0;
                        return Some(-1);
                    }
                    None
                });
                self.rng = r;
                self.n -= gone;
                need!(seen == q - p && order, "C08", "an update of {p}..{q} visits {seen} elements, in order: {order}");
            }
        }
        Ok(())
    }
    fn look(&mut self) -> Res {
        let n = self.n;
        let p = self.rng.below(n);
        let c = self.find(p)?;
        let k = self.key(c)?;
        let q = if self.rng.chance(1, 2) { self.rng.below(n) } else { (p + self.rng.below(30)).min(n - 1) };
        let d = self.find(q)?;
        let got = self.t.compare_pos(c, d);
        need!(got == p.cmp(&q), "C14", "elements {p} and {q} of {n} compare as {got:?}");
        need!(self.key(d)?.cmp(&k) == q.cmp(&p), "C01", "the keys of elements {p} and {q} are out of order");
        match self.t.next_elem(c) {
            Some(x) => {
                need!(p + 1 < n && self.t.prev_elem(x) == Some(Cursor { leaf: c.leaf, offset: 0 }) && self.key(x)? > k, "C13", "the element after element {p} of {n} is wrong");
                if q > p {
                    need!(self.key(x)? <= self.key(d)?, "C13", "the element after element {p} of {n} comes after element {q}");
                }
            }
            None => need!(p + 1 == n, "C13", "no element after element {p} of {n}"),
        }
        let (mut sum, mut uses) = (0i64, 0usize);
        self.t.visit_previous_caches(c, |x| match x {
            PreviousCache::NodeCache(c) => {
                sum += c;
                uses += 1;
            }
            PreviousCache::PrevSiblingElem(e) => {
                sum += e.len as i64;
                uses += 1;
            }
            PreviousCache::ThisElemAndOffset { .. } => {}
        });
        let most = 12 * (height_limit(n) + 1);
        need!(sum == p as i64 && uses <= most, "C15", "{uses} summaries before element {p} of {n}, their sum is {sum}");
        Ok(())
    }
}

fn history<const X: bool>(mut rng: Rng, max: usize, st: &mut Stats, log: &mut Log) -> Option<Finding> {
    let n0 = rng.range(max / 4, max);
    let mut b = Big::<X> { t: BTree::new(), n: 0, hot: 0.5, at: 0, rng: Rng::new(rng.u64()) };
    let mut trail = vec![];
    let collect = rng.chance(1, 3);
    if collect {
        b.t = (0..n0).map(|i| K { key: FIRST + (i as u128 + 1) * GAP, len: 1 }).collect();
        b.n = n0;
        trail.push(format!("collect {n0}"));
        st.op("from_iter");
    }
    let wheres = |rng: &mut Rng| *rng.pick(&[Where::Front, Where::Back, Where::Ends, Where::Random, Where::Random, Where::Hot, Where::Sweep(1), Where::Sweep(3), Where::Sweep(9), Where::SweepBack(1), Where::SweepBack(7)]);
    let mut target = n0;
    let mut ops = 0usize;
    let mut at_height = (0, 0);
    let cap = 6 * max + 1000;
    let mut bad: Option<(&'static str, String)> = None;
    let mut newest = "C12";
    'all: for phase in 0..8 {
        let grow = b.n < target;
        let w = wheres(&mut rng);
        let mut hows = vec![];
        for _ in 0..rng.range(1, 2) {
            hows.push(match rng.below(if grow { 1 } else { 8 }) {
                _ if grow => How::Insert,
                0..=3 => How::Remove,
                4 => How::UpdateLeaf,
                5 => if X { How::UpdateBySearch } else { How::UpdateLeaf },
                6 => How::Drain(*rng.pick(&[2, 8, 40, 40, 300])),
                _ => How::Update(*rng.pick(&[2, 8, 40, 150]), *rng.pick(&[5, 50, 90, 100])),
            });
        }
        // some against the tide
        let back = *rng.pick(&[0, 0, 0, 5, 30]);
        trail.push(format!("{} -> {target} {w:?} {hows:?} {back}% otherwise", b.n));
        while (b.n < target) == grow && b.n != target && ops < cap {
            ops += 1;
            let how = if rng.below(100) < back { if grow { How::Remove } else { How::Insert } } else { *rng.pick(&hows) };
            if rng.chance(1, 2000) {
                b.hot = rng.below(1000) as f64 / 1000.0;
            }
            let n = b.n;
            newest = match how {
                How::Insert | How::Remove => "C01",
                How::UpdateLeaf | How::UpdateBySearch => "C09",
                How::Drain(_) => "C07",
                How::Update(..) => "C08",
            };
            STEPS.with(|s| s.set(0));
            let r = guarded(|| b.op(how, w)).unwrap_or_else(|m| Err(("C01", format!("panic: {m}"))));
            let steps = STEPS.with(|s| s.get());
            st.op(match how {
                How::Insert => "insert_by_path",
                How::Remove => "remove_leaf",
                How::UpdateLeaf => "update_leaf",
                How::UpdateBySearch => "update_leaf_by_search",
                How::Drain(_) => "drain",
                How::Update(..) => "update",
            });
            st.states += 1;
            if let Err(e) = r {
                bad = Some((e.0, format!("{how:?} {w:?}: {}", e.1)));
                break 'all;
            }
            let d = b.t.depth();
            if (d, b.n / 8) != at_height {
                at_height = (d, b.n / 8);
                st.cases.insert(crate::rng::mix(d as u64, b.n as u64));
            }
            // (where a drain or an update ends, the height may take one element more)
            if d > height_limit(b.n) {
                bad = Some(("C04", format!("after {how:?} {w:?}: height {d} with {} elements, limit {}", b.n, height_limit(b.n))));
                break 'all;
            }
            if !matches!(how, How::Drain(_) | How::Update(..)) {
                let lim = 120 * (d as u64 + 2);
                st.work_max("steps/level", steps / d.max(1) as u64);
                if steps > lim {
                    bad = Some(("C04", format!("{how:?} {w:?}: {steps} callback steps in a tree of {n} elements and {d} levels; limit {lim}")));
                    break 'all;
                }
            }
            if *b.t.root_cache() != b.n as i64 {
                bad = Some(("C02", format!("after {how:?} {w:?}: the summary of the whole is {} with {} elements", b.t.root_cache(), b.n)));
                break 'all;
            }
            if b.n > 0 && rng.chance(1, 24) {
                st.read("look into a large tree");
                if let Err(e) = guarded(|| b.look()).unwrap_or_else(|m| Err(("C01", format!("panic: {m}")))) {
                    bad = Some((e.0, format!("after {how:?} {w:?}: {}", e.1)));
                    break 'all;
                }
            }
        }
        st.work_max("elements of a large tree", b.n as u64);
        st.max_depth = st.max_depth.max(b.t.depth() as u64);
        if ops >= cap {
            break;
        }
        // down to few, and up again
        target = match phase % 2 {
            0 => *rng.pick(&[0, 1, 3, b.n / 100, b.n / 30, b.n / 10, b.n / 2]),
            _ => rng.range(b.n, max / 2 + b.n),
        };
    }
    if bad.is_none() {
        let (mut n, mut last, mut order) = (0, 0, true);
        for e in b.t.iter() {
            n += 1;
            order &= e.key > last;
            last = e.key;
        }
        st.read("full iteration of a large tree");
        if n != b.n || !order {
            bad = Some(("C01", format!("{n} elements, in order: {order}; expected {}", b.n)));
        }
    }
    st.max_leaves = st.max_leaves.max(n0 as u64);
    log.push(format!("large tree (diff={X}), {ops} operations: {}", trail.join("; ")));
    let (p, m) = bad?;
    std::mem::forget(b);
    Some(Finding { tags: if p == "C04" || p == newest { vec![p] } else { vec![p, newest] }, msg: m })
}

pub fn run(mut rng: Rng, tier: usize) -> (Vec<Finding>, Stats, Vec<String>) {
    let mut st = Stats { histories: 1, ..Stats::default() };
    let mut log = Log::default();
    let max = match rng.below(if tier == 1 { 12 } else { 10 }) {
        0..=3 => 400,
        4..=6 => 3000,
        7 | 8 => 12_000,
        9 if cfg!(debug_assertions) => 20_000,
        9 => 120_000,
        _ => 300_000,
    };
    let f = if rng.chance(2, 3) { history::<true>(rng, max, &mut st, &mut log) } else { history::<false>(rng, max, &mut st, &mut log) };
    (f.into_iter().collect(), st, log.0)
}
