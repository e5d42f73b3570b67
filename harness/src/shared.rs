//! C27: structures handed from thread to thread, read by several threads at once, and changed in
//! several threads side by side. The oracle is the same work done by one thread alone: every answer
//! and every result has to be the same. The callbacks (and every read) take a ticket and sometimes
//! give the processor away, so that the threads meet in many orders; the orders met are counted.
use crate::engine::*;
use crate::rng::{mix, Rng};
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, LeafIndex, LengthFinder, OrdTreeMap, OrdTreeSet, PreviousCache, Rope, UseLengthFinder};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Barrier};

// ---------------------------------------------------------------- meeting in many orders

struct Meet {
    clock: *const AtomicU64,
    rng: Rng,
    mine: Vec<u64>,
}
thread_local! {
    static MEET: RefCell<Option<Meet>> = const { RefCell::new(None) };
}
/// called by the callbacks; does nothing in a thread that is not being watched
fn ticket() {
    let wait = MEET.with(|m| {
        let mut m = m.borrow_mut();
        let Some(m) = m.as_mut() else { return 0 };
        // Relaxed on purpose: the ticket must not order what the threads do
        m.mine.push(unsafe { &*m.clock }.fetch_add(1, Ordering::Relaxed));
        match m.rng.below(48) {
            0 => 1,
            1..=3 => 2 + m.rng.below(if cfg!(miri) { 3 } else { 300 }),
            _ => 0,
        }
    });
    match wait {
        0 => {}
        1 => std::thread::yield_now(),
        n => (0..n).for_each(|_| std::hint::spin_loop()),
    }
}
fn watch<R>(clock: &AtomicU64, seed: u64, f: impl FnOnce() -> R) -> (R, Vec<u64>) {
    MEET.with(|m| *m.borrow_mut() = Some(Meet { clock, rng: Rng::new(seed), mine: Vec::with_capacity(256) }));
    let r = f();
    let m = MEET.with(|m| m.borrow_mut().take()).unwrap();
    (r, m.mine)
}
/// hash of the order in which the threads took their tickets, and how often it changed hands
fn order(lists: &[Vec<u64>]) -> (u64, u64) {
    let mut all: Vec<(u64, usize)> = vec![];
    for (i, l) in lists.iter().enumerate() {
        all.extend(l.iter().map(|t| (*t, i)));
    }
    all.sort_unstable();
    let (mut h, mut switches) = (0u64, 0);
    for w in all.windows(2) {
        if w[0].1 != w[1].1 {
            switches += 1;
            h = mix(h, mix(w[1].0, w[1].1 as u64));
        }
    }
    (h, switches)
}

// ---------------------------------------------------------------- what is shared

struct IsSend<T>(PhantomData<T>);
trait NotSend {
    const YES: bool = false;
}
impl<T> NotSend for IsSend<T> {}
impl<T: Send> IsSend<T> {
    const YES: bool = true;
}
struct IsSync<T>(PhantomData<T>);
trait NotSync {
    const YES: bool = false;
}
impl<T> NotSync for IsSync<T> {}
impl<T: Sync> IsSync<T> {
    const YES: bool = true;
}

/// only used when the type inside is `Send` and `Sync` (checked first): the harness has to compile in any case
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}

#[derive(Debug, Clone)]
struct Run(Vec<u32>);
impl HasLength for Run {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for Run {
    fn _slice(&self, r: std::ops::Range<usize>) -> Self {
        ticket();
        Run(self.0[r].to_vec())
    }
}
impl Mergeable for Run {
    fn can_merge(&self, r: &Self) -> bool {
        ticket();
        self.0.len() + r.0.len() < 5
    }
    fn merge_right(&mut self, r: &Self) {
        self.0.extend(&r.0)
    }
    fn merge_left(&mut self, l: &Self) {
        self.0.splice(0..0, l.0.iter().copied());
    }
}
impl TryInsert for Run {
    fn try_insert(&mut self, p: usize, e: Self) -> Result<(), Self> {
        if self.0.len() + e.0.len() > 3 {
            return Err(e);
        }
        self.0.splice(p..p, e.0);
        Ok(())
    }
}
impl CanRemove for Run {
    fn can_remove(&self) -> bool {
        self.0.is_empty()
    }
}
#[derive(Debug, Clone, Default)]
struct D(i64);
impl CanRemove for D {
    fn can_remove(&self) -> bool {
        self.0 == 0
    }
}
#[derive(Debug)]
struct T<const DIFF: bool>;
impl<const X: bool> UseLengthFinder<T<X>> for T<X> {
    fn get_len(c: &i64) -> usize {
        ticket();
        *c as usize
    }
}
impl<const X: bool> BTreeTrait for T<X> {
    type Elem = Run;
    type Cache = i64;
    type CacheDiff = D;
    const USE_DIFF: bool = X;
    fn calc_cache_internal(cache: &mut i64, c: &[Child<Self>]) -> D {
        ticket();
        let n: i64 = c.iter().map(|c| *c.cache()).sum();
        let d = n - *cache;
        *cache = n;
        D(d)
    }
    fn apply_cache_diff(c: &mut i64, d: &D) {
        ticket();
        *c += d.0;
    }
    fn merge_cache_diff(a: &mut D, b: &D) {
        a.0 += b.0;
    }
    fn get_elem_cache(e: &Run) -> i64 {
        ticket();
        e.0.len() as i64
    }
    fn new_cache_to_diff(c: &i64) -> D {
        D(*c)
    }
    fn sub_cache(a: &i64, b: &i64) -> D {
        D(a - b)
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct Key(u32);
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        ticket();
        self.0.cmp(&o.0)
    }
}

fn hs(h: u64, s: &str) -> u64 {
    s.bytes().fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01B3))
}
fn hv(h: u64, v: &[u32]) -> u64 {
    v.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23))
}
fn hleaf(l: Option<LeafIndex>) -> u64 {
    l.map_or(7, |l| hs(3, &format!("{l:?}")))
}

type Ask = (usize, usize, usize);
trait Subject {
    const NAME: &'static str;
    const KINDS: [&'static str; 12];
    const AUTO: (bool, bool);
    fn fresh() -> Self;
    /// one random modification; the hash of what it returned
    fn step(&mut self, rng: &mut Rng, st: &mut u32) -> u64;
    /// hash of the content, and the number of units
    fn content(&self) -> (u64, usize);
    fn handles(&self) -> Vec<LeafIndex> {
        vec![]
    }
    /// the answer to one question
    fn read(&self, q: Ask, hd: &[LeafIndex]) -> u64;
    fn copy(&self) -> Option<Self>
    where
        Self: Sized;
}

struct Tree<const X: bool>(BTree<T<X>>);
fn run(rng: &mut Rng, id: &mut u32) -> Run {
    let n = if rng.chance(1, 8) { 9 } else { rng.range(1, 3) };
    *id += n as u32;
    Run((*id - n as u32..*id).collect())
}
impl<const X: bool> Tree<X> {
    fn at(&self, pos: usize) -> Option<Cursor> {
        self.0.query::<LengthFinder>(&pos).map(|q| q.cursor())
    }
}
macro_rules! tree_subject {
    ($x:literal, $name:literal) => {
        impl Subject for Tree<$x> {
            const NAME: &'static str = $name;
            const KINDS: [&'static str; 12] = ["search", "iteration", "range iteration", "neighbours", "comparison", "preceding summaries", "totals", "ends", "filtered traversal", "copying", "element", "shift and range"];
            const AUTO: (bool, bool) = (IsSend::<BTree<T<$x>>>::YES, IsSync::<BTree<T<$x>>>::YES);
            fn fresh() -> Self {
                Tree(BTree::new())
            }
            fn step(&mut self, rng: &mut Rng, id: &mut u32) -> u64 {
                let t = &mut self.0;
                let total = *t.root_cache() as usize;
                let pos = match rng.below(6) {
                    0 => 0,
                    1 => total,
                    _ => rng.range(0, total),
                };
                if total == 0 {
                    t.push(run(rng, id));
                    return 1;
                }
                match rng.below(15) {
                    0..=2 => {
                        t.insert::<LengthFinder>(&pos, run(rng, id));
                        2
                    }
                    3 | 4 => {
                        let c = t.query::<LengthFinder>(&pos).unwrap().cursor();
                        t.insert_by_path(c, run(rng, id));
                        3
                    }
                    5 => {
                        t.push(run(rng, id));
                        4
                    }
                    6 => {
                        t.prepend(run(rng, id));
                        5
                    }
                    7 | 8 => {
                        let c = t.query::<LengthFinder>(&pos.min(total - 1)).unwrap().cursor();
                        t.remove_leaf(c).map_or(6, |e| hv(6, &e.0))
                    }
                    9 | 10 => {
                        let most = if rng.chance(1, 8) { total } else { 12 };
                        let hi = (pos + rng.range(0, most)).min(total);
                        if hi == pos {
                            return 7;
                        }
                        let r = t.range::<LengthFinder>(pos..hi).unwrap();
                        let take = rng.range(0, 20);
                        let mut h = 7;
                        for e in t.drain(r).take(take) {
                            h = hv(h, &e.0);
                        }
                        h
                    }
                    11 => {
                        let hi = (pos + rng.range(1, 30)).min(total);
                        if hi == pos {
                            return 8;
                        }
                        let r = t.range::<LengthFinder>(pos..hi).unwrap();
                        let mut h = 8;
                        t.update(r.start.cursor..r.end.cursor, &mut |e| {
                            h = hv(h, &e.0);
                            e.0.iter_mut().for_each(|u| *u ^= 1 << 31);
                            None
                        });
                        h
                    }
                    12 => {
                        let c = t.query::<LengthFinder>(&pos.min(total - 1)).unwrap().cursor();
                        let empty = rng.chance(1, 2);
                        let mut h = 9;
                        t.update_leaf(c.leaf, |e| {
                            h = hv(h, &e.0);
                            if empty {
                                e.0.clear();
                            } else {
                                e.0.reverse();
                            }
                            (true, None, None)
                        });
                        h
                    }
                    13 => {
                        let c = t.query::<LengthFinder>(&pos).unwrap().cursor();
                        let n = rng.range(1, 30);
                        let v: Vec<Run> = (0..n).map(|_| run(rng, id)).collect();
                        t.insert_many_by_cursor(Some(c), v.into_iter());
                        10
                    }
                    _ => {
                        if rng.chance(1, 6) {
                            t.clear();
                            11
                        } else {
                            let c = t.clone();
                            *t = c;
                            12
                        }
                    }
                }
            }
            fn content(&self) -> (u64, usize) {
                let (mut h, mut n) = (1, 0);
                for e in self.0.iter() {
                    h = hv(h, &e.0);
                    n += e.0.len();
                }
                (h, n)
            }
            fn handles(&self) -> Vec<LeafIndex> {
                let mut v = vec![];
                let mut c = self.0.start_cursor();
                while let Some(x) = c {
                    v.push(x.leaf);
                    c = self.0.next_elem(x);
                }
                v
            }
            fn read(&self, (k, a, b): Ask, hd: &[LeafIndex]) -> u64 {
                let t = &self.0;
                let total = *t.root_cache() as usize;
                let (p, q) = (a % (total + 1), b % (total + 1));
                let (p, q) = (p.min(q), p.max(q));
                let leaf = |i: usize| Cursor { leaf: hd[i % hd.len()], offset: 0 };
                match k {
                    0 => {
                        let (r, f) = t.query_with_finder_return::<LengthFinder>(&(a % (total + 1)));
                        let _ = f;
                        r.map_or(1, |r| hs(0, &format!("{r:?}")) ^ hv(0, &t.get_elem(r.leaf()).unwrap().0))
                    }
                    1 => self.content().0,
                    2 => {
                        let (Some(x), Some(y)) = (self.at(p), self.at(q)) else { return 2 };
                        let mut h = 2;
                        for s in t.iter_range(x..y) {
                            h = hv(h, &s.elem.0);
                            h = hs(h, &format!("{:?} {:?}", s.start, s.end));
                        }
                        h
                    }
                    3 if !hd.is_empty() => hleaf(t.next_elem(leaf(a)).map(|c| c.leaf)) ^ hleaf(t.prev_elem(leaf(b)).map(|c| c.leaf)).rotate_left(9),
                    4 if !hd.is_empty() => t.compare_pos(leaf(a), leaf(b)) as i8 as u64,
                    5 if !hd.is_empty() => {
                        let mut h = 5u64;
                        t.visit_previous_caches(leaf(a), |c| match c {
                            PreviousCache::NodeCache(n) => h = h.wrapping_mul(31).wrapping_add(*n as u64),
                            PreviousCache::PrevSiblingElem(e) => h = hv(h, &e.0),
                            PreviousCache::ThisElemAndOffset { elem, offset } => h = hv(h, &elem.0) ^ offset as u64,
                        });
                        h
                    }
                    6 => hs(6, &format!("{} {} {} {}", t.root_cache(), t.is_empty(), t.depth(), t.node_len())),
                    7 => hleaf(t.first_leaf()) ^ hleaf(t.last_leaf()).rotate_left(9),
                    8 => {
                        let mut h = 8;
                        for (r, e) in t.iter_with_filter(|c| (*c as usize % 7 != a % 7, 1usize)) {
                            h = hv(h, &e.0) ^ r as u64;
                        }
                        h
                    }
                    9 => {
                        let c = t.clone();
                        let mut h = 9;
                        for e in c.iter() {
                            h = hv(h, &e.0);
                        }
                        h ^ *c.root_cache() as u64
                    }
                    10 if !hd.is_empty() => hv(10, &t.get_elem(hd[a % hd.len()]).unwrap().0),
                    11 if !hd.is_empty() => {
                        let c = t.shift_path_by_one_offset(leaf(a));
                        let r = t.range::<LengthFinder>(p..q);
                        hs(11, &format!("{c:?} {r:?} {:?} {:?}", t.prefer_left(leaf(b)), t.prefer_right(leaf(b))))
                    }
                    _ => 0,
                }
            }
            fn copy(&self) -> Option<Self> {
                Some(Tree(self.0.clone()))
            }
        }
    };
}
tree_subject!(true, "tree (differences)");
tree_subject!(false, "tree (recomputed)");

struct Text(Rope);
impl Subject for Text {
    const NAME: &'static str = "rope";
    const KINDS: [&'static str; 12] = ["rope text", "rope length", "rope text", "rope length", "rope emptiness", "rope text", "rope text", "rope text", "rope text", "rope text", "rope text", "rope debug form"];
    const AUTO: (bool, bool) = (IsSend::<Rope>::YES, IsSync::<Rope>::YES);
    fn fresh() -> Self {
        Text(Rope::new())
    }
    fn step(&mut self, rng: &mut Rng, caret: &mut u32) -> u64 {
        let len = self.0.len();
        if !rng.chance(2, 3) {
            *caret = rng.range(0, len) as u32;
        }
        let at = (*caret as usize).min(len);
        match rng.below(12) {
            0..=7 => {
                let n = if rng.chance(1, 6) { rng.range(1, 400) } else { rng.range(1, 4) };
                let s: String = (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
                self.0.insert(at, &s);
                *caret = (at + n) as u32;
            }
            8..=10 => {
                let n = if rng.chance(1, 6) { rng.range(1, 300) } else { rng.range(1, 4) };
                let from = at.saturating_sub(n);
                self.0.delete_range(from..at);
                *caret = from as u32;
            }
            _ if rng.chance(1, 10) => self.0.clear(),
            _ => self.0.delete_range(at..at + 1),
        }
        self.0.len() as u64
    }
    fn content(&self) -> (u64, usize) {
        let s = self.0.to_string();
        (hs(1, &s), s.len())
    }
    fn read(&self, (k, _, _): Ask, _: &[LeafIndex]) -> u64 {
        ticket();
        match k {
            1 | 3 => self.0.len() as u64,
            4 => self.0.is_empty() as u64,
            11 => hs(1, &format!("{:?}", self.0)),
            _ => self.content().0,
        }
    }
    fn copy(&self) -> Option<Self> {
        None
    }
}

struct Map(OrdTreeMap<Key, u64>);
impl Subject for Map {
    const NAME: &'static str = "map";
    const KINDS: [&'static str; 12] = ["map entries", "map keys", "map length", "map keys", "map ends", "map entries", "map entries", "map keys", "map keys", "copying", "map entries", "map length"];
    const AUTO: (bool, bool) = (IsSend::<OrdTreeMap<Key, u64>>::YES, IsSync::<OrdTreeMap<Key, u64>>::YES);
    fn fresh() -> Self {
        Map(OrdTreeMap::new())
    }
    fn step(&mut self, rng: &mut Rng, _: &mut u32) -> u64 {
        let k = Key(rng.below(500) as u32);
        if rng.chance(3, 5) {
            self.0.insert(k, rng.u64());
            1
        } else {
            self.0.delete(&k).map_or(2, |(k, v)| v ^ k.0 as u64)
        }
    }
    fn content(&self) -> (u64, usize) {
        let (mut h, mut n) = (1, 0);
        for (k, v) in self.0.iter() {
            h = mix(h, k.0 as u64 ^ *v);
            n += 1;
        }
        (h, n)
    }
    fn read(&self, (k, a, _): Ask, _: &[LeafIndex]) -> u64 {
        ticket();
        match k {
            1 | 3 | 7 | 8 => self.0.iter_key().fold(3, |h, k| mix(h, k.0 as u64)),
            2 | 11 => self.0.len() as u64 * 2 + self.0.is_empty() as u64,
            4 => self.0.iter_key().nth(a % 40).map_or(0, |k| k.0 as u64 + 1),
            _ => self.content().0,
        }
    }
    fn copy(&self) -> Option<Self> {
        None
    }
}
struct Set(OrdTreeSet<Key>);
impl Subject for Set {
    const NAME: &'static str = "set";
    const KINDS: [&'static str; 12] = ["set keys", "set keys", "set length", "set keys", "set ends", "set keys", "set keys", "set keys", "set keys", "set keys", "set keys", "set length"];
    const AUTO: (bool, bool) = (IsSend::<OrdTreeSet<Key>>::YES, IsSync::<OrdTreeSet<Key>>::YES);
    fn fresh() -> Self {
        Set(OrdTreeSet::new())
    }
    fn step(&mut self, rng: &mut Rng, _: &mut u32) -> u64 {
        let k = Key(rng.below(300) as u32);
        if rng.chance(3, 5) {
            self.0.insert(k);
            1
        } else {
            2 + self.0.delete(&k) as u64
        }
    }
    fn content(&self) -> (u64, usize) {
        let (mut h, mut n) = (1, 0);
        for k in self.0.iter() {
            h = mix(h, k.0 as u64);
            n += 1;
        }
        (h, n)
    }
    fn read(&self, (k, a, _): Ask, _: &[LeafIndex]) -> u64 {
        ticket();
        match k {
            2 | 11 => self.0.len() as u64 * 2 + self.0.is_empty() as u64,
            4 => self.0.iter().nth(a % 40).map_or(0, |k| k.0 as u64 + 1),
            _ => self.content().0,
        }
    }
    fn copy(&self) -> Option<Self> {
        None
    }
}

// ---------------------------------------------------------------- one history

struct Job {
    st: Stats,
    log: Log,
    findings: Vec<Finding>,
}
impl Job {
    fn bad(&mut self, msg: String) {
        self.findings.push(Finding { tags: vec!["C27"], msg });
    }
}

pub fn run_history(mut rng: Rng, tier: usize) -> (Vec<Finding>, Stats, Vec<String>) {
    arm_nothing();
    let mut j = Job { st: Stats { histories: 1, ..Stats::default() }, log: Log::default(), findings: vec![] };
    let r = guarded(|| match rng.below(10) {
        0 | 1 => subject::<Text>(&mut rng, tier, &mut j),
        2 => subject::<Map>(&mut rng, tier, &mut j),
        3 => subject::<Set>(&mut rng, tier, &mut j),
        4..=6 => subject::<Tree<true>>(&mut rng, tier, &mut j),
        _ => subject::<Tree<false>>(&mut rng, tier, &mut j),
    });
    if let Err(m) = r {
        // a panic in one thread alone is decided by the other properties
        j.findings.push(Finding { tags: vec!["PANIC"], msg: m });
    }
    (j.findings, j.st, j.log.0)
}
fn arm_nothing() {
    crate::elem::arm_budget(u64::MAX);
}

fn subject<S: Subject>(rng: &mut Rng, tier: usize, j: &mut Job) {
    let (send, sync) = S::AUTO;
    j.st.read("Send and Sync");
    if !send || !sync {
        j.bad(format!("a {} of plain elements is {}", S::NAME, if send { "not Sync: it cannot be read by several threads" } else { "not Send: it cannot be handed to another thread" }));
        return;
    }
    let small = tier == 2;
    for _ in 0..rng.range(1, 3) {
        match rng.below(3) {
            0 => reading::<S>(rng, small, j),
            1 => handing::<S>(rng, small, j),
            _ => side_by_side::<S>(rng, small, j),
        }
        if !j.findings.is_empty() {
            return;
        }
    }
}
fn grown<S: Subject>(rng: &mut Rng, small: bool) -> (S, u32) {
    let mut s = S::fresh();
    let mut id = 0;
    let n = if small { rng.range(5, 30) } else { *rng.pick(&[10, 40, 150, 150, 600]) };
    for _ in 0..n {
        s.step(rng, &mut id);
    }
    (s, id)
}

/// several threads read one structure at the same time
fn reading<S: Subject>(rng: &mut Rng, small: bool, j: &mut Job) {
    let (mut s, mut id) = grown::<S>(rng, small);
    for round in 0..if small { 1 } else { rng.range(1, 4) } {
        let hd = s.handles();
        let before = s.content();
        let n_threads = rng.range(2, if small { 3 } else { 5 });
        let n = if small { 6 } else { rng.range(10, 60) };
        // a few questions asked again and again by all, or each thread its own
        let pool: Vec<Ask> = (0..rng.range(1, 30)).map(|_| (rng.below(12), rng.below(1 << 20), rng.below(1 << 20))).collect();
        let lone: Vec<u64> = pool.iter().map(|q| s.read(*q, &hd)).collect();
        let again: Vec<u64> = pool.iter().map(|q| s.read(*q, &hd)).collect();
        j.log.push(format!("{}: {} units, {n_threads} threads ask {n} of {} questions each (round {round})", S::NAME, before.1, pool.len()));
        if lone != again {
            // not a matter of threads
            j.findings.push(Finding { tags: vec!["C13", "C27"], msg: "two readings by one thread differ".into() });
            return;
        }
        let clock = AtomicU64::new(0);
        let start = Barrier::new(n_threads);
        let seeds: Vec<u64> = (0..n_threads).map(|_| rng.u64()).collect();
        let shared = Carry((&s, &hd, &pool, &lone, &clock, &start));
        let outs: Vec<(Result<Option<String>, String>, Vec<u64>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let shared = &shared;
                    sc.spawn(move || {
                        let (s, hd, pool, lone, clock, start) = shared.0;
                        start.wait();
                        let mut rng = Rng::new(*seed);
                        watch(clock, *seed ^ 1, || {
                            guarded(|| {
                                for _ in 0..n {
                                    let i = rng.below(pool.len());
                                    ticket();
                                    let a = s.read(pool[i], hd);
                                    if a != lone[i] {
                                        return Some(format!("{} {:?} answers differently while others read", S::KINDS[pool[i].0], pool[i]));
                                    }
                                }
                                None
                            })
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let (h, switches) = order(&outs.iter().map(|o| o.1.clone()).collect::<Vec<_>>());
        note(j, S::NAME, h, switches, before.0);
        j.st.read("answers compared while several threads read");
        for q in &pool {
            j.st.read(S::KINDS[q.0]);
        }
        j.st.handles_checked += (n * n_threads) as u64;
        for o in outs {
            match o.0 {
                Ok(None) => {}
                Ok(Some(m)) => j.bad(m),
                Err(m) => j.bad(format!("reading a {} panics while others read: {m}", S::NAME)),
            }
        }
        let after: Vec<u64> = pool.iter().map(|q| s.read(*q, &hd)).collect();
        if j.findings.is_empty() && (after != lone || s.content() != before) {
            j.bad(format!("a {} answers differently after several threads have read it", S::NAME));
        }
        if !j.findings.is_empty() {
            return;
        }
        for _ in 0..rng.range(1, 6) {
            s.step(rng, &mut id);
        }
    }
}
fn note(j: &mut Job, name: &'static str, h: u64, switches: u64, content: u64) {
    j.st.states += 1;
    j.st.work_max("changes of the running thread in one meeting", switches);
    if switches > 0 {
        j.st.cases.insert(mix(h, hs(content, name)));
        j.st.shapes.insert(h);
    }
}

/// a structure goes back and forth between threads; its twin stays where it is
fn handing<S: Subject>(rng: &mut Rng, small: bool, j: &mut Job) {
    let seed = rng.u64();
    let n = if small { 25 } else { rng.range(20, 200) };
    let threads = rng.range(1, 3);
    j.log.push(format!("{}: {n} operations, handed around {threads} threads", S::NAME));
    let turns: Vec<usize> = (0..n).map(|_| rng.below(threads + 1)).collect();
    // alone
    let mut alone = vec![];
    {
        let (mut s, mut id, mut r) = (S::fresh(), 0, Rng::new(seed));
        for _ in 0..n {
            let x = s.step(&mut r, &mut id);
            alone.push((x, s.content().0));
        }
    }
    type Msg<S> = Carry<(S, Rng, u32)>;
    let r = std::thread::scope(|sc| {
        let (back, home) = mpsc::channel::<Result<(Msg<S>, u64, u64), String>>();
        let ways: Vec<mpsc::Sender<Msg<S>>> = (0..threads)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<Msg<S>>();
                let back = back.clone();
                sc.spawn(move || {
                    for m in rx {
                        let o = guarded(move || {
                            let Carry((mut s, mut r, mut id)) = m;
                            let x = s.step(&mut r, &mut id);
                            let c = s.content().0;
                            (Carry((s, r, id)), x, c)
                        });
                        if back.send(o).is_err() {
                            break;
                        }
                    }
                });
                tx
            })
            .collect();
        let mut m = Carry((S::fresh(), Rng::new(seed), 0));
        for (i, t) in turns.iter().enumerate() {
            let (x, c);
            if *t == threads {
                x = m.0 .0.step(&mut m.0 .1, &mut m.0 .2);
                c = m.0 .0.content().0;
            } else {
                ways[*t].send(m).ok();
                match home.recv().unwrap() {
                    Ok(o) => (m, x, c) = o,
                    Err(e) => return Some(format!("operation {i} panics in another thread, and does not in one thread alone: {e}")),
                }
            }
            if (x, c) != alone[i] {
                return Some(format!("operation {i} {} when the {} has been handed from thread to thread", if x != alone[i].0 { "returns something else" } else { "leaves another content" }, S::NAME));
            }
        }
        None
    });
    j.st.read("operations compared while handed around");
    j.st.handles_checked += n as u64;
    j.st.states += n as u64;
    j.st.cases.insert(mix(seed, hs(threads as u64, S::NAME)));
    if let Some(m) = r {
        j.bad(m);
    }
}

/// separate structures (copies of one, where it can be copied) are changed at the same time
fn side_by_side<S: Subject>(rng: &mut Rng, small: bool, j: &mut Job) {
    let k = rng.range(2, if small { 2 } else { 5 });
    let n = if small { 20 } else { rng.range(10, 120) };
    let (base, id) = grown::<S>(rng, small);
    let copies = rng.chance(2, 3) && base.copy().is_some();
    let start_with = |_: usize| -> (S, u32) {
        if copies {
            (base.copy().unwrap(), id)
        } else {
            (S::fresh(), 0)
        }
    };
    let seeds: Vec<u64> = (0..k).map(|_| rng.u64()).collect();
    j.log.push(format!("{}: {n} operations on each of {k} {} at the same time", S::NAME, if copies { "copies" } else { "structures" }));
    let work = |mut s: S, mut id: u32, seed: u64| -> Vec<(u64, u64)> {
        let mut r = Rng::new(seed);
        (0..n)
            .map(|_| {
                let x = s.step(&mut r, &mut id);
                (x, s.content().0)
            })
            .collect()
    };
    let alone: Vec<Vec<(u64, u64)>> = (0..k)
        .map(|i| {
            let (s, id) = start_with(i);
            work(s, id, seeds[i])
        })
        .collect();
    let given: Vec<Carry<(S, u32)>> = (0..k).map(|i| Carry(start_with(i))).collect();
    let before = base.content();
    let clock = AtomicU64::new(0);
    let start = Barrier::new(k);
    let env = Carry((&work, &clock, &start));
    let env = &env;
    let outs: Vec<(Result<Vec<(u64, u64)>, String>, Vec<u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = given
            .into_iter()
            .zip(&seeds)
            .map(|(g, seed)| {
                let g = g;
                sc.spawn(move || {
                    let env = env;
                    let (work, clock, start) = env.0;
                    start.wait();
                    watch(clock, *seed ^ 2, move || {
                        guarded(move || {
                            let Carry((s, id)) = { g };
                            work(s, id, *seed)
                        })
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (h, switches) = order(&outs.iter().map(|o| o.1.clone()).collect::<Vec<_>>());
    note(j, S::NAME, h, switches, before.0);
    j.st.read("operations compared while others are changed");
    j.st.handles_checked += (k * n) as u64;
    for (i, o) in outs.into_iter().enumerate() {
        match o.0 {
            Err(m) => j.bad(format!("an operation on one {} panics while others are changed: {m}", S::NAME)),
            Ok(v) => {
                if let Some(p) = v.iter().zip(&alone[i]).position(|(a, b)| a != b) {
                    j.bad(format!("operation {p} on one {} {} while {} others are changed", S::NAME, if v[p].0 != alone[i][p].0 { "returns something else" } else { "leaves another content" }, k - 1));
                }
            }
        }
    }
    if base.content() != before {
        j.bad(format!("a {} changes while its copies are changed", S::NAME));
    }
}
