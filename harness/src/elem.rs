//! The element types the trees are instantiated with. Every unit ("atom") carries a unique id, so
//! that any content observation identifies which insertion it came from, and a live-instance token.
//! The callbacks are themselves monitors: they count work, enforce a step budget (so a loop that
//! never ends is reported after a bounded number of logical steps) and check that the library only
//! makes calls the trait contracts allow.
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, FindResult, Query, QueryResult, UseLengthFinder};
use std::cell::{Cell, RefCell};
use std::ops::Range;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MergePolicy {
    Never,
    SameColor,
    Ascending,
    Any,
    /// the element on the left decides: what it takes in need not go together by itself
    Leader,
}

#[derive(Clone, Copy, Debug)]
pub struct Policy {
    pub merge: MergePolicy,
    pub merge_cap: usize,
    pub absorb: MergePolicy,
    pub absorb_cap: usize,
    pub default_split: bool,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Work {
    pub find_node: u64,
    pub confirm: u64,
    pub calc: u64,
    pub calc_children: u64,
    pub apply: u64,
    pub elem_cache: u64,
    pub merges: u64,
    pub splits: u64,
    pub absorbs: u64,
    pub merge_diff: u64,
    pub get_len: u64,
}

thread_local! {
    pub static POLICY: Cell<Policy> = const { Cell::new(Policy{merge:MergePolicy::Never,merge_cap:0,absorb:MergePolicy::Never,absorb_cap:0,default_split:false}) };
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static ELEMS: Cell<i64> = const { Cell::new(0) };
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static WORK: Cell<Work> = const { Cell::new(Work{find_node:0,confirm:0,calc:0,calc_children:0,apply:0,elem_cache:0,merges:0,splits:0,absorbs:0,merge_diff:0,get_len:0}) };
    pub static CONTRACT: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn policy() -> Policy {
    POLICY.with(|p| p.get())
}
pub fn live() -> i64 {
    LIVE.with(|p| p.get())
}
/// element instances alive (an element may hold no unit at all)
pub fn live_elems() -> i64 {
    ELEMS.with(|p| p.get())
}
pub fn take_work() -> Work {
    WORK.with(|w| w.replace(Work::default()))
}
#[inline]
fn work(f: impl FnOnce(&mut Work)) {
    WORK.with(|w| {
        let mut x = w.get();
        f(&mut x);
        w.set(x)
    });
    step();
}
#[inline]
pub fn step() {
    let s = STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        v
    });
    if s > BUDGET.with(|b| b.get()) {
        panic!("STEP-BUDGET exceeded: the operation made more than the allowed number of callback steps");
    }
}
pub fn arm_budget(n: u64) {
    STEPS.with(|s| s.set(0));
    BUDGET.with(|b| b.set(n));
}
fn contract(ok: bool, msg: impl FnOnce() -> String) {
    if !ok {
        let m = msg();
        CONTRACT.with(|c| {
            if c.borrow().is_none() {
                *c.borrow_mut() = Some(m.clone())
            }
        });
        panic!("CONTRACT: {m}");
    }
}

#[derive(Debug)]
pub struct Token(());
impl Token {
    pub fn new() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Token(())
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::new()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

#[derive(Debug)]
pub struct Inst(());
impl Default for Inst {
    fn default() -> Self {
        ELEMS.with(|l| l.set(l.get() + 1));
        Inst(())
    }
}
impl Clone for Inst {
    fn clone(&self) -> Self {
        Inst::default()
    }
}
impl Drop for Inst {
    fn drop(&mut self) {
        ELEMS.with(|l| l.set(l.get() - 1));
    }
}

#[derive(Debug, Clone)]
pub struct Atom {
    pub id: u32,
    pub color: u8,
    pub attr: i64,
    _tok: Token,
}
impl Atom {
    pub fn new(id: u32, color: u8, attr: i64) -> Self {
        Atom {
            id,
            color,
            attr,
            _tok: Token::new(),
        }
    }
}

/// `marker` elements have length 0, are not removable and never merge.
#[derive(Debug, Clone)]
pub struct Elem {
    pub atoms: Vec<Atom>,
    pub marker: bool,
    pub inst: Inst,
}

impl Elem {
    pub fn empty() -> Self {
        Elem {
            atoms: vec![],
            marker: false,
            inst: Inst::default(),
        }
    }
    fn mergeable(&self, rhs: &Self, p: MergePolicy, cap: usize) -> bool {
        if self.marker || rhs.marker {
            return false;
        }
        if self.atoms.len() + rhs.atoms.len() > cap {
            return false;
        }
        let (Some(a), Some(b)) = (self.atoms.last(), rhs.atoms.first()) else {
            return !matches!(p, MergePolicy::Never | MergePolicy::Leader);
        };
        match p {
            MergePolicy::Never => false,
            MergePolicy::SameColor => a.color == b.color,
            MergePolicy::Ascending => a.color <= b.color,
            MergePolicy::Any => true,
            MergePolicy::Leader => self.atoms[0].color == 0,
        }
    }
}

impl HasLength for Elem {
    fn rle_len(&self) -> usize {
        step();
        if self.marker {
            0
        } else {
            self.atoms.len()
        }
    }
}

impl Sliceable for Elem {
    fn _slice(&self, range: Range<usize>) -> Self {
        contract(
            !self.marker && range.start <= range.end && range.end <= self.atoms.len(),
            || format!("_slice({range:?}) of an element of length {} (marker {})", self.atoms.len(), self.marker),
        );
        Elem {
            atoms: self.atoms[range].to_vec(),
            marker: false,
            inst: Inst::default(),
        }
    }
    fn split(&mut self, pos: usize) -> Self {
        work(|w| w.splits += 1);
        contract(!self.marker && pos <= self.atoms.len(), || {
            format!("split({pos}) of an element of length {} (marker {})", self.atoms.len(), self.marker)
        });
        if policy().default_split {
            let right = self.slice(pos..);
            self.slice_(..pos);
            right
        } else {
            Elem {
                atoms: self.atoms.split_off(pos),
                marker: false,
                inst: Inst::default(),
            }
        }
    }
}

impl Mergeable for Elem {
    fn can_merge(&self, rhs: &Self) -> bool {
        step();
        let p = policy();
        self.mergeable(rhs, p.merge, p.merge_cap)
    }
    fn merge_right(&mut self, rhs: &Self) {
        contract(self.can_merge(rhs), || "merge_right without can_merge".into());
        work(|w| w.merges += 1);
        self.atoms.extend(rhs.atoms.iter().cloned());
    }
    fn merge_left(&mut self, left: &Self) {
        contract(left.can_merge(self), || "merge_left without can_merge".into());
        work(|w| w.merges += 1);
        let mut v = left.atoms.clone();
        v.append(&mut self.atoms);
        self.atoms = v;
    }
}

impl TryInsert for Elem {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        step();
        let p = policy();
        contract(pos <= if self.marker { 0 } else { self.atoms.len() }, || {
            format!("try_insert at {pos} in an element of length {}", self.atoms.len())
        });
        if elem.marker || self.marker || p.absorb == MergePolicy::Never {
            return Err(elem);
        }
        if self.atoms.len() + elem.atoms.len() > p.absorb_cap {
            return Err(elem);
        }
        if p.absorb == MergePolicy::SameColor {
            let c = self.atoms.first().map(|a| a.color);
            if self.atoms.iter().chain(elem.atoms.iter()).any(|a| Some(a.color) != c) {
                return Err(elem);
            }
        }
        work(|w| w.absorbs += 1);
        let tail = self.atoms.split_off(pos);
        let mut elem = elem;
        self.atoms.append(&mut elem.atoms);
        self.atoms.extend(tail);
        Ok(())
    }
}

impl CanRemove for Elem {
    fn can_remove(&self) -> bool {
        // through what the crate provides for numbers, as an element that is little more than a length would
        let n = self.atoms.len();
        n.can_remove() && (n as isize).can_remove() && (n as u32).can_remove() && (n as i32).can_remove() && ().can_remove()
    }
}

// ---------------------------------------------------------------- summaries

#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct Sum {
    pub len: i64,
    pub n: i64,
    pub cnt: [i64; 4],
    pub attr: i64,
    pub ids: i64,
}
impl CanRemove for Sum {
    fn can_remove(&self) -> bool {
        *self == Sum::default()
    }
}
impl Sum {
    pub fn add(&mut self, o: &Sum) {
        self.len += o.len;
        self.n += o.n;
        for i in 0..4 {
            self.cnt[i] += o.cnt[i];
        }
        self.attr += o.attr;
        self.ids += o.ids;
    }
    pub fn sub(&self, o: &Sum) -> Sum {
        let mut r = self.clone();
        r.len -= o.len;
        r.n -= o.n;
        for i in 0..4 {
            r.cnt[i] -= o.cnt[i];
        }
        r.attr -= o.attr;
        r.ids -= o.ids;
        r
    }
    /// with `counts` off, the length is all there is: zero-length elements are neutral
    pub fn measure(e: &Elem, counts: bool) -> Sum {
        if counts {
            Sum::of(e)
        } else {
            Sum { len: if e.marker { 0 } else { e.atoms.len() as i64 }, ..Default::default() }
        }
    }
    pub fn of(e: &Elem) -> Sum {
        let mut s = Sum {
            len: if e.marker { 0 } else { e.atoms.len() as i64 },
            n: e.atoms.len() as i64,
            ..Default::default()
        };
        for a in &e.atoms {
            s.cnt[a.color as usize] += 1;
            s.attr += a.attr;
            s.ids += a.id as i64;
        }
        s
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Ext {
    pub len: i64,
    pub n: i64,
    pub max: i64,
    pub min: i64,
    pub colors: u8,
    pub attr_max: i64,
    /// the elements themselves, whatever they hold: one that holds nothing counts as well
    pub elems: i64,
    /// the units in their order: B^n and the sum of (unit k) * B^(n-1-k)
    pub seq: (u64, u64),
}
const SEQ: u64 = 0x9E37_79B9_7F4A_7C15;
impl Default for Ext {
    fn default() -> Self {
        Ext {
            len: 0,
            n: 0,
            max: i64::MIN,
            min: i64::MAX,
            colors: 0,
            attr_max: i64::MIN,
            elems: 0,
            seq: (1, 0),
        }
    }
}
impl Ext {
    pub fn add(&mut self, o: &Ext) {
        self.len += o.len;
        self.n += o.n;
        self.max = self.max.max(o.max);
        self.min = self.min.min(o.min);
        self.colors |= o.colors;
        self.attr_max = self.attr_max.max(o.attr_max);
        self.elems += o.elems;
        self.seq = (self.seq.0.wrapping_mul(o.seq.0), self.seq.1.wrapping_mul(o.seq.0).wrapping_add(o.seq.1));
    }
    pub fn of(e: &Elem) -> Ext {
        let mut s = Ext {
            len: if e.marker { 0 } else { e.atoms.len() as i64 },
            n: e.atoms.len() as i64,
            elems: 1,
            ..Default::default()
        };
        for a in &e.atoms {
            s.max = s.max.max(a.id as i64);
            s.min = s.min.min(a.id as i64);
            s.colors |= 1 << a.color;
            s.attr_max = s.attr_max.max(a.attr);
            let unit = (a.id as u64 + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ a.attr as u64;
            s.seq = (s.seq.0.wrapping_mul(SEQ), s.seq.1.wrapping_mul(SEQ).wrapping_add(unit));
        }
        s
    }
}

/// What the engine needs to know of a tree instance besides its `BTreeTrait`.
pub trait TreeKind: BTreeTrait<Elem = Elem> + UseLengthFinder<Self> + Sized + 'static {
    const NAME: &'static str;
    /// do `apply_cache_diff` and friends work (so that the diff-taking calls can be used)?
    const DIFFABLE: bool;
    /// does the summary count units (and colours), or lengths only, so that zero-length elements are neutral?
    const COUNTS: bool;
    fn expect(e: &Elem) -> Self::Cache;
    fn combine(a: &mut Self::Cache, b: &Self::Cache);
    fn diff(new: &Self::Cache, old: &Self::Cache) -> Self::CacheDiff;
    fn add_diff(d: &mut Self::CacheDiff, c: &Self::Cache);
    fn n(c: &Self::Cache) -> i64;
    fn len(c: &Self::Cache) -> i64;
    fn has_color(c: &Self::Cache, color: u8) -> bool;
    fn recolor_cache(c: &mut Self::Cache, from: u8, to: u8);
    fn idprobe(c: &Self::Cache) -> i64;
    fn cnt(c: &Self::Cache, color: u8) -> i64;
    /// first unit whose id is at least x; None when this summary cannot answer
    fn max_search(_t: &BTree<Self>, _x: i64) -> Option<Option<QueryResult>> {
        None
    }
}

macro_rules! sum_kind {
    ($t:ident, $name:expr, $use_diff:expr, $counts:expr) => {
        #[derive(Debug)]
        pub struct $t;
        impl UseLengthFinder<$t> for $t {
            fn get_len(cache: &Sum) -> usize {
                work(|w| w.get_len += 1);
                cache.len as usize
            }
        }
        impl BTreeTrait for $t {
            type Elem = Elem;
            type Cache = Sum;
            type CacheDiff = Sum;
            const USE_DIFF: bool = $use_diff;
            fn calc_cache_internal(cache: &mut Sum, caches: &[Child<Self>]) -> Sum {
                work(|w| {
                    w.calc += 1;
                    w.calc_children += caches.len() as u64
                });
                let mut s = Sum::default();
                for c in caches {
                    s.add(c.cache());
                }
                let d = s.sub(cache);
                *cache = s;
                d
            }
            fn apply_cache_diff(cache: &mut Sum, diff: &Sum) {
                work(|w| w.apply += 1);
                cache.add(diff);
            }
            fn merge_cache_diff(d1: &mut Sum, d2: &Sum) {
                work(|w| w.merge_diff += 1);
                d1.add(d2);
            }
            fn get_elem_cache(elem: &Elem) -> Sum {
                work(|w| w.elem_cache += 1);
                Sum::measure(elem, $counts)
            }
            fn new_cache_to_diff(cache: &Sum) -> Sum {
                cache.clone()
            }
            fn sub_cache(l: &Sum, r: &Sum) -> Sum {
                l.sub(r)
            }
        }
        impl TreeKind for $t {
            const NAME: &'static str = $name;
            const DIFFABLE: bool = true;
            const COUNTS: bool = $counts;
            fn expect(e: &Elem) -> Sum {
                Sum::measure(e, $counts)
            }
            fn combine(a: &mut Sum, b: &Sum) {
                a.add(b)
            }
            fn diff(new: &Sum, old: &Sum) -> Sum {
                new.sub(old)
            }
            fn add_diff(d: &mut Sum, c: &Sum) {
                d.add(c)
            }
            fn n(c: &Sum) -> i64 {
                if $counts {
                    c.n
                } else {
                    c.len
                }
            }
            fn len(c: &Sum) -> i64 {
                c.len
            }
            fn has_color(c: &Sum, color: u8) -> bool {
                !$counts || c.cnt[color as usize] > 0
            }
            fn recolor_cache(c: &mut Sum, from: u8, to: u8) {
                let k = c.cnt[from as usize];
                c.cnt[from as usize] = 0;
                c.cnt[to as usize] += k;
            }
            fn idprobe(c: &Sum) -> i64 {
                if $counts {
                    c.ids
                } else {
                    c.len
                }
            }
            fn cnt(c: &Sum, color: u8) -> i64 {
                c.cnt[color as usize]
            }
        }
    };
}
sum_kind!(SumDiff, "sum-diff", true, true);
sum_kind!(SumRecalc, "sum-recalc", false, true);
sum_kind!(LenDiff, "length-diff", true, false);
sum_kind!(LenRecalc, "length-recalc", false, false);

#[derive(Debug)]
pub struct ExtRecalc;
impl UseLengthFinder<ExtRecalc> for ExtRecalc {
    fn get_len(cache: &Ext) -> usize {
        work(|w| w.get_len += 1);
        cache.len as usize
    }
}
impl BTreeTrait for ExtRecalc {
    type Elem = Elem;
    type Cache = Ext;
    type CacheDiff = ();
    const USE_DIFF: bool = false;
    fn calc_cache_internal(cache: &mut Ext, caches: &[Child<Self>]) {
        work(|w| {
            w.calc += 1;
            w.calc_children += caches.len() as u64
        });
        let mut s = Ext::default();
        for c in caches {
            s.add(c.cache());
        }
        *cache = s;
    }
    fn apply_cache_diff(_: &mut Ext, _: &()) {
        contract(false, || "apply_cache_diff on a summary that has no differences (USE_DIFF = false)".into());
    }
    fn merge_cache_diff(_: &mut (), _: &()) {}
    fn get_elem_cache(elem: &Elem) -> Ext {
        work(|w| w.elem_cache += 1);
        Ext::of(elem)
    }
    fn new_cache_to_diff(_: &Ext) {}
    fn sub_cache(_: &Ext, _: &Ext) {}
}
impl TreeKind for ExtRecalc {
    const NAME: &'static str = "extremum-recalc";
    const DIFFABLE: bool = false;
    const COUNTS: bool = true;
    fn expect(e: &Elem) -> Ext {
        Ext::of(e)
    }
    fn combine(a: &mut Ext, b: &Ext) {
        a.add(b)
    }
    fn diff(_: &Ext, _: &Ext) {}
    fn add_diff(_: &mut (), _: &Ext) {}
    fn n(c: &Ext) -> i64 {
        c.n
    }
    fn len(c: &Ext) -> i64 {
        c.len
    }
    fn has_color(c: &Ext, color: u8) -> bool {
        c.colors >> color & 1 == 1
    }
    fn recolor_cache(c: &mut Ext, from: u8, to: u8) {
        if c.colors >> from & 1 == 1 {
            c.colors &= !(1 << from);
            c.colors |= 1 << to;
        }
    }
    fn idprobe(c: &Ext) -> i64 {
        c.max
    }
    fn cnt(_: &Ext, _: u8) -> i64 {
        0
    }
    fn max_search(t: &BTree<Self>, x: i64) -> Option<Option<QueryResult>> {
        Some(t.query::<MaxFinder>(&x))
    }
}

// ---------------------------------------------------------------- queries

/// k-th (0-based) unit of a colour, over the per-colour counts.
pub struct ColorFinder {
    color: u8,
    left: i64,
}
impl<B: TreeKind> Query<B> for ColorFinder {
    type QueryArg = (u8, usize);
    fn init(t: &(u8, usize)) -> Self {
        ColorFinder {
            color: t.0,
            left: t.1 as i64,
        }
    }
    fn find_node(&mut self, _: &(u8, usize), children: &[Child<B>]) -> FindResult {
        work(|w| w.find_node += 1);
        for (i, c) in children.iter().enumerate() {
            let k = B::cnt(c.cache(), self.color);
            if self.left < k {
                return FindResult::new_found(i, self.left as usize);
            }
            self.left -= k;
        }
        FindResult::new_missing(children.len() - 1, 0)
    }
    fn confirm_elem(&mut self, _: &(u8, usize), elem: &Elem) -> (usize, bool) {
        work(|w| w.confirm += 1);
        let mut left = self.left;
        for (i, a) in elem.atoms.iter().enumerate() {
            if a.color == self.color {
                if left == 0 {
                    return (if elem.marker { 0 } else { i }, true);
                }
                left -= 1;
            }
        }
        (elem.atoms.len(), false)
    }
}

/// First element whose largest id is at least x (over the max dimension).
pub struct MaxFinder;
impl Query<ExtRecalc> for MaxFinder {
    type QueryArg = i64;
    fn init(_: &i64) -> Self {
        MaxFinder
    }
    fn find_node(&mut self, x: &i64, children: &[Child<ExtRecalc>]) -> FindResult {
        work(|w| w.find_node += 1);
        for (i, c) in children.iter().enumerate() {
            if c.cache().max >= *x {
                return FindResult::new_found(i, 0);
            }
        }
        FindResult::new_missing(children.len() - 1, 0)
    }
    fn confirm_elem(&mut self, x: &i64, elem: &Elem) -> (usize, bool) {
        work(|w| w.confirm += 1);
        for (i, a) in elem.atoms.iter().enumerate() {
            if a.id as i64 >= *x {
                return (i, true);
            }
        }
        (0, false)
    }
}
