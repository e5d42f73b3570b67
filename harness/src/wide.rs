//! Trees of run-length elements with very long runs (up to 2^46 units each), so that positions,
//! offsets and lengths go far beyond 32 bits. Content is a sequence of numbered units held as
//! spans; the model is a plain list of spans.
use crate::elem::{arm_budget, take_work};
use crate::engine::*;
use crate::rng::Rng;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, LengthFinder, PreviousCache, UseLengthFinder};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::{Bound, Range};

thread_local! {
    static MERGE: Cell<usize> = const { Cell::new(0) };
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Span {
    a: u64,
    n: usize,
    v: i64,
}
impl HasLength for Span {
    fn rle_len(&self) -> usize {
        self.n
    }
}
impl Sliceable for Span {
    fn _slice(&self, r: Range<usize>) -> Self {
        if r.start > r.end || r.end > self.n {
            panic!("CONTRACT: _slice({r:?}) of an element of length {}", self.n);
        }
        Span { a: self.a + r.start as u64, n: r.end - r.start, v: self.v }
    }
}
fn joins(l: &Span, r: &Span) -> bool {
    l.a + l.n as u64 == r.a && l.v == r.v
}
impl Mergeable for Span {
    fn can_merge(&self, r: &Self) -> bool {
        let cap = MERGE.with(|c| c.get());
        cap > 0 && joins(self, r) && self.n + r.n <= cap
    }
    fn merge_right(&mut self, r: &Self) {
        if !self.can_merge(r) {
            panic!("CONTRACT: merge_right without can_merge");
        }
        self.n += r.n;
    }
    fn merge_left(&mut self, l: &Self) {
        if !l.can_merge(self) {
            panic!("CONTRACT: merge_left without can_merge");
        }
        self.a = l.a;
        self.n += l.n;
    }
}
impl TryInsert for Span {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for Span {
    fn can_remove(&self) -> bool {
        self.n == 0
    }
}
#[derive(Debug)]
struct T<const DIFF: bool>;
impl<const X: bool> UseLengthFinder<T<X>> for T<X> {
    fn get_len(c: &u64) -> usize {
        *c as usize
    }
}
impl<const X: bool> BTreeTrait for T<X> {
    type Elem = Span;
    type Cache = u64;
    type CacheDiff = isize;
    const USE_DIFF: bool = X;
    fn calc_cache_internal(cache: &mut u64, c: &[Child<Self>]) -> isize {
        let n: u64 = c.iter().map(|c| *c.cache()).sum();
        let d = n as i64 - *cache as i64;
        *cache = n;
        d as isize
    }
    fn apply_cache_diff(c: &mut u64, d: &isize) {
        *c = (*c as i64 + *d as i64) as u64;
    }
    fn merge_cache_diff(a: &mut isize, b: &isize) {
        *a += b;
    }
    fn get_elem_cache(e: &Span) -> u64 {
        e.n as u64
    }
    fn new_cache_to_diff(c: &u64) -> isize {
        *c as isize
    }
    fn sub_cache(a: &u64, b: &u64) -> isize {
        *a as isize - *b as isize
    }
}

/// adjacent spans that continue each other become one
fn norm(v: impl IntoIterator<Item = Span>) -> Vec<Span> {
    let mut o: Vec<Span> = vec![];
    for s in v {
        match o.last_mut() {
            _ if s.n == 0 => {}
            Some(l) if joins(l, &s) => l.n += s.n,
            _ => o.push(s),
        }
    }
    o
}
fn total(m: &[Span]) -> usize {
    m.iter().map(|s| s.n).sum()
}
fn cut(m: &mut Vec<Span>, p: usize) -> usize {
    let mut at = 0;
    for i in 0..m.len() {
        if at == p {
            return i;
        }
        if p < at + m[i].n {
            let k = p - at;
            let r = Span { a: m[i].a + k as u64, n: m[i].n - k, v: m[i].v };
            m[i].n = k;
            m.insert(i + 1, r);
            return i + 1;
        }
        at += m[i].n;
    }
    m.len()
}
fn slice(m: &[Span], r: Range<usize>) -> Vec<Span> {
    let mut c = m.to_vec();
    let b = cut(&mut c, r.end);
    c.truncate(b);
    let a = cut(&mut c, r.start);
    norm(c.split_off(a))
}
fn splice(m: &mut Vec<Span>, r: Range<usize>, x: &[Span]) {
    cut(m, r.end);
    let a = cut(m, r.start);
    let b = cut(m, r.end);
    m.splice(a..b, x.iter().copied());
    *m = norm(std::mem::take(m));
}

struct W<const X: bool> {
    t: BTree<T<X>>,
    m: Vec<Span>,
    next: u64,
    rng: Rng,
    big: u8,
    st: Stats,
    log: Log,
    fs: Vec<Finding>,
}

pub fn run(mut rng: Rng, ops: usize, prop: &str) -> (Vec<Finding>, Stats, Vec<String>) {
    arm_budget(u64::MAX);
    MERGE.with(|c| c.set(*rng.pick(&[0, 0, 1 << 20, 1 << 33, 1 << 50])));
    let r = if rng.chance(1, 2) { W::<true>::go(rng, ops, prop) } else { W::<false>::go(rng, ops, prop) };
    take_work();
    r
}

impl<const X: bool> W<X> {
    fn go(rng: Rng, ops: usize, prop: &str) -> (Vec<Finding>, Stats, Vec<String>) {
        let mut w = W::<X> { t: BTree::new(), m: vec![], next: 1, rng, big: 0, st: Stats { histories: 1, ..Stats::default() }, log: Log::default(), fs: vec![] };
        w.big = w.rng.below(4) as u8;
        let n = *w.rng.pick(&[0, 3, 30, 30, 200]);
        w.log.push(format!("long runs, summaries by {}, length class {}", if X { "difference" } else { "recomputation" }, w.big));
        w.start(n);
        for _ in 0..ops {
            if !w.fs.is_empty() {
                break;
            }
            w.step(prop);
        }
        (w.fs, w.st, w.log.0)
    }
    fn find(&mut self, tags: &[&'static str], msg: String) {
        self.fs.push(Finding { tags: tags.to_vec(), msg: format!("long runs: {msg}") });
    }
    fn len(&mut self) -> usize {
        let base = match self.big {
            0 => 20,
            1 => *self.rng.pick(&[8, 16, 24, 30, 31, 32, 33]),
            2 => *self.rng.pick(&[31, 32, 33, 40, 46]),
            _ => self.rng.below(47),
        };
        let near = 1usize << base;
        match self.rng.below(5) {
            0 => 1 + self.rng.below(4),
            1 => near,
            2 => near - 1 + (near == 1) as usize,
            3 => near + 1,
            _ => self.rng.range(1, near),
        }
    }
    fn span(&mut self) -> Span {
        let n = self.len();
        // sometimes the continuation of the newest one
        if !self.rng.chance(1, 3) {
            self.next += 1;
        }
        let s = Span { a: self.next, n, v: 0 };
        self.next += n as u64;
        s
    }
    fn start(&mut self, n: usize) {
        let xs: Vec<Span> = (0..n).map(|_| self.span()).collect();
        self.m = norm(xs.iter().copied());
        if self.rng.chance(1, 2) {
            let t = guarded(|| xs.iter().copied().collect::<BTree<T<X>>>());
            let r = t.map(|t| self.t = t);
            self.done("from_iter", "C12", r);
        } else {
            let t = guarded(|| {
                let mut t = BTree::<T<X>>::new();
                for x in xs {
                    t.push(x);
                }
                t
            });
            let r = t.map(|t| self.t = t);
            self.done("push", "C01", r);
        }
    }
    fn pos(&mut self) -> usize {
        let n = total(&self.m);
        if n == 0 {
            return 0;
        }
        match self.rng.below(6) {
            0 => 0,
            1 => n,
            2 | 3 => {
                // next to a border
                let k = self.rng.below(self.m.len());
                let b: usize = total(&self.m[..k]);
                (b + self.rng.below(3)).saturating_sub(1).min(n)
            }
            _ => self.rng.range(0, n),
        }
    }
    fn two(&mut self) -> (usize, usize) {
        let (a, b) = (self.pos(), self.pos());
        if self.rng.chance(1, 2) {
            let n = total(&self.m);
            let l = self.len();
            return (a.min(n), a.saturating_add(l).min(n));
        }
        (a.min(b), a.max(b))
    }
    /// elements with their positions, as the tree presents them
    fn elems(&self) -> Vec<(usize, Span)> {
        let mut p = 0;
        self.t
            .iter()
            .map(|e| {
                let r = (p, *e);
                p += e.n;
                r
            })
            .collect()
    }
    fn done(&mut self, op: &'static str, tag: &'static str, r: Result<(), String>) {
        self.st.op(op);
        if let Err(m) = r {
            return self.find(&[tag], format!("{op}: panicked: {m}"));
        }
        self.st.states += 1;
        let t = &self.t;
        let got = match guarded(|| (norm(t.iter().copied()), t.iter().count(), *t.root_cache() as usize)) {
            Ok(x) => x,
            Err(m) => return self.find(&[tag, "C13"], format!("{op}: iteration panicked: {m}")),
        };
        if got.0 != self.m {
            let k = got.0.iter().zip(&self.m).position(|(a, b)| a != b).unwrap_or(got.0.len().min(self.m.len()));
            return self.find(&[tag], format!("{op}: content differs from the model at span {k}: {:?} vs {:?}", got.0.get(k), self.m.get(k)));
        }
        if got.2 != total(&self.m) {
            return self.find(&[tag, "C02"], format!("{op}: root_cache() is {}, the elements add up to {}", got.2, total(&self.m)));
        }
        if let Err(m) = guarded(|| t.check()) {
            return self.find(&[tag, "C03"], format!("{op}: built-in check rejects the state: {m}"));
        }
        let h = (total(&self.m) as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (got.1 as u64).rotate_left(40) ^ op.len() as u64;
        self.st.shapes.insert(h);
        self.st.cases.insert(h ^ (op.as_bytes()[0] as u64) << 56);
        self.st.max_leaves = self.st.max_leaves.max(got.1 as u64);
    }
    fn cursor(&mut self, p: usize) -> Option<Cursor> {
        let t = &self.t;
        let n = total(&self.m);
        match guarded(|| t.query::<LengthFinder>(&p)) {
            Ok(Some(r)) => {
                // the element really covers it
                let e = *t.get_elem(r.cursor.leaf)?;
                let unit = slice(&self.m, p.min(n - 1)..p.min(n - 1) + 1)[0].a;
                let ok = if p < n { r.found && r.cursor.offset < e.n && e.a + r.cursor.offset as u64 == unit } else { !r.found && r.cursor.offset == e.n && e.a + e.n as u64 == unit + 1 };
                if !ok {
                    self.find(&["C05"], format!("search for position {p} of {n}: {r:?} in {e:?}, expected unit {unit}"));
                    return None;
                }
                Some(r.cursor)
            }
            Ok(None) => {
                if n > 0 {
                    self.find(&["C05"], format!("search for position {p} of {n} reports an empty tree"));
                }
                None
            }
            Err(m) => {
                self.find(&["C05"], format!("search for position {p} of {n} panicked: {m}"));
                None
            }
        }
    }
    fn step(&mut self, prop: &str) {
        let n = total(&self.m);
        // the operations of this property twice as often
        let own = match prop {
            "C01" => 1,
            "C07" => 4,
            "C08" => 5,
            "C09" => 6,
            "C10" => 7,
            "C11" => 3,
            "C13" | "C14" | "C15" | "C16" | "C05" => 8,
            "C19" => 0,
            _ => 99,
        };
        let mut k = self.rng.below(12);
        if own < 9 && self.rng.chance(1, 4) {
            k = own;
        }
        if n > 1 << 61 {
            k = 4;
        }
        match k {
            0 => {
                let (p, s) = (self.pos(), self.span());
                self.log.push(format!("insert {s:?} at {p} of {n}"));
                let t = &mut self.t;
                let r = guarded(|| t.insert::<LengthFinder>(&p, s));
                splice(&mut self.m, p..p, &[s]);
                let mut back = None;
                let r = r.map(|(c, _)| back = Some(c));
                self.done("insert(query)", "C01", r);
                if let (Some(c), true) = (back, self.fs.is_empty()) {
                    let e = self.t.get_elem(c.leaf).copied();
                    if !e.is_some_and(|e| c.offset + s.n <= e.n && e.a + c.offset as u64 == s.a) {
                        self.find(&["C19"], format!("inserted {s:?}, the cursor returned denotes {e:?} offset {}", c.offset));
                    }
                }
            }
            1 => {
                let s = self.span();
                let front = self.rng.chance(1, 2);
                self.log.push(format!("{} {s:?}", if front { "prepend" } else { "push" }));
                let t = &mut self.t;
                let r = guarded(|| if front { t.prepend(s) } else { t.push(s) });
                let p = if front { 0 } else { n };
                splice(&mut self.m, p..p, &[s]);
                let mut back = None;
                let r = r.map(|c| back = Some(c));
                self.done(if front { "prepend" } else { "push" }, "C01", r);
                if let (Some(c), true) = (back, self.fs.is_empty()) {
                    let e = self.t.get_elem(c.leaf).copied();
                    if !e.is_some_and(|e| c.offset + s.n <= e.n && e.a + c.offset as u64 == s.a) {
                        self.find(&["C19"], format!("inserted {s:?}, the cursor returned denotes {e:?} offset {}", c.offset));
                    }
                }
            }
            2 => {
                if n == 0 {
                    return;
                }
                let es = self.elems();
                let (p, e) = *self.rng.pick(&es);
                let Some(c) = self.cursor(p) else { return };
                self.log.push(format!("remove_leaf at {p} of {n}"));
                let t = &mut self.t;
                let r = guarded(|| t.remove_leaf(c));
                splice(&mut self.m, p..p + e.n, &[]);
                let r = r.map(|x| {
                    if x != Some(e) {
                        self.fs.push(Finding { tags: vec!["C01"], msg: format!("long runs: remove_leaf returned {x:?}, expected {e:?}") })
                    }
                });
                self.done("remove_leaf", "C01", r);
            }
            3 => {
                if n == 0 {
                    return;
                }
                let k = *self.rng.pick(&[0usize, 1, 2, 5, 20]);
                let xs: Vec<Span> = (0..k).map(|_| self.span()).collect();
                let p = self.pos();
                let Some(c) = self.cursor(p) else { return };
                self.log.push(format!("insert_many {xs:?} at {p} of {n}"));
                let t = &mut self.t;
                let ys = xs.clone();
                let r = guarded(|| t.insert_many_by_cursor(Some(c), ys.into_iter()));
                splice(&mut self.m, p..p, &xs);
                self.done("insert_many_by_cursor", "C11", r);
            }
            4 => {
                let (mut a, mut b) = self.two();
                if n <= 1 << 61 && !self.rng.chance(1, 4) {
                    // mostly a few elements only
                    let es = self.elems();
                    if !es.is_empty() {
                        let i = self.rng.below(es.len());
                        let j = (i + self.rng.below(8)).min(es.len() - 1);
                        a = es[i].0 + if self.rng.chance(1, 2) { 0 } else { self.rng.below(es[i].1.n) };
                        b = (es[j].0 + if self.rng.chance(1, 2) { es[j].1.n } else { self.rng.below(es[j].1.n) }).max(a);
                    }
                }
                let take = *self.rng.pick(&[0usize, 1, 3, usize::MAX]);
                self.log.push(format!("drain {a}..{b} of {n}, {take} taken"));
                let t = &mut self.t;
                let r = guarded(|| t.drain_by_query::<LengthFinder>(a..b).take(take).collect::<Vec<_>>());
                let want = slice(&self.m, a..b);
                splice(&mut self.m, a..b, &[]);
                let r = r.map(|x| {
                    let got = norm(x);
                    let ok = if take == usize::MAX { got == want } else { got == slice(&want, 0..total(&got)) };
                    if !ok {
                        self.fs.push(Finding { tags: vec!["C07"], msg: format!("long runs: drain {a}..{b} yielded {got:?}, expected {want:?}") })
                    }
                });
                self.done("drain", "C07", r);
            }
            5 => {
                let (a, b) = self.two();
                if a == b {
                    return;
                }
                let Some(ca) = self.cursor(a) else { return };
                let Some(cb) = self.cursor(b) else { return };
                let by = self.rng.range(1, 3) as i64;
                self.log.push(format!("update {a}..{b} of {n}: +{by}"));
                let mut seen = vec![];
                let t = &mut self.t;
                let rep = self.rng.chance(1, 2);
                let r = guarded(|| {
                    t.update(ca..cb, &mut |e: &mut Span| {
                        seen.push(*e);
                        e.v += by;
                        if rep {
                            Some(0)
                        } else {
                            None
                        }
                    });
                });
                let want = slice(&self.m, a..b);
                if r.is_ok() && norm(seen) != want {
                    self.find(&["C08"], format!("update {a}..{b} did not visit {want:?}"));
                }
                let new: Vec<Span> = want.iter().map(|s| Span { v: s.v + by, ..*s }).collect();
                splice(&mut self.m, a..b, &new);
                self.done("update", "C08", r);
            }
            6 => {
                if n == 0 {
                    return;
                }
                let es = self.elems();
                let (p, e) = *self.rng.pick(&es);
                let Some(c) = self.cursor(p) else { return };
                let keep = self.rng.range(0, e.n);
                if self.rng.chance(1, 2) {
                    let x = self.span();
                    let y = if self.rng.chance(1, 2) { Some(self.span()) } else { None };
                    self.log.push(format!("update_leaf at {p} of {n}: keep {keep}, add {x:?} {y:?}"));
                    let t = &mut self.t;
                    let r = guarded(|| {
                        t.update_leaf(c.leaf, |l| {
                            l.n = keep;
                            (true, Some(x), y)
                        });
                    });
                    let new: Vec<Span> = [Span { n: keep, ..e }, x].into_iter().chain(y).filter(|s| s.n > 0).collect();
                    splice(&mut self.m, p..p + e.n, &new);
                    self.done("update_leaf", "C09", r);
                } else {
                    let off = self.rng.range(0, e.n - 1);
                    let q = p + off;
                    self.log.push(format!("update_leaf_by_search at {q} of {n}: keep {keep}"));
                    let mut seen = None;
                    let t = &mut self.t;
                    if !X {
                        return;
                    }
                    let r = guarded(|| {
                        t.update_leaf_by_search::<LengthFinder>(&q, |l, r| {
                            seen = Some((*l, r.cursor.offset));
                            let d = keep as isize - l.n as isize;
                            l.n = keep;
                            Some((d, None, None))
                        });
                    });
                    if r.is_ok() && seen != Some((e, off)) {
                        self.find(&["C09", "C05"], format!("update_leaf_by_search at {q} presented {seen:?}, expected {e:?} at {off}"));
                    }
                    splice(&mut self.m, p + keep..p + e.n, &[]);
                    self.done("update_leaf_by_search", "C09", r);
                }
            }
            7 => {
                if n == 0 {
                    return;
                }
                let es = self.elems();
                let mut args = vec![];
                let mut new = self.m.clone();
                for _ in 0..self.rng.range(1, 5) {
                    let (p, e) = *self.rng.pick(&es);
                    let Some(c) = self.cursor(p) else { return };
                    let a = if self.rng.chance(1, 3) { 0 } else { self.rng.range(0, e.n - 1) };
                    let b = if self.rng.chance(1, 3) { e.n } else { self.rng.range(a + 1, e.n) };
                    let by = self.rng.range(1, 9) as i64;
                    args.push((c.leaf, a..b, by));
                    let part: Vec<Span> = slice(&new, p + a..p + b).iter().map(|s| Span { v: s.v + by, ..*s }).collect();
                    splice(&mut new, p + a..p + b, &part);
                }
                self.log.push(format!("batch {args:?}"));
                let t = &mut self.t;
                let r = guarded(|| {
                    t.update_leaves_with_arg_in_ranges(args, |e, by| e.v += *by);
                });
                self.m = new;
                self.done("update_leaves_with_arg_in_ranges", "C10", r);
            }
            8 | 9 => self.reads(),
            10 => {
                let t = &self.t;
                let Ok(c) = guarded(|| t.clone()) else { return self.find(&["C17"], "clone panicked".into()) };
                self.log.push("clone".into());
                self.t = c;
                self.done("clone", "C17", Ok(()));
            }
            _ => {
                let (a, b) = self.two();
                if b - a < n / 2 {
                    return;
                }
                // keep trees growing: whole-half drains are rare
                if self.rng.chance(3, 4) {
                    for _ in 0..3 {
                        let (p, s) = (self.pos(), self.span());
                        let t = &mut self.t;
                        let r = guarded(|| {
                            t.insert::<LengthFinder>(&p, s);
                        });
                        splice(&mut self.m, p..p, &[s]);
                        self.log.push(format!("insert {s:?} at {p}"));
                        self.done("insert(query)", "C01", r);
                        if !self.fs.is_empty() {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn reads(&mut self) {
        let n = total(&self.m);
        if n == 0 {
            return;
        }
        let (a, b) = self.two();
        let Some(ca) = self.cursor(a) else { return };
        let Some(cb) = self.cursor(b) else { return };
        let t = &self.t;
        // order
        let o = guarded(|| (t.compare_pos(ca, cb), t.compare_pos(cb, ca)));
        self.st.read("compare_pos");
        let want = if a < b { Ordering::Less } else { Ordering::Equal };
        if o != Ok((want, want.reverse())) {
            return self.find(&["C14"], format!("comparing positions {a} and {b} of {n} gives {o:?}"));
        }
        // prefix
        let mut sum = 0u128;
        let r = guarded(|| {
            t.visit_previous_caches(ca, |x| match x {
                PreviousCache::NodeCache(c) => sum += *c as u128,
                PreviousCache::PrevSiblingElem(e) => sum += e.n as u128,
                PreviousCache::ThisElemAndOffset { offset, .. } => sum += offset as u128,
            })
        });
        self.st.read("visit_previous_caches");
        if r.is_err() || sum != a as u128 {
            return self.find(&["C15"], format!("visiting what precedes position {a} adds up to {sum} ({r:?})"));
        }
        // range
        let incl = self.rng.chance(1, 2);
        let r = guarded(|| {
            let end = if incl { Bound::Included(cb) } else { Bound::Excluded(cb) };
            norm(
                t.iter_range((Bound::Included(ca), end))
                    .map(|s| {
                        let (x, y) = (s.start.unwrap_or(0), s.end.unwrap_or(s.elem.n));
                        Span { a: s.elem.a + x as u64, n: y - x, v: s.elem.v }
                    }),
            )
        });
        self.st.read("iter_range");
        let want = slice(&self.m, a..b);
        if r.as_ref() != Ok(&want) {
            return self.find(&["C13"], format!("iterating over {a}..{b} gives {r:?}, expected {want:?}"));
        }
        // one unit on
        let r = guarded(|| t.shift_path_by_one_offset(ca).map(|c| t.get_elem(c.leaf).unwrap().a + c.offset as u64));
        self.st.read("shift_path_by_one_offset");
        if a < n {
            let want = if a + 1 < n { Some(slice(&self.m, a + 1..a + 2)[0].a) } else { None };
            if r != Ok(want) {
                return self.find(&["C13"], format!("one unit after position {a} of {n}: unit {r:?}, expected {want:?}"));
            }
        }
        // filtered traversal accumulates what precedes
        let r = guarded(|| t.iter_with_filter(|c| (true, *c as usize)).map(|(r, e)| (r, *e)).collect::<Vec<_>>());
        self.st.read("iter_with_filter");
        if r.as_ref() != Ok(&self.elems()) {
            return self.find(&["C16"], format!("filtered traversal of everything gives {r:?}"));
        }
        // range search
        let r = guarded(|| t.range::<LengthFinder>(a..b).map(|r| (r.start.cursor, r.end.cursor)));
        if r != Ok(Some((ca, cb))) {
            self.find(&["C05"], format!("range {a}..{b} reports {r:?}"));
        }
    }
}
