//! C04: a tree of tens of millions of elements, built and taken down one element at a time.
use generic_btree::{BTree, BTreeTrait, Child, Cursor};
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use std::ops::Range;

#[derive(Debug)]
struct Flat;
#[derive(Debug, Clone, Default)]
struct D(i64);
impl CanRemove for D {
    fn can_remove(&self) -> bool {
        self.0 == 0
    }
}
#[derive(Debug, Clone)]
struct U(u32);
impl HasLength for U {
    fn rle_len(&self) -> usize {
        1
    }
}
impl Mergeable for U {
    fn can_merge(&self, _: &Self) -> bool {
        false
    }
    fn merge_right(&mut self, _: &Self) {
        unreachable!()
    }
    fn merge_left(&mut self, _: &Self) {
        unreachable!()
    }
}
impl TryInsert for U {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl Sliceable for U {
    fn _slice(&self, _: Range<usize>) -> Self {
        self.clone()
    }
}
impl CanRemove for U {
    fn can_remove(&self) -> bool {
        false
    }
}
impl BTreeTrait for Flat {
    type Elem = U;
    type Cache = i64;
    type CacheDiff = D;
    const USE_DIFF: bool = true;
    fn calc_cache_internal(cache: &mut i64, c: &[Child<Self>]) -> D {
        let n: i64 = c.iter().map(|c| c.cache()).sum();
        let d = n - *cache;
        *cache = n;
        D(d)
    }
    fn apply_cache_diff(c: &mut i64, d: &D) {
        *c += d.0;
    }
    fn merge_cache_diff(a: &mut D, b: &D) {
        a.0 += b.0;
    }
    fn get_elem_cache(_: &U) -> i64 {
        1
    }
    fn new_cache_to_diff(c: &i64) -> D {
        D(*c)
    }
    fn sub_cache(a: &i64, b: &i64) -> D {
        D(a - b)
    }
}

pub fn run(n: usize) {
    let mut t: BTree<Flat> = BTree::new();
    for i in 0..n {
        t.push(U(i as u32));
    }
    println!("pushed {n} elements, height {}", t.depth());
    assert_eq!(*t.root_cache(), n as i64);
    // work at the deepest point: split in the middle, at both ends, remove again
    let mid = t.last_leaf().unwrap();
    let first = t.first_leaf().unwrap();
    let mut hs = vec![];
    for k in 0..20_000u32 {
        let at = if k % 2 == 0 { mid } else { first };
        hs.push(t.insert_by_path(Cursor { leaf: at, offset: 0 }, U(k)).0);
    }
    assert_eq!(*t.root_cache(), n as i64 + 20_000);
    for h in hs {
        assert!(t.remove_leaf(h).is_some());
    }
    for l in [first, mid] {
        assert_eq!(t.prev_elem(Cursor { leaf: l, offset: 0 }).is_none(), l == first);
        assert_eq!(t.next_elem(Cursor { leaf: l, offset: 0 }).is_none(), l == mid);
    }
    let mut k = 0u32;
    for e in t.iter() {
        assert_eq!(e.0, k);
        k += 1;
    }
    assert_eq!(k as usize, n);
    println!("iterated {k} elements");
    let half = n / 2;
    for i in 0..half {
        let l = if i % 2 == 0 { t.first_leaf().unwrap() } else { t.last_leaf().unwrap() };
        t.remove_leaf(Cursor { leaf: l, offset: 0 }).unwrap();
    }
    assert_eq!(*t.root_cache(), (n - half) as i64);
    println!("removed {half} elements, height {}", t.depth());
}
