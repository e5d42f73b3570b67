//! C24: the same operations with next to no monitoring around them, so that an interpreter or a
//! sanitizer (which are the monitors here) sees as many library steps as possible.
use crate::elem::{arm_budget, take_work};
use crate::engine::*;
use crate::rng::Rng;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, LeafIndex, LengthFinder, OrdTreeMap, OrdTreeSet, Rope, UseLengthFinder};

pub fn run(mut rng: Rng, n_ops: usize) -> (Vec<Finding>, Stats, Vec<String>) {
    arm_budget(u64::MAX);
    let mut st = Stats { histories: 1, ..Stats::default() };
    let mut log = Log::default();
    let r = guarded(|| match rng.below(6) {
        0 => rope(&mut rng, n_ops, &mut st, &mut log),
        1 => ord(&mut rng, n_ops, &mut st, &mut log),
        2 | 3 => tree::<false>(&mut rng, n_ops, &mut st, &mut log),
        _ => tree::<true>(&mut rng, n_ops, &mut st, &mut log),
    });
    take_work();
    let mut f = vec![];
    if let Err(m) = r {
        // an ordinary panic is decided by the other properties
        f.push(Finding { tags: vec!["PANIC"], msg: m });
    }
    (f, st, log.0)
}

#[derive(Debug, Clone)]
struct Tiny(Vec<u32>);
impl HasLength for Tiny {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for Tiny {
    fn _slice(&self, r: std::ops::Range<usize>) -> Self {
        Tiny(self.0[r].to_vec())
    }
}
impl Mergeable for Tiny {
    fn can_merge(&self, r: &Self) -> bool {
        self.0.len() + r.0.len() < 5
    }
    fn merge_right(&mut self, r: &Self) {
        self.0.extend(&r.0)
    }
    fn merge_left(&mut self, l: &Self) {
        self.0.splice(0..0, l.0.iter().copied());
    }
}
impl TryInsert for Tiny {
    fn try_insert(&mut self, p: usize, e: Self) -> Result<(), Self> {
        if self.0.len() + e.0.len() > 3 {
            return Err(e);
        }
        self.0.splice(p..p, e.0);
        Ok(())
    }
}
impl CanRemove for Tiny {
    fn can_remove(&self) -> bool {
        self.0.is_empty()
    }
}
#[derive(Debug, Clone, Default)]
struct D(i32);
impl CanRemove for D {
    fn can_remove(&self) -> bool {
        self.0 == 0
    }
}
#[derive(Debug)]
struct T<const DIFF: bool>;
impl<const X: bool> UseLengthFinder<T<X>> for T<X> {
    fn get_len(c: &i32) -> usize {
        *c as usize
    }
}
impl<const X: bool> BTreeTrait for T<X> {
    type Elem = Tiny;
    type Cache = i32;
    type CacheDiff = D;
    const USE_DIFF: bool = X;
    fn calc_cache_internal(cache: &mut i32, c: &[Child<Self>]) -> D {
        let mut n = 0;
        for c in c {
            n += c.cache();
        }
        let d = n - *cache;
        *cache = n;
        D(d)
    }
    fn apply_cache_diff(c: &mut i32, d: &D) {
        *c += d.0;
    }
    fn merge_cache_diff(a: &mut D, b: &D) {
        a.0 += b.0;
    }
    fn get_elem_cache(e: &Tiny) -> i32 {
        e.0.len() as i32
    }
    fn new_cache_to_diff(c: &i32) -> D {
        D(*c)
    }
    fn sub_cache(a: &i32, b: &i32) -> D {
        D(a - b)
    }
}
fn elem(rng: &mut Rng, id: &mut u32) -> Tiny {
    let n = if rng.chance(1, 8) { 9 } else { rng.range(1, 3) };
    *id += n as u32;
    Tiny((*id - n as u32..*id).collect())
}

fn tree<const X: bool>(rng: &mut Rng, n_ops: usize, st: &mut Stats, log: &mut Log) {
    let mut t: BTree<T<X>> = BTree::new();
    let mut id = 0u32;
    let mut hs: Vec<LeafIndex> = vec![];
    let grow = rng.chance(2, 3);
    let pre = *rng.pick(&[0, 5, 14, 60]);
    for _ in 0..pre.min(n_ops) {
        hs.push(t.push(elem(rng, &mut id)).leaf);
    }
    let mut kept: Option<BTree<T<X>>> = None;
    for _ in 0..n_ops {
        let (h, len) = loop {
            if hs.is_empty() {
                hs.push(t.push(elem(rng, &mut id)).leaf);
            }
            let i = rng.below(hs.len());
            match t.get_elem(hs[i]) {
                Some(e) => break (hs[i], e.0.len()),
                None => {
                    hs.swap_remove(i);
                }
            }
        };
        let off = rng.range(0, len);
        let c = Cursor { leaf: h, offset: off };
        let total = *t.root_cache() as usize;
        let op = if grow && rng.chance(1, 2) { rng.below(4) } else { rng.below(25) };
        if !cfg!(miri) {
            log.push(format!("op {op} at {h:?}/{off} of {total}"));
        }
        match op {
            0 | 1 => {
                st.op("insert_by_path");
                let (x, s) = t.insert_by_path(c, elem(rng, &mut id));
                hs.push(x.leaf);
                hs.extend(s.arr.iter().copied());
            }
            2 => {
                st.op("push");
                hs.push(t.push(elem(rng, &mut id)).leaf);
            }
            3 => {
                st.op("prepend");
                hs.push(t.prepend(elem(rng, &mut id)).leaf);
            }
            4..=6 => {
                st.op("remove_leaf");
                t.remove_leaf(c);
            }
            7 => {
                st.op("insert_many_by_cursor");
                let k = *rng.pick(&[1, 3, 11, 13, 40]);
                let v: Vec<Tiny> = (0..k).map(|_| elem(rng, &mut id)).collect();
                t.insert_many_by_cursor(Some(c), v.into_iter());
            }
            8 | 9 => {
                let (a, b) = (rng.range(0, total), rng.range(0, total));
                let take = rng.below(6);
                if rng.chance(1, 2) {
                    st.op("drain");
                    let d = t.drain_by_query::<LengthFinder>(a.min(b)..a.max(b));
                    let mut d = d;
                    for _ in 0..take {
                        d.next();
                    }
                } else if let Some(r) = t.range::<LengthFinder>(a.min(b)..a.max(b)) {
                    st.op("update");
                    if a != b {
                        let gone = rng.chance(1, 3);
                        t.update(r.start.cursor..r.end.cursor, &mut |e: &mut Tiny| {
                            if gone {
                                e.0.clear();
                            }
                            None
                        });
                    }
                }
            }
            10 | 11 => {
                st.op("update_leaf");
                let how = rng.below(4);
                let extra = rng.chance(1, 3).then(|| elem(rng, &mut id));
                let r = t.update_leaf(h, |e| match how {
                    0 => {
                        e.0.clear();
                        (true, None, None)
                    }
                    1 => {
                        let k = e.0.len() / 2;
                        let r = e.split(k);
                        (true, Some(r), extra)
                    }
                    _ => {
                        e.0.iter_mut().for_each(|a| *a ^= 1 << 31);
                        (true, extra, None)
                    }
                });
                let _ = r;
            }
            12 => {
                st.op("clone");
                kept = Some(t.clone());
            }
            13 => {
                if let Some(k) = kept.take() {
                    st.op("swap with the clone");
                    t = k;
                }
            }
            14 => {
                st.op("iterate");
                let n = t.iter().map(|e| e.0.len()).sum::<usize>();
                let m = t.iter_range(..).map(|x| x.elem.0.len()).sum::<usize>();
                assert_eq!(n, m);
            }
            15 => {
                st.op("navigate");
                let (p, n) = (t.prev_elem(c), t.next_elem(c));
                for x in [p, n, t.prefer_left(c), t.prefer_right(c), t.shift_path_by_one_offset(c)].into_iter().flatten() {
                    let _ = t.compare_pos(c, x);
                }
                t.visit_previous_caches(c, |_| {});
            }
            16 => {
                st.op("query");
                let k = rng.range(0, total);
                let _ = t.query::<LengthFinder>(&k);
            }
            17 => {
                st.op("collect");
                let k = rng.below(30);
                let v: Vec<Tiny> = (0..k).map(|_| elem(rng, &mut id)).collect();
                t = v.into_iter().collect();
                hs.clear();
                hs.extend(t.first_leaf());
            }
            20 => {
                st.op("update_leaf_by_search");
                if total > 0 && X {
                    let k = rng.below(total);
                    let how = rng.below(4);
                    let extra = elem(rng, &mut id);
                    t.update_leaf_by_search::<LengthFinder>(&k, |e, q| match how {
                        0 => {
                            let n = e.0.len() as i32;
                            e.0.clear();
                            Some((D(-n), None, None))
                        }
                        1 => {
                            let k = extra.0.len() as i32;
                            Some((D(k), Some(extra), None))
                        }
                        2 => {
                            e.0.insert(q.cursor.offset, 7);
                            Some((D(1), None, None))
                        }
                        _ => None,
                    });
                }
            }
            21 => {
                st.op("update_leaves_with_arg_in_ranges");
                let mut args = vec![];
                for _ in 0..rng.range(1, 5) {
                    let h = *rng.pick(&hs);
                    if let Some(n) = t.get_elem(h).map(|e| e.0.len()) {
                        let a = rng.below(n);
                        args.push((h, a..rng.range(a + 1, n), 1u32 << 30));
                    }
                }
                hs.extend(t.update_leaves_with_arg_in_ranges(args, |e, x| e.0.iter_mut().for_each(|a| *a ^= *x)));
            }
            22 => {
                st.op("update_cache_and_elem_with_filter");
                let mut k = 0u64;
                t.update_cache_and_elem_with_filter(
                    |c| {
                        k += 1;
                        crate::rng::mix(k, *c as u64) % 4 != 0
                    },
                    |e| e.0.iter_mut().for_each(|a| *a ^= 2),
                );
            }
            23 => {
                st.op("get_elem_mut+recursive_update_cache");
                if let Some(e) = t.get_elem_mut(h) {
                    let n = e.0.len() as i32;
                    e.0.push(1);
                    e.0.extend([2, 3]);
                    let d = e.0.len() as i32 - n;
                    t.recursive_update_cache(h.into(), X, (X && rng.chance(1, 2)).then_some(D(d)));
                }
            }
            24 => {
                st.op("drain between two search results");
                let (a, b) = (rng.range(0, total), rng.range(0, total));
                if let Some(r) = t.range::<LengthFinder>(a.min(b)..a.max(b)) {
                    let k = rng.below(8);
                    let v: Vec<Tiny> = t.drain(r).take(k).collect();
                    drop(v);
                }
                let k = rng.range(0, *t.root_cache() as usize);
                hs.push(t.insert::<LengthFinder>(&k, elem(rng, &mut id)).0.leaf);
            }
            18 if rng.chance(1, 4) => {
                st.op("clear");
                t.clear();
                hs.clear();
            }
            _ => {
                st.op("filtered traversal");
                let r = std::cell::RefCell::new(&mut *rng);
                let k = t.iter_with_filter(|_| (r.borrow_mut().chance(7, 8), 1u32)).count();
                let _ = k;
            }
        }
        st.states += 1;
        if !cfg!(miri) {
            st.cases.insert(crate::rng::mix(op as u64 * 1000 + t.node_len() as u64, *t.root_cache() as u64));
        }
    }
    st.max_leaves = st.max_leaves.max(t.node_len() as u64);
    st.shapes.insert(crate::rng::mix(t.node_len() as u64, id as u64));
}

fn rope(rng: &mut Rng, n_ops: usize, st: &mut Stats, log: &mut Log) {
    let mut r = Rope::new();
    let mut caret = 0;
    for _ in 0..n_ops {
        let n = r.len();
        let p = match rng.below(4) {
            0 => caret.min(n),
            _ => rng.range(0, n),
        };
        if rng.chance(1, 60) {
            st.op("rope clear");
            r.clear();
            continue;
        }
        if !cfg!(miri) {
            log.push(format!("rope at {p} of {n}"));
        }
        if rng.chance(3, 5) {
            st.op("rope insert");
            let k = *rng.pick(&[1, 1, 1, 5, 128, 200, 300]);
            r.insert(p, &"x".repeat(k));
            caret = p + k;
        } else {
            st.op("rope delete_range");
            let q = (p + *rng.pick(&[1, 3, 100, 300])).min(n);
            r.delete_range(p..q);
            caret = p;
        }
        st.states += 1;
        if !cfg!(miri) {
            st.cases.insert(crate::rng::mix(p as u64, n as u64));
        }
    }
    let _ = r.to_string().len();
}

fn ord(rng: &mut Rng, n_ops: usize, st: &mut Stats, log: &mut Log) {
    let mut m: OrdTreeMap<String, Box<u64>> = OrdTreeMap::new();
    let mut s: OrdTreeSet<u32> = OrdTreeSet::new();
    let d = *rng.pick(&[5, 30, 200]);
    for _ in 0..n_ops {
        let k = rng.below(d);
        if !cfg!(miri) {
            log.push(format!("key {k}"));
        }
        if rng.chance(2, 3) {
            st.op("map and set insert");
            m.insert(k.to_string(), Box::new(k as u64));
            s.insert(k as u32);
        } else {
            st.op("map and set delete");
            m.delete(&k.to_string());
            s.delete(&(k as u32));
        }
        st.states += 1;
        if !cfg!(miri) {
            st.cases.insert(crate::rng::mix(k as u64, m.len() as u64));
        }
    }
    assert_eq!(m.iter().count(), m.len());
    assert_eq!(s.iter().count(), s.len());
}
