//! Observes the whole structure of a tree through the public API only: a search whose `find_node`
//! is steered by us is shown every child list with its handles and summaries.
use crate::elem::*;
use generic_btree::{ArenaIndex, BTree, BTreeTrait, Child, FindResult, LeafIndex, Query};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

struct ProbeState<C> {
    path: Vec<u8>,
    from: usize,
    levels: Vec<Vec<(ArenaIndex, C)>>,
    seen: usize,
    bad: Option<String>,
}
type Shared<C> = Rc<RefCell<ProbeState<C>>>;
struct Probe<C> {
    st: Shared<C>,
    level: usize,
}
impl<B: BTreeTrait> Query<B> for Probe<B::Cache> {
    type QueryArg = Shared<B::Cache>;
    fn init(t: &Self::QueryArg) -> Self {
        Probe {
            st: t.clone(),
            level: 0,
        }
    }
    fn find_node(&mut self, _: &Self::QueryArg, children: &[Child<B>]) -> FindResult {
        step();
        let mut st = self.st.borrow_mut();
        let d = self.level;
        self.level += 1;
        st.seen = self.level;
        if d > 64 {
            panic!("descent deeper than 64 levels");
        }
        if d >= st.from {
            let v: Vec<_> = children.iter().map(|c| (c.arena, c.cache.clone())).collect();
            st.levels.truncate(d);
            st.levels.push(v);
        }
        let slot = st.path.get(d).copied().unwrap_or(0) as usize;
        if slot >= children.len() {
            st.bad = Some(format!("child list at level {d} changed between two searches or is empty"));
            panic!("probe: slot {slot} of {}", children.len());
        }
        FindResult::new_found(slot, 0)
    }
    fn confirm_elem(&mut self, _: &Self::QueryArg, _: &B::Elem) -> (usize, bool) {
        (0, true)
    }
}

#[derive(Clone, Debug)]
pub struct LeafRec {
    pub idx: LeafIndex,
    /// index of the first unit in the flat sequence
    pub start: usize,
    /// number of units (markers count)
    pub n: usize,
    /// length position
    pub pos: usize,
    /// rle length
    pub len: usize,
    /// slot in its parent
    pub slot: u8,
    /// ordinal of the first leaf under the same parent
    pub parent_first: u32,
    /// sum over all levels of the slot index = left siblings along the path
    pub left_siblings: u32,
}

#[derive(Clone, Debug)]
pub struct NodeRec<C> {
    pub arena: ArenaIndex,
    pub cache: C,
    pub level: usize,
    pub leaf_start: usize,
    pub leaf_end: usize,
    pub children: usize,
}

pub struct Snap<B: TreeKind> {
    pub leaves: Vec<LeafRec>,
    pub leaf_caches: Vec<B::Cache>,
    pub by_idx: FxMap<LeafIndex, usize>,
    /// all internal nodes except the root, in order of first visit
    pub nodes: Vec<NodeRec<B::Cache>>,
    pub root_children: usize,
    /// number of internal levels (root = 1), 0 for an empty tree
    pub depth: usize,
    pub total: usize,
    pub shape: u64,
    /// leaf-parent handle for each leaf, when it is not the root
    pub parents: Vec<Option<ArenaIndex>>,
}

impl<B: TreeKind> Default for Snap<B> {
    fn default() -> Self {
        Snap {
            leaves: vec![],
            leaf_caches: vec![],
            by_idx: Default::default(),
            nodes: vec![],
            root_children: 0,
            depth: 0,
            total: 0,
            shape: 0,
            parents: vec![],
        }
    }
}

impl<B: TreeKind> Snap<B> {
    /// Err((is_structure, message))
    pub fn take(tree: &BTree<B>) -> Result<Snap<B>, String> {
        let mut s = Snap::<B>::default();
        let st: Shared<B::Cache> = Rc::new(RefCell::new(ProbeState {
            path: vec![],
            from: 0,
            levels: vec![],
            seen: 0,
            bad: None,
        }));
        let mut open: Vec<usize> = vec![]; // open node per level (level >= 1)
        let mut flat = 0usize;
        let mut pos = 0usize;
        let mut h = Fx::default();
        let mut first = true;
        let limit = 4 * tree.node_len() + 64;
        loop {
            let r = tree.query::<Probe<B::Cache>>(&st);
            if first {
                if r.is_none() {
                    return Ok(s);
                }
                let d = st.borrow().levels.len();
                s.depth = d;
                s.root_children = st.borrow().levels[0].len();
                h.write_usize(d);
            }
            let mut b = st.borrow_mut();
            if let Some(m) = &b.bad {
                return Err(m.clone());
            }
            if b.seen != s.depth || b.levels.len() != s.depth {
                return Err(format!("elements at different depths: {} and {}", s.depth, b.seen));
            }
            let d = s.depth;
            let from = if first { 1 } else { b.from };
            first = false;
            b.path.resize(d.saturating_sub(1), 0);
            // open the internal nodes on the new part of the path
            for lv in from..d {
                let slot = b.path[lv - 1] as usize;
                let (arena, cache) = b.levels[lv - 1][slot].clone();
                if !matches!(arena, ArenaIndex::Internal(_)) {
                    return Err("element found at an internal level".into());
                }
                open.truncate(lv - 1);
                open.push(s.nodes.len());
                let children = b.levels[lv].len();
                h.write_usize(children + 64 * lv);
                s.nodes.push(NodeRec {
                    arena,
                    cache,
                    level: lv,
                    leaf_start: s.leaves.len(),
                    leaf_end: 0,
                    children,
                });
            }
            // leaves
            let left: u32 = b.path.iter().map(|&x| x as u32).sum();
            let first_leaf = s.leaves.len() as u32;
            let parent = open.last().map(|&o| s.nodes[o].arena);
            for (slot, (arena, cache)) in b.levels[d - 1].iter().enumerate() {
                let ArenaIndex::Leaf(raw) = *arena else {
                    return Err("internal node found at the element level".into());
                };
                let idx: LeafIndex = raw.into();
                let Some(e) = tree.get_elem(idx) else {
                    return Err(format!("child list refers to the removed element {idx:?}"));
                };
                let n = e.atoms.len();
                let len = if e.marker { 0 } else { n };
                if s.by_idx.insert(idx, s.leaves.len()).is_some() {
                    return Err(format!("element {idx:?} appears twice in the tree"));
                }
                s.leaves.push(LeafRec {
                    idx,
                    start: flat,
                    n,
                    pos,
                    len,
                    slot: slot as u8,
                    parent_first: first_leaf,
                    left_siblings: left + slot as u32,
                });
                s.leaf_caches.push(cache.clone());
                s.parents.push(parent);
                h.write_usize(n);
                flat += n;
                pos += len;
            }
            if s.leaves.len() > limit || s.nodes.len() > limit {
                return Err("more nodes reachable than the tree reports to have (cycle or sharing)".into());
            }
            for &o in &open {
                s.nodes[o].leaf_end = s.leaves.len();
            }
            // advance
            let mut lv = d - 1;
            loop {
                if lv == 0 {
                    s.total = pos;
                    s.shape = h.finish();
                    return Ok(s);
                }
                lv -= 1;
                if (b.path[lv] as usize) + 1 < b.levels[lv].len() {
                    b.path[lv] += 1;
                    b.path.truncate(lv + 1);
                    b.path.resize(d - 1, 0);
                    b.from = lv + 1;
                    break;
                }
            }
            drop(b);
        }
    }

    /// leaf ordinal holding length position t (t < total)
    pub fn leaf_at(&self, t: usize) -> usize {
        let mut lo = 0;
        let mut hi = self.leaves.len();
        // last leaf with pos <= t and len > 0 covering it
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            if self.leaves[m].pos <= t {
                lo = m
            } else {
                hi = m
            }
        }
        // zero-length leaves share their pos with the following one, so lo is the last of them
        lo
    }

    pub fn shape_class(&self) -> u64 {
        let mut h = Fx::default();
        self.shape.hash(&mut h);
        h.finish()
    }
}
