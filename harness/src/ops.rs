//! The operations: choose arguments, call the real tree, edit the model, check what was returned.
use crate::elem::*;
use crate::engine::*;
use crate::snap::*;
use generic_btree::{BTree, Cursor, LeafIndex, LengthFinder, QueryResult};
use OpK::*;

pub fn to_elem(ms: &[M]) -> Elem {
    Elem {
        atoms: ms.iter().map(|m| Atom::new(m.id, m.color, m.attr)).collect(),
        marker: ms.first().map(|m| m.marker).unwrap_or(false),
        inst: Inst::default(),
    }
}
pub fn from_elem(e: &Elem, out: &mut Vec<M>) {
    out.extend(e.atoms.iter().map(|a| M { id: a.id, color: a.color, attr: a.attr, marker: e.marker }));
}
pub fn ids(ms: &[M]) -> String {
    let v: Vec<String> = ms.iter().take(24).map(|m| format!("{}{}", m.id, if m.marker { "*" } else { "" })).collect();
    format!("[{}{}]", v.join(","), if ms.len() > 24 { ",..." } else { "" })
}

/// an iterator whose size hint is right but may be anything from exact to unknown; it starts over with
/// nothing when asked again after its end
struct Hinted {
    it: std::vec::IntoIter<Elem>,
    hint: (usize, Option<usize>),
}

impl Hinted {
    fn hint(rng: &mut crate::rng::Rng, n: usize) -> (usize, Option<usize>) {
        match rng.below(6) {
            0 | 1 => (n, Some(n)),
            2 => (0, None),
            3 => (n, None),
            4 => (rng.range(0, n), None),
            _ => (rng.range(0, n), Some(n + rng.below(40))),
        }
    }
}

impl Iterator for Hinted {
    type Item = Elem;
    fn next(&mut self) -> Option<Elem> {
        let e = self.it.next()?;
        self.hint.0 = self.hint.0.saturating_sub(1);
        self.hint.1 = self.hint.1.map(|x| x - 1);
        Some(e)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

impl<B: TreeKind> Eng<B>

{
    pub fn history(&mut self) {
        if self.cfg.start > 0 {
            let n = self.cfg.start;
            if self.cfg.mono.is_some() && self.rng.chance(1, 2) {
                self.grow_tall(n);
            } else {
                self.rebuild(n);
            }
        }
        if self.cfg.tall > 0 {
            let n = self.cfg.tall;
            self.grow_tall(n);
        }
        let at = |k| OPS.iter().position(|&o| o == k).unwrap();
        if self.cfg.mono == Some(UpdateBySearch) && !B::DIFFABLE {
            self.cfg.mono = Some(UpdateLeaf);
            self.cfg.weights.swap(at(UpdateLeaf), at(UpdateBySearch));
        }
        if self.cfg.mono == Some(Update) && !B::DIFFABLE {
            self.cfg.mono = Some(Drain);
            self.cfg.weights.swap(at(Update), at(Drain));
        }
        let mut done = 0;
        while done < self.cfg.n_ops && !self.dead {
            done += 1;
            let mut w = self.cfg.weights;
            let n = self.snap.leaves.len();
            let grow = n < self.cfg.target;
            for (i, k) in OPS.iter().enumerate() {
                let grows = matches!(k, InsertByPath | InsertQuery | Push | Prepend | InsertMany);
                let shrinks = matches!(k, RemoveLeaf | Drain);
                if (grow && shrinks) || (!grow && grows) {
                    w[i] = (w[i] / 3).max(w[i].min(1));
                }
                if !B::DIFFABLE && matches!(k, UpdateBySearch | Batch) {
                    w[i] = 0;
                }
                if n == 0 && matches!(k, InsertByPath | RemoveLeaf | Update | UpdateLeaf | UpdateBySearch | Batch | Direct | InPlace) {
                    w[i] = 0;
                }
                if self.grave.is_empty() && *k == RemoveStale {
                    w[i] = 0;
                }
                if self.model.len() > 60_000 && grows {
                    w[i] = 0;
                }
            }
            if w.iter().sum::<u32>() == 0 {
                w[2] = 1;
            }
            let k = OPS[self.rng.weighted(&w)];
            if self.rng.chance(1, 40) {
                self.hot = self.rng.below(1000) as f64 / 1000.0;
            }
            // sometimes turn a growing history into a shrinking one
            if self.cfg.mono.is_none() && self.rng.chance(1, 60) {
                self.cfg.target = match self.rng.below(4) {
                    0 => 0,
                    1 => self.cfg.target / 4,
                    2 => self.cfg.target,
                    _ => self.cfg.target * 2 + 3,
                }
                .min(20_000);
            }
            self.apply(k);
            if self.dead {
                break;
            }
            if self.rng.below(1000) < self.cfg.read_pm {
                self.reads();
            }
        }
        if !self.dead {
            self.finish();
        }
    }

    /// everything the trees own is released when they go
    fn finish(&mut self) {
        if self.shadow.is_some() {
            self.check_shadow();
        }
        let t = std::mem::take(&mut self.tree);
        let s = self.shadow.take();
        if let Err(m) = guarded(move || drop((t, s))) {
            self.find(&["C18"], format!("dropping the tree panicked: {m}"));
        }
        if live_elems() != 0 {
            self.find(&["C18"], format!("{} elements are still alive after the trees were dropped", live_elems()));
        }
        if live() != self.base_live {
            self.find(&["C18"], format!("{} units are still alive after the trees were dropped", live() - self.base_live));
        }
    }

    fn note(&mut self, s: String) {
        self.log.push(s);
    }

    pub fn apply(&mut self, k: OpK) {
        self.st.op(op_name(k));
        let old_model = self.model.clone();
        let old = self.snap.clone();
        let touched = match k {
            InsertByPath => self.op_insert_by_path(),
            InsertQuery => self.op_insert_query(),
            Push => self.op_push(true),
            Prepend => self.op_push(false),
            RemoveLeaf => self.op_remove_leaf(),
            RemoveStale => self.op_remove_stale(),
            InsertMany => self.op_insert_many(),
            Drain => self.op_drain(),
            DrainNone => self.op_drain_none(),
            Update => self.op_update(),
            UpdateLeaf => self.op_update_leaf(),
            UpdateBySearch => self.op_update_by_search(),
            Batch => self.op_batch(),
            Direct => self.op_direct(),
            InPlace => self.op_in_place(),
            CloneT => self.op_clone(),
            Clear => self.op_clear(),
            Rebuild => {
                let n = self.rebuild_size();
                self.rebuild(n);
                return;
            }
        };
        if self.dead {
            return;
        }
        self.settle(k, &old_model, &old, &touched);
        if self.dead {
            return;
        }
        // handles created by the operation, for the return-value monitors
        let ret = std::mem::take(&mut self.pending);
        self.check_returns(k, ret, &old);
    }

    // ---------------------------------------------------------------- insertion

    fn op_insert_by_path(&mut self) -> Touched {
        let (l, o) = self.pick_cursor();
        let at = self.flat(l, o);
        let ms = self.gen_elem();
        self.note(format!("insert_by_path(leaf#{l}/{}, offset {o}) units {}", self.snap.leaves.len(), ids(&ms)));
        let c = self.cursor(l, o);
        let e = to_elem(&ms);
        let r = self.run(InsertByPath, |t| t.insert_by_path(c, e));
        let Some((cur, sp)) = r else { return Touched::default() };
        self.model.splice(at..at, ms.iter().copied());
        self.pending = Pending::Insert { at, n: ms.len(), cur, split: Some(sp.arr.to_vec()) };
        Touched::iv(at, at)
    }

    fn op_insert_query(&mut self) -> Touched {
        let total = self.snap.total;
        let t = self.pick_pos();
        let ms = self.gen_elem();
        self.note(format!("insert::<LengthFinder>({t}) of total {total} units {}", ids(&ms)));
        let e = to_elem(&ms);
        let r = self.run(InsertQuery, |tr| tr.insert::<LengthFinder>(&t, e));
        let Some((cur, sp)) = r else { return Touched::default() };
        let (at, hi) = if t < total {
            let f = self.flat_of_pos(t);
            (f, f)
        } else {
            // anywhere among the zero-length elements at the end is position `total`
            let lo = self.model.iter().rposition(|m| !m.marker).map(|i| i + 1).unwrap_or(0);
            let hi = self.model.len();
            let want = ms[0].id;
            let mut found = hi;
            if let Some(leaf) = self.tree.get_elem(cur.leaf) {
                if leaf.atoms.iter().any(|a| a.id == want) {
                    // locate by content
                    if let Ok(Ok(s)) = guarded(|| Snap::take(&self.tree)) {
                        if let Some(&i) = s.by_idx.get(&cur.leaf) {
                            let off = leaf.atoms.iter().position(|a| a.id == want).unwrap();
                            found = (s.leaves[i].start + off).clamp(lo, hi);
                        }
                    }
                }
            }
            (found, found)
        };
        let _ = hi;
        self.model.splice(at..at, ms.iter().copied());
        self.pending = Pending::Insert { at, n: ms.len(), cur, split: Some(sp.arr.to_vec()) };
        Touched::iv(at, at)
    }

    fn op_push(&mut self, back: bool) -> Touched {
        let ms = self.gen_elem();
        let at = if back { self.model.len() } else { 0 };
        self.note(format!("{} units {}", if back { "push" } else { "prepend" }, ids(&ms)));
        let e = to_elem(&ms);
        let r = if back { self.run(Push, |t| t.push(e)) } else { self.run(Prepend, |t| t.prepend(e)) };
        let Some(cur) = r else { return Touched::default() };
        self.model.splice(at..at, ms.iter().copied());
        self.pending = Pending::Insert { at, n: ms.len(), cur, split: None };
        Touched::iv(at, at)
    }

    fn op_insert_many(&mut self) -> Touched {
        let empty = self.snap.leaves.is_empty();
        let mini = self.cfg.mini;
        let n = if !mini && empty && self.rng.chance(1, 40) {
            *self.rng.pick(&[1200, 1330, 1331, 1332, 1342, 1343, 1452, 1453, 1464, 1584, 1728, 1729, 2662, 4000])
        } else if !mini && self.rng.chance(1, 400) {
            self.rng.range(150, 3000)
        } else { match self.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => self.rng.range(9, 14),
            4 => self.rng.range(1, 150),
            5 => *self.rng.pick(&[10, 11, 12, 13, 23, 24, 25, 100, 120, 121, 132, 133, 144, 145]),
            _ => self.rng.range(2, 9),
        }};
        let mut all = vec![];
        let mut elems = vec![];
        // a separate bias so that mergeable neighbours, and mixtures, are common
        let one_color = self.rng.chance(1, 3);
        for _ in 0..n {
            let mut e = self.gen_elem();
            if one_color {
                e.iter_mut().for_each(|m| m.color = 1);
            }
            elems.push(to_elem(&e));
            all.extend(e);
        }
        let (c, at, d) = if empty {
            (None, 0, "None (empty tree)".to_string())
        } else {
            let (l, o) = self.pick_cursor();
            (Some(self.cursor(l, o)), self.flat(l, o), format!("leaf#{l}/{}, offset {o}", self.snap.leaves.len()))
        };
        self.note(format!("insert_many_by_cursor({d}) {n} elements, units {}", ids(&all)));
        let hint = Hinted::hint(&mut self.rng, elems.len());
        self.given = elems.len();
        let r = self.run(InsertMany, move |t| t.insert_many_by_cursor(c, Hinted { it: elems.into_iter(), hint }));
        if r.is_none() {
            return Touched::default();
        }
        self.model.splice(at..at, all);
        Touched::iv(at, at)
    }

    pub fn rebuild_size(&mut self) -> usize {
        match self.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => self.rng.range(2, 30),
            3 => *self.rng.pick(&[9, 10, 11, 12, 99, 100, 101, 109, 110, 111, 120, 121]),
            4 if !self.cfg.mini && self.rng.chance(1, 40) => *self.rng.pick(&[9999, 10000, 10001, 10010, 10011, 4000, 5000]),
            4 => *self.rng.pick(&[999, 1000, 1001, 1010, 1100, 1101, 144, 145, 1728]),
            5 => self.rng.range(1, 400),
            _ => self.rng.range(1, 120),
        }
    }

    pub fn rebuild(&mut self, n: usize) {
        if !self.log.0.is_empty() {
            self.st.op(op_name(Rebuild));
        }
        let mut all = vec![];
        let mut elems = vec![];
        for _ in 0..n {
            let e = self.gen_elem();
            elems.push(to_elem(&e));
            all.extend(e);
        }
        self.note(format!("from_iter of {n} elements, {} units", all.len()));
        let hint = Hinted::hint(&mut self.rng, elems.len());
        self.given = elems.len();
        let r = self.run(Rebuild, move |t| *t = Hinted { it: elems.into_iter(), hint }.collect::<BTree<B>>());
        if r.is_none() {
            return;
        }
        self.model = all;
        self.grave.clear();
        self.snap = Default::default();
        self.settle(Rebuild, &[], &Snap::default(), &Touched::all());
        if !self.dead && self.snap.leaves.len() != n {
            let m = format!("{} elements in the tree, {n} given", self.snap.leaves.len());
            self.opfind(Rebuild, &[], m);
        }
        if !self.dead && self.cfg.prop == "C12" {
            self.reads();
        }
    }

    /// one by one, at the ends or at one place inside, without merging: sparse nodes and many levels;
    /// the state is observed once at the end
    pub fn grow_tall(&mut self, n: usize) {
        self.st.op("tall tree grown element by element");
        let p = policy();
        POLICY.with(|c| c.set(Policy { merge: MergePolicy::Never, absorb: MergePolicy::Never, ..p }));
        let inside = self.rng.below(4);
        let mut left: Vec<M> = vec![];
        let mut right: Vec<Vec<M>> = vec![];
        let first = self.gen_elem();
        let e = to_elem(&first);
        let Some(mut lc) = self.run(Push, |t| t.push(e)) else { return };
        left.extend(first);
        let mut rc: Option<generic_btree::LeafIndex> = None;
        for _ in 1..n {
            let ms = self.gen_elem();
            let e = to_elem(&ms);
            let go_left = match inside {
                0 => true,
                1 => false,
                2 => self.rng.chance(1, 2),
                _ => self.rng.chance(9, 10),
            };
            if go_left {
                let l = lc.leaf;
                let back = right.is_empty() && self.rng.chance(1, 2);
                let r = self.run(InsertByPath, |t| {
                    if back {
                        t.push(e)
                    } else {
                        let o = t.get_elem(l).map(|e| if e.marker { 0 } else { e.atoms.len() }).unwrap();
                        if o == 0 {
                            // after a zero-length element: only reachable as "before the next" or at the end
                            match t.next_elem(generic_btree::Cursor { leaf: l, offset: 0 }) {
                                Some(c) => t.insert_by_path(c, e).0,
                                None => t.push(e),
                            }
                        } else {
                            t.insert_by_path(generic_btree::Cursor { leaf: l, offset: o }, e).0
                        }
                    }
                });
                let Some(c) = r else { return };
                lc = c;
                left.extend(ms);
            } else {
                let at = rc;
                let r = self.run(InsertByPath, |t| match at {
                    Some(leaf) => t.insert_by_path(generic_btree::Cursor { leaf, offset: 0 }, e).0,
                    None => t.push(e),
                });
                let Some(c) = r else { return };
                rc = Some(c.leaf);
                right.push(ms);
            }
        }
        POLICY.with(|c| c.set(if self.rng.chance(1, 3) { p } else { Policy { merge: MergePolicy::Never, absorb: MergePolicy::Never, ..p } }));
        right.reverse();
        left.extend(right.into_iter().flatten());
        self.model = left;
        self.note(format!("{n} single insertions, kind {inside}"));
        self.settle(InsertByPath, &[], &Snap::default(), &Touched::all());
        if !self.dead && self.cfg.tall > 0 {
            self.reads();
            self.reads();
        }
    }

    // ---------------------------------------------------------------- removal

    fn op_remove_leaf(&mut self) -> Touched {
        let (l, o) = self.pick_cursor();
        let lr = self.snap.leaves[l].clone();
        self.note(format!("remove_leaf(leaf#{l}/{})", self.snap.leaves.len()));
        let c = self.cursor(l, o);
        let Some(r) = self.run(RemoveLeaf, |t| t.remove_leaf(c)) else { return Touched::default() };
        let want: Vec<M> = self.model.splice(lr.start..lr.start + lr.n, []).collect();
        let mut got = vec![];
        match &r {
            Some(e) => from_elem(e, &mut got),
            None => self.opfind(RemoveLeaf, &["C06"], "returned None for an element of the tree".into()),
        }
        if r.is_some() && got != want {
            self.opfind(RemoveLeaf, &[], format!("returned {} instead of {}", ids(&got), ids(&want)));
        }
        Touched::iv(lr.start, lr.start + lr.n)
    }

    fn op_remove_stale(&mut self) -> Touched {
        let h = *self.rng.pick(&self.grave);
        let o = self.rng.below(3);
        self.note(format!("remove_leaf(stale handle {h:?})"));
        let Some(r) = self.run(RemoveStale, |t| t.remove_leaf(Cursor { leaf: h, offset: o })) else { return Touched::default() };
        if r.is_some() {
            self.opfind(RemoveStale, &[], format!("removing an already removed element returned {r:?}"));
        }
        Touched::default()
    }

    fn op_drain(&mut self) -> Touched {
        let n_leaves = self.snap.leaves.len();
        let total = self.snap.total;
        let by_query = n_leaves == 0 || self.rng.chance(1, 3);
        let (mut a, mut b) = (0, 0);
        let mut q: Option<(QueryResult, QueryResult)> = None;
        let mut t = (0, 0);
        let mut slack = 0usize; // zero-length elements at the very end may or may not be included
        if by_query {
            let mut x = self.pick_pos();
            let mut y = if self.cfg.mono.is_some() || self.rng.chance(1, 3) { (x + self.rng.below(6 + if self.cfg.mono.is_some() { self.cfg.start / 40 } else { 0 })).min(total) } else { self.pick_pos() };
            if x > y {
                std::mem::swap(&mut x, &mut y);
            }
            t = (x, y);
            let lo = self.model.iter().rposition(|m| !m.marker).map(|i| i + 1).unwrap_or(0);
            a = if x < total { self.flat_of_pos(x) } else { lo };
            b = if y < total { self.flat_of_pos(y) } else { lo };
            slack = if y == total { self.model.len() - lo } else { 0 };
            self.note(format!("drain_by_query({x}..{y}) of total {total}, {n_leaves} elements"));
        } else {
            let (c, d) = self.pick_range();
            a = self.flat(c.0, c.1);
            b = self.flat(d.0, d.1);
            q = Some((
                QueryResult { cursor: self.cursor(c.0, c.1), found: true },
                QueryResult { cursor: self.cursor(d.0, d.1), found: self.rng.chance(1, 2) },
            ));
            self.note(format!("drain(leaf#{} offset {} .. leaf#{} offset {}) of {n_leaves} elements", c.0, c.1, d.0, d.1));
        }
        let take = match self.rng.below(5) {
            0 => 0,
            1 => 1,
            2 => self.rng.below(20),
            _ => usize::MAX,
        };
        let after = self.rng.below(3);
        self.note(format!("  taking {} item(s)", if take == usize::MAX { "all".to_string() } else { take.to_string() }));
        let direct = self.rng.chance(1, 3);
        take_work();
        let budget = 400_000 + 3000 * (self.model.len() as u64 + n_leaves as u64);
        arm_budget(budget);
        let mut items: Vec<Elem> = vec![];
        let mut err: Option<String> = None;
        let mut ended = false;
        let mut after_end = None;
        {
            let tree = &mut self.tree;
            match guarded(|| match q {
                Some((s, e)) if direct => generic_btree::iter::Drain::new(tree, Some(s), Some(e)),
                Some((s, e)) => tree.drain(s..e),
                None => tree.drain_by_query::<LengthFinder>(t.0..t.1),
            }) {
                Ok(mut d) => {
                    while items.len() < take {
                        match guarded(|| d.next()) {
                            Ok(Some(e)) => items.push(e),
                            Ok(None) => {
                                ended = true;
                                for _ in 0..after {
                                    match guarded(|| d.next()) {
                                        Ok(Some(e)) => after_end = Some(e),
                                        Ok(None) => {}
                                        Err(m) => err = Some(format!("next() after the end panicked: {m}")),
                                    }
                                }
                                break;
                            }
                            Err(m) => {
                                err = Some(format!("next() panicked: {m}"));
                                break;
                            }
                        }
                    }
                    if let Err(m) = guarded(move || drop(d)) {
                        err.get_or_insert(format!("dropping the drain panicked: {m}"));
                    }
                }
                Err(m) => err = Some(format!("creating the drain panicked: {m}")),
            }
        }
        self.last_steps = STEPS.with(|s| s.get()) + take_work().calc_children;
        arm_budget(u64::MAX);
        if let Some(m) = err {
            std::mem::forget(items);
            self.opfind(Drain, if m.contains("STEP-BUDGET") { &["C04"] } else { &[] }, m);
            return Touched::default();
        }
        if let Some(e) = after_end {
            self.opfind(Drain, &[], format!("yielded {e:?} after it had ended"));
        }
        let mut got = vec![];
        for e in &items {
            from_elem(e, &mut got);
        }
        if slack > 0 {
            // where exactly the two ends fall among trailing zero-length elements is not specified: take it
            // from what remains
            let lo = b;
            let left: FxSet<u32> = match guarded(|| Snap::take(&self.tree)) {
                Ok(Ok(s)) => s.leaves.iter().flat_map(|l| self.tree.get_elem(l.idx).unwrap().atoms.iter().map(|a| a.id)).collect(),
                _ => Default::default(),
            };
            let mut gone: Vec<usize> = (lo..self.model.len()).filter(|&i| !left.contains(&self.model[i].id)).collect();
            if t.0 == total {
                // empty range: may drop nothing but markers between the two equal ends: nothing
                gone.clear();
            }
            b = lo + gone.len();
            if gone.last().map(|&g| g + 1 != b).unwrap_or(false) {
                self.opfind(Drain, &[], "removed zero-length elements beyond the end of the range".into());
                return Touched::default();
            }
        }
        let want: Vec<M> = self.model.splice(a..b, []).collect();
        let cmp = if ended || take == usize::MAX { got == want } else { want.starts_with(&got) };
        if !cmp {
            self.opfind(Drain, &[], format!("yielded {} of the range {}", ids(&got), ids(&want)));
        }
        if take != usize::MAX && items.len() < take && !ended {
            self.opfind(Drain, &[], "ended early".into());
        }
        if items.iter().any(|e| e.atoms.is_empty()) {
            self.opfind(Drain, &[], "yielded an empty element".into());
        }
        drop(items);
        Touched::iv(a, b)
    }

    fn op_drain_none(&mut self) -> Touched {
        let n = self.snap.leaves.len();
        self.note("Drain::new with a missing end".into());
        let mut s = None;
        if n > 0 && self.rng.chance(1, 2) {
            let (l, _) = self.pick_cursor();
            s = Some(QueryResult { cursor: self.cursor(l, 0), found: true });
        }
        let flip = self.rng.chance(1, 2);
        let r = self.run(DrainNone, |t| {
            let d = if flip { generic_btree::iter::Drain::new(t, s, None) } else { generic_btree::iter::Drain::new(t, None, s) };
            d.count()
        });
        if let Some(c) = r {
            if c != 0 {
                self.opfind(DrainNone, &[], format!("yielded {c} items"));
            }
        }
        Touched::default()
    }

    // ---------------------------------------------------------------- updates

    fn op_update(&mut self) -> Touched {
        let (c, d) = self.pick_range();
        let a = self.flat(c.0, c.1);
        let b = self.flat(d.0, d.1);
        if a == b {
            // the documentation and the code disagree on empty ranges: not exercised
            self.st.read("update skipped (empty range)");
            return Touched::default();
        }
        let range = self.cursor(c.0, c.1)..self.cursor(d.0, d.1);
        // per element action, decided by the first unit's id so that it does not depend on chunking order
        let salt = self.rng.u64();
        let mode = if self.cfg.mono.is_some() && self.rng.chance(7, 8) || self.cfg.prop == "C25" && self.rng.chance(1, 8) { 7 } else { self.rng.below(5) };
        let kind_read_only = !B::DIFFABLE;
        self.note(format!("update(leaf#{} offset {} .. leaf#{} offset {}) of {} mode {mode} salt {salt}", c.0, c.1, d.0, d.1, self.snap.leaves.len()));
        let mut seen: Vec<Vec<M>> = vec![];
        let mut result: Vec<M> = vec![];
        let mut emptied = 0;
        let r = {
            let (seen, result, emptied) = (&mut seen, &mut result, &mut emptied);
            self.run(Update, |t| {
                t.update(range, &mut |e: &mut Elem| {
                    let mut v = vec![];
                    from_elem(e, &mut v);
                    let key = crate::rng::mix(salt, v.first().map(|m| m.id as u64).unwrap_or(0));
                    seen.push(v);
                    if kind_read_only || mode == 0 {
                        from_elem(e, result);
                        return None;
                    }
                    let before = B::expect(e);
                    match if mode == 7 { 3 } else { (mode + (key % 7) as usize) % 7 } {
                        0 => {}
                        1 => e.atoms.iter_mut().for_each(|a| a.attr += 1 + (key % 5) as i64),
                        2 => e.atoms.iter_mut().for_each(|a| a.color = (a.color + 1) % 4),
                        3 if mode != 1 => {
                            *emptied += 1;
                            e.atoms.clear();
                            e.marker = false;
                        }
                        4 if mode == 2 => {
                            let k = (e.atoms.len() + 1) / 2;
                            e.atoms.truncate(k);
                        }
                        5 if mode == 3 && e.atoms.len() > 1 => {
                            e.atoms.remove(0);
                        }
                        _ => e.atoms.iter_mut().for_each(|a| a.attr -= 1),
                    }
                    from_elem(e, result);
                    let diff = B::diff(&B::expect(e), &before);
                    if B::expect(e) == before && key % 3 != 0 {
                        None
                    } else {
                        Some(diff)
                    }
                })
            })
        };
        let Some(sp) = r else { return Touched::default() };
        self.st.read(if emptied > 0 { "update that empties elements" } else { "update that keeps all elements" });
        let want: Vec<M> = self.model[a..b].to_vec();
        let flat: Vec<M> = seen.iter().flatten().copied().collect();
        if flat != want {
            self.opfind(Update, &[], format!("the updater saw {} but the range holds {}", ids(&flat), ids(&want)));
        }
        if seen.iter().any(|v| v.is_empty()) {
            self.opfind(Update, &[], "the updater was called on an empty element".into());
        }
        self.model.splice(a..b, result);
        self.pending = Pending::Splits { arr: sp.arr.to_vec(), exact: emptied == 0, extra_at: None, within: None };
        Touched::iv(a, b)
    }

    /// (what remains in the element, extra elements) for one element
    fn plan_update(&mut self, cur: &[M], max_extra: usize) -> (Vec<M>, Vec<Vec<M>>, u8) {
        let marker = cur[0].marker;
        let mode = if self.cfg.mono.is_some() && self.rng.chance(9, 10) { 0 } else { self.rng.below(9) as u8 };
        let mut keep = cur.to_vec();
        let mut extra: Vec<Vec<M>> = vec![];
        match mode {
            0 => keep.clear(),
            1 if !marker => {
                let k = self.rng.range(0, cur.len());
                extra.push(keep.split_off(k));
            }
            2 if !marker && max_extra >= 2 => {
                let k = self.rng.range(0, cur.len());
                let mut t = keep.split_off(k);
                let j = self.rng.range(0, t.len());
                let u = t.split_off(j);
                extra.push(t);
                extra.push(u);
            }
            3 if !marker => {
                let k = self.rng.range(0, cur.len());
                let at = self.rng.range(0, k);
                keep.truncate(k.max(1));
                let n = self.rng.range(1, 3);
                let new = self.gen_ms(n);
                let at = at.min(keep.len());
                keep.splice(at..at, new);
            }
            4 => {
                for _ in 0..self.rng.range(1, max_extra.max(1)).min(max_extra) {
                    let e = self.gen_elem();
                    extra.push(e);
                }
            }
            5 => {
                // replaced altogether
                keep.clear();
                for _ in 0..self.rng.range(1, max_extra.max(1)).min(max_extra) {
                    let e = if self.rng.chance(1, 4) { vec![] } else { self.gen_elem() };
                    extra.push(e);
                }
            }
            6 => keep.iter_mut().for_each(|m| {
                m.attr += 2;
                m.color = (m.color + 1) % 4
            }),
            7 if !marker => {
                keep.remove(0);
            }
            _ => {}
        }
        if self.rng.chance(1, 8) && extra.len() < max_extra {
            let at = self.rng.below(extra.len() + 1);
            extra.insert(at, vec![]);
        }
        (keep, extra, mode)
    }

    fn op_update_leaf(&mut self) -> Touched {
        let l = self.pick_leaf();
        let lr = self.snap.leaves[l].clone();
        let cur: Vec<M> = self.model[lr.start..lr.start + lr.n].to_vec();
        let (keep, extra, mode) = self.plan_update(&cur, 2);
        let unchanged = keep == cur;
        let flag = !unchanged || self.rng.chance(1, 3);
        self.note(format!(
            "update_leaf(leaf#{l}/{}) {} -> {} + {:?} flag {flag}",
            self.snap.leaves.len(), ids(&cur), ids(&keep), extra.iter().map(|e| ids(e)).collect::<Vec<_>>()
        ));
        let mut slot: [Option<Elem>; 2] = [None, None];
        // a lone extra element may be returned in either place
        let shift = extra.len() == 1 && self.rng.chance(1, 4);
        for (i, e) in extra.iter().enumerate() {
            slot[i + shift as usize] = Some(if e.is_empty() { Elem::empty() } else { to_elem(e) });
        }
        let [n1, n2] = slot;
        let mut saw = vec![];
        let idx = lr.idx;
        let r = {
            let saw = &mut saw;
            let keep = &keep;
            self.run(UpdateLeaf, move |t| {
                t.update_leaf(idx, |e| {
                    from_elem(e, saw);
                    if !unchanged {
                        *e = if keep.is_empty() { Elem::empty() } else { to_elem(keep) };
                    }
                    (flag, n1, n2)
                })
            })
        };
        let Some((valid, sp)) = r else { return Touched::default() };
        self.st.read(match (keep.is_empty(), extra.iter().filter(|e| !e.is_empty()).count()) {
            (false, 0) => "update_leaf kept+0",
            (false, 1) => "update_leaf kept+1",
            (false, _) => "update_leaf kept+2",
            (true, 0) => "update_leaf emptied+0",
            (true, 1) => "update_leaf emptied+1",
            (true, _) => "update_leaf emptied+2",
        });
        let _ = mode;
        if saw != cur {
            self.opfind(UpdateLeaf, &[], format!("the updater saw {} instead of {}", ids(&saw), ids(&cur)));
        }
        let mut new = keep.clone();
        let extra: Vec<Vec<M>> = extra.into_iter().filter(|e| !e.is_empty()).collect();
        for e in &extra {
            new.extend(e.iter().copied());
        }
        let alive = self.tree.get_elem(idx).is_some();
        if valid != alive || valid != !new.is_empty() {
            self.opfind(UpdateLeaf, &[], format!("returned valid={valid} but the element is {} and {} units were left", if alive { "present" } else { "absent" }, new.len()));
        }
        // ids of the extra content that must be reachable through the returned handles
        let moved_in = if keep.is_empty() { 1 } else { 0 };
        let need: Vec<u32> = extra.iter().skip(moved_in).map(|e| e[0].id).collect();
        self.model.splice(lr.start..lr.start + lr.n, new);
        self.pending = Pending::Splits { arr: sp.arr.to_vec(), exact: false, extra_at: Some(need), within: None };
        Touched { ivs: vec![(lr.start, lr.start + lr.n)], exempt: vec![idx], all: false }
    }

    fn op_update_by_search(&mut self) -> Touched {
        let total = self.snap.total;
        if total == 0 {
            return Touched::default();
        }
        let t = self.pick_pos().min(total - 1);
        let l = self.snap.leaf_at(t);
        let lr = self.snap.leaves[l].clone();
        let cur: Vec<M> = self.model[lr.start..lr.start + lr.n].to_vec();
        let (mut keep, mut extra, _) = self.plan_update(&cur, 1);
        // the element may only be emptied when nothing else is inserted, and extra elements are not empty
        extra.retain(|e| !e.is_empty());
        if keep.is_empty() && !extra.is_empty() {
            keep = extra.pop().unwrap();
            if keep[0].marker {
                keep.iter_mut().for_each(|m| m.marker = false);
            }
        }
        let none = keep == cur && extra.is_empty() && self.rng.chance(1, 2);
        self.note(format!("update_leaf_by_search({t}) leaf#{l}/{} {} -> {} + {:?} none={none}", self.snap.leaves.len(), ids(&cur), ids(&keep), extra.iter().map(|e| ids(e)).collect::<Vec<_>>()));
        let x = extra.first().map(|e| to_elem(e));
        let unchanged = keep == cur;
        let mut saw = vec![];
        let mut got: Option<QueryResult> = None;
        let r = {
            let (saw, got, keep) = (&mut saw, &mut got, &keep);
            self.run(UpdateBySearch, move |tr| {
                tr.update_leaf_by_search::<LengthFinder>(&t, |e, q| {
                    from_elem(e, saw);
                    *got = Some(q);
                    if none {
                        return None;
                    }
                    let before = B::expect(e);
                    if !unchanged {
                        *e = if keep.is_empty() { Elem::empty() } else { to_elem(keep) };
                    }
                    let mut after = B::expect(e);
                    if let Some(x) = &x {
                        B::combine(&mut after, &B::expect(x));
                    }
                    Some((B::diff(&after, &before), x, None))
                })
            })
        };
        let Some((c, sp)) = r else { return Touched::default() };
        let want = QueryResult { cursor: Cursor { leaf: lr.idx, offset: t - lr.pos }, found: true };
        if got != Some(want) {
            self.opfind(UpdateBySearch, &["C05"], format!("the updater was given {got:?} instead of {want:?}"));
        }
        if saw != cur {
            self.opfind(UpdateBySearch, &[], format!("the updater saw {} instead of {}", ids(&saw), ids(&cur)));
        }
        let exp = if keep.is_empty() { None } else { Some(want.cursor) };
        if c != exp {
            self.opfind(UpdateBySearch, &[], format!("returned {c:?} instead of {exp:?}"));
        }
        let mut new = keep.clone();
        for e in &extra {
            new.extend(e.iter().copied());
        }
        let need: Vec<u32> = extra.iter().map(|e| e[0].id).collect();
        self.st.read(match (keep.is_empty(), need.len()) {
            (false, 0) => "update_leaf_by_search kept+0",
            (false, _) => "update_leaf_by_search kept+1",
            (true, _) => "update_leaf_by_search emptied",
        });
        self.model.splice(lr.start..lr.start + lr.n, new);
        self.pending = Pending::Splits { arr: sp.arr.to_vec(), exact: true, extra_at: Some(need), within: None };
        Touched { ivs: vec![(lr.start, lr.start + lr.n)], exempt: vec![lr.idx], all: false }
    }

    fn op_batch(&mut self) -> Touched {
        let nl = self.snap.leaves.len();
        let n = match self.rng.below(4) {
            0 => 1,
            1 => self.rng.range(1, 4),
            2 => self.rng.range(1, 12),
            _ if self.rng.chance(1, 30) => self.rng.range(60, 500),
            _ => self.rng.range(1, 60),
        };
        let focus = self.rng.chance(1, 2);
        let base = self.pick_leaf();
        let mut args: Vec<(LeafIndex, std::ops::Range<usize>, i64)> = vec![];
        let mut ivs = vec![];
        let mut desc = vec![];
        let mut cover = 0u64;
        for _ in 0..n {
            let l = if focus { (base + self.rng.below(3)).min(nl - 1) } else { self.pick_leaf() };
            let lr = self.snap.leaves[l].clone();
            if lr.len == 0 {
                continue;
            }
            let mut a = self.rng.below(lr.len);
            let mut b = self.rng.range(a + 1, lr.len);
            if self.rng.chance(1, 5) {
                a = 0;
            }
            if self.rng.chance(1, 5) {
                b = lr.len;
            }
            let x = 1i64 << self.rng.below(40);
            for i in lr.start + a..lr.start + b {
                self.model[i].attr += x;
                cover += 1;
            }
            ivs.push((lr.start, lr.start + lr.n));
            desc.push(format!("leaf#{l} {a}..{b}/{} +{x}", lr.len));
            args.push((lr.idx, a..b, x));
        }
        self.given = args.len();
        ivs.sort();
        ivs.dedup();
        self.note(format!("update_leaves_with_arg_in_ranges of {nl}: {}", desc.join("; ")));
        // a batch addressed to nothing is lawful too
        let mut applied = 0u64;
        let r = {
            let applied = &mut applied;
            self.run(Batch, move |t| {
                t.update_leaves_with_arg_in_ranges(args, |e, x| {
                    *applied += e.atoms.len() as u64;
                    e.atoms.iter_mut().for_each(|a| a.attr += *x)
                })
            })
        };
        let Some(new) = r else { return Touched::default() };
        if applied != cover {
            self.opfind(Batch, &[], format!("{applied} unit updates were made for {cover} addressed units"));
        }
        self.pending = Pending::Splits { arr: new, exact: false, extra_at: None, within: Some(ivs.clone()) };
        Touched { ivs, exempt: vec![], all: false }
    }

    fn op_direct(&mut self) -> Touched {
        let l = self.pick_leaf();
        let lr = self.snap.leaves[l].clone();
        let mode = self.rng.below(3);
        let how = self.rng.below(3);
        self.note(format!("get_elem_mut(leaf#{l}/{}) mode {mode}, recursive_update_cache variant {how}", self.snap.leaves.len()));
        let idx = lr.idx;
        let cut = if lr.n > 1 && mode == 2 && !self.model[lr.start].marker { self.rng.range(1, lr.n - 1) } else { lr.n };
        let r = self.run(Direct, |t| {
            let Some(e) = t.get_elem_mut(idx) else { return false };
            let before = B::expect(e);
            e.atoms.truncate(cut);
            for a in e.atoms.iter_mut() {
                match mode {
                    0 => a.attr += 5,
                    1 => a.color = (a.color + 1) % 4,
                    _ => {}
                }
            }
            let diff = B::diff(&B::expect(e), &before);
            match how {
                0 => t.recursive_update_cache(idx.into(), B::DIFFABLE, None),
                1 => t.recursive_update_cache(idx.into(), false, None),
                _ => t.recursive_update_cache(idx.into(), B::DIFFABLE, if B::DIFFABLE { Some(diff) } else { None }),
            }
            true
        });
        if r == Some(false) {
            self.opfind(Direct, &["C06"], "get_elem_mut returned None for an element of the tree".into());
        }
        for m in &mut self.model[lr.start..lr.start + lr.n] {
            match mode {
                0 => m.attr += 5,
                1 => m.color = (m.color + 1) % 4,
                _ => {}
            }
        }
        self.model.drain(lr.start + cut..lr.start + lr.n);
        Touched::iv(lr.start, lr.start + lr.n)
    }

    fn op_in_place(&mut self) -> Touched {
        let from = self.rng.below(4) as u8;
        let to = self.rng.below(4) as u8;
        self.note(format!("update_cache_and_elem_with_filter: recolour {from} -> {to}"));
        // expected accepted elements from the observed structure
        let want_g = self.filter_expect(&|c: &B::Cache| B::has_color(c, from));
        let mut f_calls = 0usize;
        let mut g_first: Vec<u32> = vec![];
        let first_leaf = self.snap.leaves[0].idx;
        let r = {
            let (f_calls, g_first) = (&mut f_calls, &mut g_first);
            self.run(InPlace, move |t| {
                t.update_cache_and_elem_with_filter(
                    |c| {
                        *f_calls += 1;
                        let y = B::has_color(c, from);
                        if y {
                            B::recolor_cache(c, from, to);
                        }
                        y
                    },
                    |e| {
                        g_first.push(e.atoms[0].id);
                        e.atoms.iter_mut().for_each(|a| {
                            if a.color == from {
                                a.color = to
                            }
                        })
                    },
                );
                // the caller is responsible for the whole-tree summary
                t.recursive_update_cache(first_leaf.into(), false, None);
            })
        };
        if r.is_none() {
            return Touched::default();
        }
        let mut want: Vec<u32> = want_g.0.iter().map(|&l| self.model[self.snap.leaves[l].start].id).collect();
        want.sort();
        g_first.sort();
        if want != g_first {
            self.opfind(InPlace, &[], format!("the element callback ran on {} elements, {} accepted", g_first.len(), want.len()));
        }
        if f_calls != want_g.1 {
            self.opfind(InPlace, &[], format!("the summary callback ran {f_calls} times, {} summaries are reachable through accepted ones", want_g.1));
        }
        for m in &mut self.model {
            if m.color == from {
                m.color = to;
            }
        }
        self.st.read("in-place filtered change");
        Touched::default()
    }

    /// (accepted element ordinals, number of filter calls)
    pub fn filter_expect(&self, f: &dyn Fn(&B::Cache) -> bool) -> (Vec<usize>, usize) {
        let s = &self.snap;
        let mut acc = vec![];
        let mut calls = 0;
        let d = s.depth;
        if d == 0 {
            return (acc, 0);
        }
        // ok[level] = whether the currently open node of that level (root = 0) is accepted with its ancestors
        let mut ok = vec![true; d.max(1)];
        let mut leaf = 0;
        let mut flush = |upto: usize, open: bool, leaf: &mut usize, calls: &mut usize, acc: &mut Vec<usize>| {
            while *leaf < upto {
                if open {
                    *calls += 1;
                    if f(&s.leaf_caches[*leaf]) {
                        acc.push(*leaf);
                    }
                }
                *leaf += 1;
            }
        };
        if d == 1 {
            flush(s.leaves.len(), true, &mut leaf, &mut calls, &mut acc);
            return (acc, calls);
        }
        for n in &s.nodes {
            let parent_ok = ok[n.level - 1];
            let mut me = false;
            if parent_ok {
                calls += 1;
                me = f(&n.cache);
            }
            ok[n.level] = me;
            if n.level == d - 1 {
                flush(n.leaf_end, me, &mut leaf, &mut calls, &mut acc);
            }
        }
        (acc, calls)
    }

    // ---------------------------------------------------------------- whole-tree operations

    fn op_clone(&mut self) -> Touched {
        let swap = self.shadow.is_some() && self.rng.chance(1, 2);
        if swap {
            // go on with the other tree
            self.note("continue with the clone; the tree used so far is kept aside".into());
            self.check_shadow();
            if self.dead {
                return Touched::default();
            }
            let (t, m, s) = self.shadow.take().unwrap();
            let t0 = std::mem::replace(&mut self.tree, t);
            let m0 = std::mem::replace(&mut self.model, m);
            let s0 = std::mem::replace(&mut self.snap, s);
            self.peak = self.peak.max(s0.leaves.len()).max(self.snap.leaves.len());
            self.shadow = Some((t0, m0, s0));
            // handles of the other history are foreign here
            self.grave.clear();
            return Touched::all();
        }
        self.note("clone".into());
        if self.shadow.is_some() {
            self.check_shadow();
            if self.dead {
                return Touched::default();
            }
        }
        self.shadow = None;
        let Some(c) = self.run(CloneT, |t| t.clone()) else { return Touched::default() };
        match guarded(|| Snap::take(&c)) {
            Ok(Ok(s)) => {
                let same = s.leaves.len() == self.snap.leaves.len()
                    && s.shape == self.snap.shape
                    && s.leaves.iter().zip(&self.snap.leaves).all(|(a, b)| a.idx == b.idx && a.start == b.start && a.n == b.n);
                let mut got = vec![];
                for l in &s.leaves {
                    from_elem(c.get_elem(l.idx).unwrap(), &mut got);
                }
                if !same || got != self.model {
                    self.opfind(CloneT, &[], format!("the clone holds {} with {} elements, the original {} with {}", ids(&got), s.leaves.len(), ids(&self.model), self.snap.leaves.len()));
                } else if s.leaf_caches != self.snap.leaf_caches || c.root_cache() != self.tree.root_cache() || c.node_len() != self.tree.node_len() {
                    self.opfind(CloneT, &["C02"], "the clone's summaries or node count differ".into());
                } else if self.grave.iter().any(|h| c.get_elem(*h).is_some()) {
                    self.opfind(CloneT, &["C06"], "a removed element's handle is valid in the clone".into());
                } else if let Err(m) = guarded(|| c.check()) {
                    self.opfind(CloneT, &["C03"], format!("built-in check rejects the clone: {m}"));
                }
                self.shadow = Some((c, self.model.clone(), std::rc::Rc::new(s)));
            }
            Ok(Err(m)) | Err(m) => self.opfind(CloneT, &["C03"], format!("the clone is broken: {m}")),
        }
        Touched::default()
    }

    fn op_clear(&mut self) -> Touched {
        self.note("clear".into());
        if self.run(Clear, |t| t.clear()).is_none() {
            return Touched::default();
        }
        self.model.clear();
        self.grave.clear();
        let fresh: BTree<B> = BTree::new();
        if self.tree.node_len() != fresh.node_len() || self.tree.root_cache() != fresh.root_cache() || !self.tree.is_empty() || self.tree.first_leaf().is_some() || self.tree.end_cursor().is_some() {
            self.opfind(Clear, &[], "a cleared tree does not look like a new one".into());
        }
        Touched::all()
    }

    // ---------------------------------------------------------------- returned handles

    fn check_returns(&mut self, k: OpK, p: Pending, old: &Snap<B>) {
        match p {
            Pending::None => {}
            Pending::Insert { at, n, cur, split } => {
                self.st.read("insertion result checked");
                let new: Vec<LeafIndex> = self.snap.leaves.iter().map(|l| l.idx).filter(|i| !old.by_idx.contains_key(i)).collect();
                match self.snap.by_idx.get(&cur.leaf) {
                    None => self.find(&["C19"], format!("{}: the returned cursor {cur:?} names no element of the tree", op_name(k))),
                    Some(&i) => {
                        let l = self.snap.leaves[i].clone();
                        let f = l.start + cur.offset;
                        // reading on from the cursor must give the inserted units (a zero-length element is addressed by its handle)
                        if f != at || cur.offset > l.len || (l.n > 0 && cur.offset >= l.n) {
                            self.find(&["C19"], format!("{}: the returned cursor {cur:?} is at unit {f} (element of length {}), the content went to unit {at}", op_name(k), l.len));
                        }
                    }
                }
                let mut rest: Vec<LeafIndex> = new.into_iter().filter(|x| *x != cur.leaf).collect();
                let mut sp = split.clone().unwrap_or_default();
                rest.sort();
                sp.sort();
                if rest != sp {
                    self.find(&["C19"], format!("{}: split-off elements reported {sp:?}, observed {rest:?}", op_name(k)));
                }
                if n > 1 && !self.dead {
                    self.st.read("insertion result of several units checked");
                }
            }
            Pending::Splits { arr, exact, extra_at, within } => {
                let new: Vec<LeafIndex> = self.snap.leaves.iter().map(|l| l.idx).filter(|i| !old.by_idx.contains_key(i)).collect();
                for x in &new {
                    // a batch reports an element again for every part merged back into it
                    let times = arr.iter().filter(|y| *y == x).count();
                    if times == 0 || (times > 1 && within.is_none()) {
                        self.opfind(k, &[], format!("new element {x:?} is reported {times} times in {arr:?}"));
                        return;
                    }
                }
                for x in &arr {
                    let live = self.snap.by_idx.contains_key(x);
                    if exact && (!live || old.by_idx.contains_key(x)) {
                        self.opfind(k, &[], format!("reported split-off element {x:?} is not a new element of the tree"));
                        return;
                    }
                    if !live && (old.by_idx.contains_key(x) || extra_at.is_some() || within.is_some()) {
                        self.opfind(k, &[], format!("reported element {x:?} is not in the tree"));
                        return;
                    }
                    // a batch may report an addressed element into which a part was merged again, never another one
                    if let (true, Some(ivs)) = (live, &within) {
                        if let Some(&o) = old.by_idx.get(x) {
                            let s = old.leaves[o].start;
                            if !ivs.iter().any(|v| v.0 == s) {
                                self.opfind(k, &[], format!("reported element {x:?} was not addressed"));
                                return;
                            }
                        }
                    }
                }
                if let Some(need) = extra_at {
                    let mut reported: Vec<M> = vec![];
                    for x in &arr {
                        let l = &self.snap.leaves[self.snap.by_idx[x]];
                        reported.extend_from_slice(&self.model[l.start..l.start + l.n]);
                    }
                    for id in need {
                        if !reported.iter().any(|m| m.id == id) {
                            self.opfind(k, &[], format!("the element holding extra content starting with unit {id} is not among the reported handles {arr:?}"));
                            return;
                        }
                    }
                }
                self.st.read("reported split handles checked");
            }
        }
    }
}

#[derive(Default)]
pub enum Pending {
    #[default]
    None,
    Insert {
        at: usize,
        n: usize,
        cur: Cursor,
        split: Option<Vec<LeafIndex>>,
    },
    Splits {
        arr: Vec<LeafIndex>,
        /// every reported handle is new and in the tree
        exact: bool,
        /// first units of extra content that must be reachable through the reported handles
        extra_at: Option<Vec<u32>>,
        /// flat extents of the addressed elements
        within: Option<Vec<(usize, usize)>>,
    },
}
