//! Read monitors: searches, traversal, navigation, comparison, preceding summaries, filters; all are
//! judged against the structure and content observed independently.
use crate::elem::*;
use crate::engine::*;
use crate::ops::ids;
use generic_btree::{ArenaIndex, Cursor, LengthFinder, PreviousCache, QueryResult};
use std::cmp::Ordering;
use std::ops::Bound;

impl<B: TreeKind> Eng<B>

{
    pub fn reads(&mut self) {
        let p = self.cfg.prop;
        let few = !matches!(p, "C05" | "C13" | "C14" | "C15" | "C16");
        let lim = 400_000 + 5000 * (self.model.len() as u64 + self.snap.leaves.len() as u64);
        let mut go = |me: &mut Self, prop: &'static str, f: &mut dyn FnMut(&mut Self)| {
            if me.dead || (!few && p != prop) {
                return;
            }
            arm_budget(lim.saturating_mul(40));
            let r = {
                let mm = &mut *me;
                guarded(|| f(mm))
            };
            arm_budget(u64::MAX);
            if let Err(m) = r {
                let mut t = vec![prop];
                if m.contains("STEP-BUDGET") {
                    t.push("C04");
                }
                me.find(&t, format!("a {prop} observation panicked: {m}"));
            }
        };
        go(self, "C05", &mut |s| s.read_search());
        go(self, "C13", &mut |s| s.read_traversal());
        go(self, "C14", &mut |s| s.read_compare());
        go(self, "C15", &mut |s| s.read_prefix());
        go(self, "C16", &mut |s| s.read_filter());
        take_work();
    }

    fn samples(&mut self, n: usize, few: usize) -> Vec<usize> {
        // 0..n, all of them when that is cheap
        if n == 0 {
            return vec![];
        }
        if self.cfg.exhaustive_reads && n <= 400 && few > 4 {
            return (0..n).collect();
        }
        let mut v: Vec<usize> = (0..few.min(n)).map(|_| self.rng.below(n)).collect();
        v.push(0);
        v.push(n - 1);
        v
    }
    fn many(&self) -> usize {
        if matches!(self.cfg.prop, "C05" | "C13" | "C14" | "C15" | "C16") { 12 } else { 3 }
    }

    // ------------------------------------------------------------ C05

    fn read_search(&mut self) {
        let total = self.snap.total;
        let d = self.snap.depth;
        let many = self.many();
        if self.snap.leaves.is_empty() {
            let (q, _) = self.tree.query_with_finder_return::<LengthFinder>(&0);
            let r = self.tree.range::<LengthFinder>(0..0);
            if q.is_some() || r.is_some() || self.tree.query::<LengthFinder>(&3).is_some() {
                self.find(&["C05"], format!("a search in an empty tree reports {q:?} / {r:?}"));
            }
            self.st.read("search in an empty tree");
            return;
        }
        let mut ts = self.samples(total + 1, many);
        // around element boundaries
        for _ in 0..many {
            let l = self.pick_leaf();
            let p = self.snap.leaves[l].pos;
            ts.push(p);
            ts.push(p.saturating_sub(1));
            ts.push((p + 1).min(total));
        }
        for t in ts {
            take_work();
            let (r, f) = self.tree.query_with_finder_return::<LengthFinder>(&t);
            let w = take_work();
            self.st.read(if t < total { "position search below the total" } else { "position search at the total" });
            let Some(r) = r else {
                self.find(&["C05"], format!("search for position {t} of {total} reports an empty tree"));
                return;
            };
            if w.find_node != 0 && w.find_node > d as u64 || w.get_len > 64 * (d as u64 + 1) {
                self.find(&["C04"], format!("search for position {t} read {} summaries in a tree of height {d}", w.get_len));
                return;
            }
            let Some(&li) = self.snap.by_idx.get(&r.cursor.leaf) else {
                self.find(&["C05"], format!("search for position {t} of {total} reports {r:?}, not an element of the tree"));
                return;
            };
            let l = self.snap.leaves[li].clone();
            if t < total {
                let e = self.snap.leaf_at(t);
                let el = &self.snap.leaves[e];
                let want = QueryResult { cursor: Cursor { leaf: el.idx, offset: t - el.pos }, found: true };
                if r != want {
                    self.find(&["C05"], format!("search for position {t} of {total} reports element #{li} (start {}, length {}) offset {} found {}; expected element #{e} (start {}, length {})", l.pos, l.len, r.cursor.offset, r.found, el.pos, el.len));
                    return;
                }
            } else {
                let last = self.snap.leaves.last().unwrap();
                let end_ok = l.pos + r.cursor.offset == total && r.cursor.offset == l.len && (li + 1 == self.snap.leaves.len() || self.snap.leaves[li + 1..].iter().all(|x| x.len == 0));
                if r.found || !end_ok {
                    let m = format!("search for the total length {total} reports element #{li} (start {}, length {}) offset {} found {}; last element starts at {} length {}", l.pos, l.len, r.cursor.offset, r.found, last.pos, last.len);
                    self.find(&["C05"], m);
                    return;
                }
            }
            // the finder describes the descent
            let want_parent = self.snap.parents[li].map(|p| p.unwrap_internal());
            if f.left != r.cursor.offset || f.slot != l.slot || f.parent != want_parent {
                self.find(&["C05"], format!("finder for position {t} of {total}: left {} slot {} parent {:?}; expected {} {} {:?}", f.left, f.slot, f.parent, r.cursor.offset, l.slot, want_parent));
                return;
            }
            if r.elem(&self.tree).map(|e| e.atoms.first().map(|a| a.id)) != self.tree.get_elem(l.idx).map(|e| e.atoms.first().map(|a| a.id))
                || r.leaf() != l.idx
                || r.offset() != r.cursor.offset
                || r.found() != r.found
                || r.arena() != l.idx.inner()
            {
                self.find(&["C05"], format!("accessors of the search result {r:?} disagree with it"));
                return;
            }
        }
        // beyond the end: never found
        let over = total + 1 + self.rng.below(5);
        if self.tree.query::<LengthFinder>(&over).map(|r| r.found).unwrap_or(true) {
            self.find(&["C05"], format!("search for position {over} of {total} reports found"));
            return;
        }
        // ranges
        for _ in 0..many {
            let a = self.pick_pos();
            let b = self.pick_pos();
            let r = self.tree.range::<LengthFinder>(a..b);
            let want = (self.tree.query::<LengthFinder>(&a), self.tree.query::<LengthFinder>(&b));
            self.st.read("range search");
            if r.as_ref().map(|x| (Some(x.start), Some(x.end))) != Some(want) {
                self.find(&["C05"], format!("range {a}..{b} reports {r:?}"));
                return;
            }
        }
        // other dimensions
        if B::DIFFABLE && B::COUNTS {
            for _ in 0..many {
                let c = self.rng.below(4) as u8;
                let count = self.model.iter().filter(|m| m.color == c).count();
                let k = self.rng.below(count + 2);
                let r = self.tree.query::<ColorFinder>(&(c, k)).unwrap();
                self.st.read("search by colour count");
                if k >= count {
                    if r.found {
                        self.find(&["C05"], format!("unit {k} of colour {c} reported found, there are {count}"));
                        return;
                    }
                } else {
                    let f = self.model.iter().enumerate().filter(|(_, m)| m.color == c).nth(k).unwrap().0;
                    let ok = r.found && self.snap.by_idx.get(&r.cursor.leaf).map(|&i| self.snap.leaves[i].start + r.cursor.offset) == Some(f);
                    if !ok {
                        self.find(&["C05"], format!("unit {k} of colour {c} is unit {f}, search reports {r:?}"));
                        return;
                    }
                }
            }
        }
        for _ in 0..many {
            let x = self.rng.below(self.next_id as usize + 3) as i64;
            let Some(r) = B::max_search(&self.tree, x) else { break };
            let r = r.unwrap();
            self.st.read("search over a running maximum");
            match self.model.iter().position(|m| m.id as i64 >= x) {
                None => {
                    if r.found {
                        self.find(&["C05"], format!("no unit has id >= {x} but the search reports found"));
                        return;
                    }
                }
                Some(f) => {
                    let ok = r.found && self.snap.by_idx.get(&r.cursor.leaf).map(|&i| self.snap.leaves[i].start + r.cursor.offset) == Some(f);
                    if !ok {
                        self.find(&["C05"], format!("first unit with id >= {x} is unit {f}, search reports {r:?}"));
                        return;
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ C13

    fn read_traversal(&mut self) {
        let n = self.snap.leaves.len();
        let many = self.many();
        let t = &self.tree;
        // full iteration
        let got: Vec<u32> = t.iter().take(n + 2).map(|e| e.atoms[0].id).collect();
        let want: Vec<u32> = self.snap.leaves.iter().map(|l| self.model[l.start].id).collect();
        self.st.read("full iteration");
        if got != want {
            self.find(&["C13"], format!("iter() presents elements starting {:?}, expected {:?}", &got[..got.len().min(20)], &want[..want.len().min(20)]));
            return;
        }
        let ends = (
            t.first_leaf() == self.snap.leaves.first().map(|l| l.idx),
            t.last_leaf() == self.snap.leaves.last().map(|l| l.idx),
            t.start_cursor() == self.snap.leaves.first().map(|l| Cursor { leaf: l.idx, offset: 0 }),
            t.end_cursor() == self.snap.leaves.last().map(|l| Cursor { leaf: l.idx, offset: l.len }),
        );
        self.st.read("first/last/start/end");
        if ends != (true, true, true, true) {
            self.find(&["C13"], format!("first_leaf/last_leaf/start_cursor/end_cursor correct: {ends:?} in a tree of {n} elements"));
            return;
        }
        if n == 0 {
            let k = t.iter_range(..).count();
            self.st.read("range iteration of an empty tree");
            if k != 0 {
                self.find(&["C13"], format!("iter_range(..) of an empty tree yields {k} elements"));
            }
            return;
        }
        // navigation
        for i in self.samples(n, many * 2) {
            let l = self.snap.leaves[i].clone();
            let at = |j: usize| Cursor { leaf: self.snap.leaves[j].idx, offset: 0 };
            let next = if i + 1 < n { Some(at(i + 1)) } else { None };
            let prev = if i > 0 { Some(at(i - 1)) } else { None };
            let prev_end = if i > 0 { Some(Cursor { leaf: self.snap.leaves[i - 1].idx, offset: self.snap.leaves[i - 1].len }) } else { None };
            let mut offs = vec![0, l.len, l.len / 2, l.len.saturating_sub(1)];
            offs.sort();
            offs.dedup();
            for o in offs {
                let c = Cursor { leaf: l.idx, offset: o };
                self.st.read("cursor navigation");
                let checks: [(&str, Option<Cursor>, Option<Cursor>); 4] = [
                    ("next_elem", self.tree.next_elem(c), next),
                    ("prev_elem", self.tree.prev_elem(c), prev),
                    ("prefer_right", self.tree.prefer_right(c), if o > 0 && o == l.len { next } else { Some(c) }),
                    ("prefer_left", self.tree.prefer_left(c), if o == 0 { prev_end } else { Some(c) }),
                ];
                for (name, got, want) in checks {
                    if got != want {
                        self.find(&["C13"], format!("{name} at element #{i}/{n} (length {}) offset {o} gives {got:?}, expected {want:?}", l.len));
                        return;
                    }
                }
                let target = l.pos + o + 1;
                let want = if target < self.snap.total {
                    let j = self.snap.leaf_at(target);
                    Some(Cursor { leaf: self.snap.leaves[j].idx, offset: target - self.snap.leaves[j].pos })
                } else {
                    None
                };
                let got = self.tree.shift_path_by_one_offset(c);
                self.st.read("shift by one");
                if got != want {
                    let show = |c: Option<Cursor>| c.map(|c| (self.snap.by_idx.get(&c.leaf).copied(), c.offset));
                    self.find(&["C13"], format!("shift_path_by_one_offset at element #{i}/{n} (length {}) offset {o} gives (element, offset) {:?}, expected {:?}", l.len, show(got), show(want)));
                    return;
                }
            }
        }
        // cursor ranges
        for _ in 0..many {
            let (a, b) = self.pick_range();
            let start = self.cursor(a.0, a.1);
            let end = self.cursor(b.0, b.1);
            let form = self.rng.below(4);
            let lo_cur = self.snap.leaves[0].idx;
            let (sa, eb, lo, hi): (Option<Cursor>, Option<Cursor>, Bound<Cursor>, Bound<Cursor>) = match form {
                0 => (Some(start), Some(end), Bound::Included(start), Bound::Excluded(end)),
                1 => (Some(start), Some(end), Bound::Included(start), Bound::Included(end)),
                2 => (Some(start), None, Bound::Included(start), Bound::Unbounded),
                _ => (None, Some(end), Bound::Unbounded, Bound::Excluded(end)),
            };
            let inclusive = matches!(hi, Bound::Included(_) | Bound::Unbounded);
            let s_leaf = sa.map(|_| a.0).unwrap_or(0);
            let s_off = sa.map(|c| c.offset).unwrap_or(0);
            let (e_leaf, e_off) = match eb {
                Some(c) => (b.0, c.offset),
                None => (n - 1, self.snap.leaves[n - 1].len),
            };
            let _ = lo_cur;
            let stop = if e_off == 0 && !inclusive { e_leaf } else { e_leaf + 1 };
            let mut got = vec![];
            let mut content: Vec<u32> = vec![];
            for s in self.tree.iter_range((lo, hi)).take(n + 2) {
                got.push((s.cursor().leaf, s.cursor().offset, s.start, s.end));
                let len = if s.elem.marker { 0 } else { s.elem.atoms.len() };
                if s.elem.marker {
                    content.extend(s.elem.atoms.iter().map(|a| a.id));
                } else {
                    let (x, y) = (s.start.unwrap_or(0), s.end.unwrap_or(len));
                    if x <= y && y <= len {
                        content.extend(s.elem.atoms[x..y].iter().map(|a| a.id));
                    } else {
                        content.push(u32::MAX);
                    }
                }
            }
            self.st.read("range iteration");
            let want: Vec<_> = (s_leaf..stop)
                .map(|i| {
                    (
                        self.snap.leaves[i].idx,
                        0usize,
                        if i == s_leaf { Some(s_off) } else { None },
                        if i == e_leaf { Some(e_off) } else { None },
                    )
                })
                .collect();
            if got != want {
                let show = |v: &Vec<(generic_btree::LeafIndex, usize, Option<usize>, Option<usize>)>| {
                    v.iter().take(12).map(|x| (self.snap.by_idx.get(&x.0).copied(), x.1, x.2, x.3)).collect::<Vec<_>>()
                };
                self.find(&["C13"], format!("iter_range from element #{s_leaf} offset {s_off} to element #{e_leaf} offset {e_off} (inclusive end: {inclusive}) gives {:?}, expected {:?}", show(&got), show(&want)));
                return;
            }
            let fa = self.flat(s_leaf, s_off);
            let fb = self.flat(e_leaf, e_off);
            let mut want: Vec<u32> = self.model[fa.min(fb)..fb].iter().map(|m| m.id).collect();
            if inclusive && self.snap.leaves[e_leaf].len == 0 {
                want.push(self.model[self.snap.leaves[e_leaf].start].id);
            }
            if content != want {
                self.find(&["C13"], format!("iter_range marks content {:?}, expected {:?}", &content[..content.len().min(20)], &want[..want.len().min(20)]));
                return;
            }
        }
    }

    // ------------------------------------------------------------ C14

    fn read_compare(&mut self) {
        let n = self.snap.leaves.len();
        if n == 0 {
            return;
        }
        let mut pairs = vec![];
        if self.cfg.exhaustive_reads && n <= 60 {
            for i in 0..n {
                for j in 0..n {
                    pairs.push(((i, 0), (j, 0)));
                }
            }
        }
        for _ in 0..self.many() * 8 {
            let a = self.pick_cursor();
            let b = match self.rng.below(4) {
                0 => {
                    let o = self.pick_offset(a.0);
                    (a.0, o)
                }
                1 => {
                    let l = (a.0 + 1 + self.rng.below(3)).min(n - 1);
                    (l, self.pick_offset(l))
                }
                _ => self.pick_cursor(),
            };
            pairs.push((a, b));
            pairs.push((b, a));
        }
        for (a, b) in pairs {
            let got = self.tree.compare_pos(self.cursor(a.0, a.1), self.cursor(b.0, b.1));
            let want = a.cmp(&b);
            self.st.read(match want {
                Ordering::Equal => "comparison: equal",
                _ if a.0 == b.0 => "comparison: same element",
                _ if self.snap.leaves[a.0].parent_first == self.snap.leaves[b.0].parent_first => "comparison: same node",
                _ => "comparison: different nodes",
            });
            if got != want {
                self.find(&["C14"], format!("compare_pos(element #{} offset {}, element #{} offset {}) = {got:?} in a tree of {n} elements and {} levels", a.0, a.1, b.0, b.1, self.snap.depth));
                return;
            }
        }
    }

    // ------------------------------------------------------------ C15

    fn read_prefix(&mut self) {
        let n = self.snap.leaves.len();
        if n == 0 {
            return;
        }
        let many = self.many() * 2;
        for i in self.samples(n, many) {
            let off = self.pick_offset(i);
            let c = self.cursor(i, off);
            let mut seq: Vec<B::Cache> = vec![];
            let mut last: Option<(u32, usize)> = None;
            let mut bad = None;
            let mut calls = 0usize;
            self.tree.visit_previous_caches(c, |p| {
                calls += 1;
                if last.is_some() {
                    bad = Some("something is visited after the element itself".to_string());
                }
                match p {
                    PreviousCache::NodeCache(c) => seq.push(c.clone()),
                    PreviousCache::PrevSiblingElem(e) => seq.push(B::expect(e)),
                    PreviousCache::ThisElemAndOffset { elem, offset } => last = Some((elem.atoms[0].id, offset)),
                }
                if calls > 100_000 {
                    panic!("visit_previous_caches does not end");
                }
            });
            self.st.read("preceding summaries of a cursor");
            let l = self.snap.leaves[i].clone();
            if last != Some((self.model[l.start].id, off)) {
                bad.get_or_insert(format!("reports element and offset {last:?}, expected unit {} offset {off}", self.model[l.start].id));
            }
            // in order, each summary covers the next run of elements
            let mut j = 0;
            for c in &seq {
                let k = B::n(c);
                let mut acc = B::Cache::default();
                let mut m = 0;
                while j < i && (m < k || !B::COUNTS && self.snap.leaves[j].len == 0) {
                    B::combine(&mut acc, &self.snap.leaf_caches[j]);
                    m += B::n(&self.snap.leaf_caches[j]);
                    j += 1;
                }
                if m != k || &acc != c {
                    bad.get_or_insert(format!("summary {c:?} does not cover the next elements before the cursor (#{j})"));
                    break;
                }
            }
            while !B::COUNTS && j < i && self.snap.leaves[j].len == 0 {
                j += 1;
            }
            if j != i {
                bad.get_or_insert(format!("the summaries cover {j} of the {i} preceding elements"));
            }
            if seq.len() > l.left_siblings as usize {
                bad.get_or_insert(format!("{} summaries were visited, the path has {} left siblings", seq.len(), l.left_siblings));
            }
            let pos: i64 = seq.iter().map(|c| B::len(c)).sum::<i64>() + off as i64;
            if pos != (l.pos + off) as i64 {
                bad.get_or_insert(format!("absolute position computed {pos}, expected {}", l.pos + off));
            }
            if let Some(m) = bad {
                self.find(&["C15"], format!("visit_previous_caches for element #{i}/{n} offset {off}: {m}"));
                return;
            }
        }
    }

    // ------------------------------------------------------------ C16

    fn read_filter(&mut self) {
        let many = (self.many() / 2).max(1);
        for _ in 0..many {
            let c = self.rng.below(4) as u8;
            let salt = self.rng.u64();
            let mode = self.rng.below(4);
            let f = move |x: &B::Cache| -> bool {
                match mode {
                    0 => B::has_color(x, c),
                    1 => crate::rng::mix(salt, B::idprobe(x) as u64) % 3 != 0,
                    2 => true,
                    _ => crate::rng::mix(salt, B::idprobe(x) as u64) % 8 == 0 || B::n(x) > 12,
                }
            };
            let (want, want_calls) = self.filter_expect(&f);
            let calls = std::cell::Cell::new(0usize);
            let got: Vec<(i64, u32)> = self
                .tree
                .iter_with_filter(|x| {
                    calls.set(calls.get() + 1);
                    (f(x), B::n(x))
                })
                .take(self.snap.leaves.len() + 2)
                .map(|(r, e)| (r, e.atoms[0].id))
                .collect();
            self.st.read("filtered traversal");
            let want_items: Vec<(i64, u32)> = want.iter().map(|&l| ((if B::COUNTS { self.snap.leaves[l].start } else { self.snap.leaves[l].pos }) as i64, self.model[self.snap.leaves[l].start].id)).collect();
            if got != want_items {
                let i = got.iter().zip(&want_items).position(|(a, b)| a != b).unwrap_or(got.len().min(want_items.len()));
                self.find(&["C16"], format!("filtered traversal (mode {mode}) yields {} elements, expected {}; (accumulated value, first unit) number {i}: {:?} vs {:?}", got.len(), want_items.len(), got.get(i), want_items.get(i)));
                return;
            }
            if calls.get() != want_calls {
                self.find(&["C16"], format!("the filter was called {} times, {} summaries are reachable through accepted ones", calls.get(), want_calls));
                return;
            }
            // a prefix of the traversal is the same traversal
            if !want_items.is_empty() {
                let k = self.rng.below(want_items.len());
                let part: Vec<(i64, u32)> = self.tree.iter_with_filter(|x| (f(x), B::n(x))).take(k).map(|(r, e)| (r, e.atoms[0].id)).collect();
                if part[..] != want_items[..k] {
                    self.find(&["C16"], "a prefix of the filtered traversal differs".into());
                    return;
                }
            }
        }
        let _ = ids(&[]);
        let _ = ArenaIndex::unwrap_leaf;
    }
}
