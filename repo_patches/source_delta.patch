From f78e1251088c8c09b853193a9a7e03ce64e9ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 01/16] fix: deleting an absent key from the ordered map
 removes nothing

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..7d3f04e 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From 19f7d70ab5fb4c74e602a34b09790ab06e728f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 02/16] fix: insert_many_by_cursor into an empty tree no longer
 panics

---
 src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..45545a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -716,6 +716,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -754,7 +755,7 @@ impl<B: BTreeTrait> BTree<B> {
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
         let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM - 1).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -763,7 +764,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -780,13 +781,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
             let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM - 1).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -800,10 +801,13 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
-                        arena: ArenaIndex::Internal(child_idx),
-                        cache,
-                    };
+                    parent
+                        .children
+                        .push(Child {
+                            arena: ArenaIndex::Internal(child_idx),
+                            cache,
+                        })
+                        .unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From d736e3a252d366d1dd3e1676b4ed1f722b684b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 03/16] fix: merging adjacent elements of a bulk insertion
 keeps their order

---
 src/lib.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 45545a4..bebb957 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2737,28 +2737,14 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    data.dedup_by(|elem, prev| {
+        if prev.can_merge(elem) {
+            prev.merge_right(elem);
+            true
+        } else {
+            false
         }
-        i += 1;
-    }
-
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+    });
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From dc3f9c38f2b4bb9e3190d275ce272982aff17831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 04/16] fix: insert_many_by_cursor merges only with the element
 left of the insertion position

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bebb957..ed84ae9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -729,7 +729,13 @@ impl<B: BTreeTrait> BTree<B> {
             ..
         } = self.split_leaf_if_needed(cursor);
         let mut inserted = 0;
-        if let Some(left) = left_neighbour {
+        // the element on the left of the insertion position
+        let left = if cursor.offset == 0 {
+            left_neighbour
+        } else {
+            Some(cursor.leaf)
+        };
+        if let Some(left) = left {
             let left_node = self.leaf_nodes.get_mut(left.0).unwrap();
             let mut i = 0;
             while i < data.len() && left_node.elem.can_merge(&data[i]) {
@@ -741,7 +747,8 @@ impl<B: BTreeTrait> BTree<B> {
             inserted = i;
         }
 
-        let mut pos = new_pos.unwrap_or(cursor);
+        // there is no next element only when inserting at the end of the tree
+        let mut pos = new_pos.unwrap_or_else(|| self.end_cursor().unwrap());
         // TODO: PERF this can be optimized further
         for item in data.drain(inserted..).rev() {
             let (p, _) = self.insert_by_path(pos, item);
-- 
2.43.0


From ebe7647e60563a6fc5fee4bc7220adc730dc7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 05/16] fix: prepending to an empty tree updates the root cache

---
 src/lib.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed84ae9..8c999f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2532,15 +2532,7 @@ impl<B: BTreeTrait> BTree<B> {
 
     pub fn prepend(&mut self, elem: B::Elem) -> Cursor {
         let Some(leaf_idx) = self.first_leaf() else {
-            let parent_idx = self.root;
-            let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
-            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
-            let ans = data.arena;
-            parent.children.push(data).unwrap();
-            return Cursor {
-                leaf: ans.unwrap().into(),
-                offset: 0,
-            };
+            return self.push(elem);
         };
         let leaf = self.leaf_nodes.get_mut(leaf_idx.0).unwrap();
         let parent_idx = leaf.parent();
-- 
2.43.0


From 9cacdf1fabd9941fc9129add7f660a5cd1cff9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 06/16] fix: dropping the drain of an empty range does not
 panic

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..a040658 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        let Some(store) = self.store.take() else {
+            // the range is empty
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From 8e8c29add6a0d0eb3d77dc571052e7b889b41df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 07/16] fix: draining up to a zero-length element updates the
 caches

---
 src/iter.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index a040658..01ad11e 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,5 +1,5 @@
 use crate::{
-    delete_range, rle::HasLength, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
+    delete_range, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
     QueryResult,
 };
 
@@ -57,19 +57,8 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
                 Some(node_idx)
             }
         };
-        let leaf_after_drain_range = {
-            let node_idx = end_path.last().unwrap().arena;
-            if let Some(end) = end_result {
-                let len = tree.leaf_nodes.get(end.leaf.0).unwrap().elem.rle_len();
-                if len == end.offset {
-                    tree.next_same_level_in_node(node_idx)
-                } else {
-                    Some(node_idx)
-                }
-            } else {
-                None
-            }
-        };
+        // the end is always at the start of an element after splitting, and that element is kept
+        let leaf_after_drain_range = end_result.map(|x| x.leaf.into());
         Self {
             current_path: tree.get_path(start_result.leaf.into()),
             tree,
-- 
2.43.0


From 902d70726e4746f3fb21fee25e7a3ea16b6079d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 08/16] fix: shift_path_by_one_offset keeps the offset when it
 crosses internal nodes

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c999f4..cb3f6f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -847,7 +847,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From 70a2f1c26e8766a38b5478493b3cfafe70e4f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 09/16] fix: clearing a rope forgets the cached cursor

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..645dd6c 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -240,6 +240,7 @@ impl Rope {
     }
 
     pub fn clear(&mut self) {
+        self.cursor = None;
         self.tree.clear();
     }
 
-- 
2.43.0


From e126d246707da9043133bd52ee8635a75d7d51e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 10/16] fix: deleting a rope range bounded by usize::MAX does
 not overflow

---
 src/generic_impl/rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index 645dd6c..289fbdf 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -125,11 +125,11 @@ impl Rope {
 
         let start = match range.start_bound() {
             core::ops::Bound::Included(x) => *x,
-            core::ops::Bound::Excluded(x) => *x + 1,
+            core::ops::Bound::Excluded(x) => x.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&x) => x + 1,
+            core::ops::Bound::Included(&x) => x.saturating_add(1),
             core::ops::Bound::Excluded(&x) => x,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 0be4a742d9fb9f1a863546ec6ca6ffe1681e4174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 11/16] fix: trees may be higher than nine levels

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb3f6f4..a2b6c39 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -117,7 +117,7 @@ impl Idx {
     }
 }
 
-type NodePath = HeaplessVec<Idx, 10>;
+type NodePath = HeaplessVec<Idx, 16>;
 
 #[derive(Debug, Clone, PartialEq, Eq, Copy, Hash)]
 pub struct Cursor {
-- 
2.43.0


From 2380cfc64e0e1dc5656b8ad5b8f20c9fe20b2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 12/16] fix: iterating an unbounded range of an empty tree
 yields nothing

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a2b6c39..7aeec3f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1731,16 +1731,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        // an unbounded range of an empty tree is empty
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From 1918a28e37093aff69b4d4905372fc242c068d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 13/16] fix: depth() of an empty tree panicked

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7aeec3f..222ced8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2718,7 +2718,11 @@ impl<B: BTreeTrait> BTree<B> {
         let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
         loop {
             depth += 1;
-            index = node.children.first().unwrap().arena;
+            let Some(child) = node.children.first() else {
+                // the tree is empty
+                return depth;
+            };
+            index = child.arena;
             match index {
                 ArenaIndex::Leaf(_) => return depth,
                 ArenaIndex::Internal(index) => {
-- 
2.43.0


From daf2878d6b901e7bc861f5057290ae152e022c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 14/16] fix: draining from the very front left the rest of the
 tree unbalanced and as high as before

---
 src/iter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 01ad11e..121b481 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -238,6 +238,8 @@ impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
                 }
             }
             seal(self.tree, before);
+        } else if let Some(after) = leaf_after_drain_range {
+            seal(self.tree, after);
         } else {
             self.tree.update_root_cache();
             self.tree.try_reduce_levels();
-- 
2.43.0


From dc45ca4dcd92a22324932811c73f7d17b22cbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 15/16] fix: update_leaf: recompute the caches after an emptied
 leaf is taken out, not before

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 222ced8..b7ab5e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1310,7 +1310,7 @@ impl<B: BTreeTrait> BTree<B> {
 
         let deleted = node.elem.can_remove();
 
-        if need_update_cache {
+        if need_update_cache && !deleted {
             self.recursive_update_cache(node_idx.into(), B::USE_DIFF, None);
         }
 
@@ -1322,6 +1322,7 @@ impl<B: BTreeTrait> BTree<B> {
             let slot = Self::get_leaf_slot(node_idx.0, parent);
             parent.children.remove(slot);
             let is_lack = parent.is_lack();
+            self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
             if is_lack {
                 self.handle_lack_recursively(parent_idx);
             }
-- 
2.43.0


From 9aaf9192795925f5188643c86a3768f1dcc5ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 16/16] fix: update: recompute the caches above the leaves
 split at the ends of the range

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b7ab5e5..54307cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1014,6 +1014,12 @@ impl<B: BTreeTrait> BTree<B> {
             ..
         } = self.split_leaf_if_needed(start);
         splitted.push_option(new_leaf);
+        if !B::USE_DIFF {
+            // the nodes above the split leaves may have no updated leaf below them
+            for &new_leaf in splitted.arr.iter() {
+                self.recursive_update_cache(new_leaf.into(), false, None);
+            }
+        }
         let Some(start) = start else {
             return splitted;
         };
-- 
2.43.0

