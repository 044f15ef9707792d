From 081f9fccbc32deda99f5a137affb55d86dff949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 01/47] fix: reject MMR proofs that leave trailing peaks
 unaccounted for

---
 grovedb-merkle-mountain-range/src/proof.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..fe90e10 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -276,21 +276,27 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     let peaks = get_peaks(mmr_size);
 
     let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    let mut last_from_proof = false;
+    let mut right_peaks_missing = false;
     for peak_pos in peaks {
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
             // leaf is the peak
+            last_from_proof = false;
             leaves.remove(0).1
         } else if leaves.is_empty() {
             // if empty, means the next proof is a peak root or rhs bagged root
             if let Some(peak_root) = proof_iter.next() {
+                last_from_proof = true;
                 peak_root.clone()
             } else {
                 // means that either all right peaks are bagged, or proof is corrupted
                 // so we break loop and check no items left
+                right_peaks_missing = !last_from_proof;
                 break;
             }
         } else {
+            last_from_proof = false;
             calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
         };
         peaks_hashes.push(peak_root.clone());
@@ -300,6 +306,14 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     if !leaves.is_empty() {
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
+    // unless the last proof item stands for the remaining peaks, the peak
+    // computed last would pass for the bagged root, which lets a leaf be
+    // proved at an index it does not have
+    if right_peaks_missing {
+        return Err(Error::InvalidProof(
+            "not enough proof items for the remaining peaks".into(),
+        ));
+    }
 
     // check rhs peaks
     if let Some(rhs_peaks_hashes) = proof_iter.next() {
-- 
2.43.0


From cf8daf35b91207ec1a292968421e761eb8120311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 02/47] fix: select no dense tree position for inclusive ranges
 over an empty tree

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..ea111ac 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -66,8 +66,7 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                for p in (start..=end).take_while(|p| *p < count) {
                     positions.insert(p);
                 }
             }
@@ -90,8 +89,7 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                for p in (0..=end).take_while(|p| *p < count) {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From c5e46e8594fee8bf50d5e8ec64bf4b05447759db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 03/47] fix: make dense tree proofs of an empty selection
 verifiable

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index ea111ac..c0b044f 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -206,6 +206,13 @@ impl DenseTreeProof {
         let mut node_value_hashes: Vec<(u16, [u8; 32])> = Vec::new();
         let mut node_hashes: Vec<(u16, [u8; 32])> = Vec::new();
 
+        // With nothing to prove there is no auth path: the root hash itself
+        // is what lets an (empty) proof of a non-empty tree be verified
+        if expanded.is_empty() && count > 0 {
+            let hash = cost_return_on_error!(cost, tree.hash_position(0));
+            node_hashes.push((0, hash));
+        }
+
         for &pos in &expanded {
             // Get the value for this position
             let opt = cost_return_on_error!(cost, tree.get_value(pos));
-- 
2.43.0


From 534847b03ddf75c439e635a7f4cf89998b75d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 04/47] fix: keep staged MMR nodes when a commit fails

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..f67415e 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -98,12 +98,18 @@ impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        // Keep the buffer until everything is stored: when the store fails,
+        // the elements stay readable and the commit can be repeated.
+        for (pos, elems) in self.memory_batch.iter() {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
                 return Err(e).wrap_with_cost(cost);
             }
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From fa350d13b98193e4ea4a592d0768690b76b426c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 05/47] fix: position reverse iteration below an exclusive end
 past the last stored key

---
 grovedb-query/src/query_item/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 6525f2a..d0db815 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -676,6 +676,24 @@ impl QueryItem {
         }
     }
 
+    /// Positions a storage iterator on the last key before `end`.
+    #[cfg(feature = "blockchain")]
+    fn seek_before<I: RawIterator>(iter: &mut I, end: &[u8]) -> CostContext<()> {
+        let mut cost = OperationCost::default();
+        iter.seek(end).unwrap_add_cost(&mut cost);
+        iter.prev().unwrap_add_cost(&mut cost);
+        // When the storage holds nothing at or after `end` there was no entry
+        // to step back from, so the position has to be sought from below. This
+        // is not charged, as it depends on what else the storage holds.
+        if !iter.valid().unwrap() {
+            iter.seek_for_prev(end).unwrap();
+            if iter.key().unwrap() == Some(end) {
+                iter.prev().unwrap();
+            }
+        }
+        ().wrap_with_cost(cost)
+    }
+
     /// Positions a storage iterator to the start of this query item, seeking
     /// forward or backward based on `left_to_right`.
     #[cfg(feature = "blockchain")]
@@ -690,7 +708,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek(start)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeInclusive(range_inclusive) => {
@@ -718,7 +736,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek_to_first()
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeToInclusive(RangeToInclusive { end }) => {
@@ -755,7 +773,7 @@ impl QueryItem {
                     }
                     ().wrap_with_cost(cost)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeAfterToInclusive(range_inclusive) => {
-- 
2.43.0


From 696479c0e6052634ff8d84c59d445f41006109bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 06/47] fix: keep every selection and subquery when merging
 queries

Merging dropped the default subquery of the query merged into for keys both
queries select, applied its default or unused conditional subqueries to keys
only the other query selects, and let pieces of overlapping conditional
subqueries shadow merged ones.
---
 grovedb-query/src/merge.rs | 386 ++++++++++++++++---------------------
 grovedb/src/query/mod.rs   |   3 +-
 2 files changed, 169 insertions(+), 220 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..53a2a7b 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -1,11 +1,16 @@
 use indexmap::IndexMap;
 
 use crate::{
-    common_path::CommonPathResult, query_item::QueryItem, Query, QueryItemIntersectionResult,
-    SubqueryBranch,
+    common_path::CommonPathResult,
+    query_item::{intersect::QueryItemManyIntersectionResult, QueryItem},
+    Query, SubqueryBranch,
 };
 
 impl SubqueryBranch {
+    fn is_empty(&self) -> bool {
+        self.subquery_path.is_none() && self.subquery.is_none()
+    }
+
     fn merge_subquery(
         &self,
         other_default_branch_subquery: Option<Box<Query>>,
@@ -26,6 +31,13 @@ impl SubqueryBranch {
     /// subqueries. When paths differ, creates conditional subqueries to
     /// preserve both branches.
     pub fn merge(&self, other: &Self) -> Self {
+        // an empty branch has nothing to contribute
+        if self.is_empty() {
+            return other.clone();
+        }
+        if other.is_empty() {
+            return self.clone();
+        }
         match (&self.subquery_path, &other.subquery_path) {
             (None, None) => {
                 // they both just have subqueries without paths
@@ -80,9 +92,8 @@ impl SubqueryBranch {
                         } else {
                             Some(left_path_leftovers)
                         };
-                        merged_query.insert_key(left_top_key.clone());
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(left_top_key),
+                        merged_query.merge_items(
+                            vec![QueryItem::Key(left_top_key)],
                             SubqueryBranch {
                                 subquery_path: maybe_left_path_leftovers,
                                 subquery: self.subquery.clone(),
@@ -95,9 +106,8 @@ impl SubqueryBranch {
                             Some(right_path_leftovers)
                         };
 
-                        merged_query.insert_key(right_top_key.clone());
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(right_top_key),
+                        merged_query.merge_items(
+                            vec![QueryItem::Key(right_top_key)],
                             SubqueryBranch {
                                 subquery_path: maybe_right_path_leftovers,
                                 subquery: other.subquery.clone(),
@@ -118,11 +128,10 @@ impl SubqueryBranch {
                             Some(left_path_leftovers)
                         };
 
-                        merged_query.insert_key(first_key.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(first_key),
+                        merged_query.merge_items(
+                            vec![QueryItem::Key(first_key)],
                             SubqueryBranch {
                                 subquery_path: maybe_left_path_leftovers,
                                 subquery: self.subquery.clone(),
@@ -143,11 +152,10 @@ impl SubqueryBranch {
                         } else {
                             Some(right_path_leftovers)
                         };
-                        merged_query.insert_key(other_first.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(other_first),
+                        merged_query.merge_items(
+                            vec![QueryItem::Key(other_first)],
                             SubqueryBranch {
                                 subquery_path: maybe_right_path_leftovers,
                                 subquery: other.subquery.clone(),
@@ -175,8 +183,6 @@ impl SubqueryBranch {
 
                 let our_top_key = our_subquery_path.remove(0);
 
-                merged_subquery.insert_key(our_top_key.clone());
-
                 let maybe_our_subquery_path = if our_subquery_path.is_empty() {
                     None
                 } else {
@@ -184,9 +190,9 @@ impl SubqueryBranch {
                 };
                 // our subquery stays the same as we didn't change level
                 // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
+                merged_subquery.merge_items(
                     // there are no conditional subquery branches yes
-                    QueryItem::Key(our_top_key),
+                    vec![QueryItem::Key(our_top_key)],
                     SubqueryBranch {
                         subquery_path: maybe_our_subquery_path,
                         subquery: self.subquery.clone(),
@@ -211,8 +217,6 @@ impl SubqueryBranch {
 
                 let their_top_key = their_subquery_path.remove(0);
 
-                merged_subquery.insert_key(their_top_key.clone());
-
                 let maybe_their_subquery_path = if their_subquery_path.is_empty() {
                     None
                 } else {
@@ -220,9 +224,9 @@ impl SubqueryBranch {
                 };
                 // their subquery stays the same as we didn't change level
                 // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
+                merged_subquery.merge_items(
                     // there are no conditional subquery branches yes
-                    QueryItem::Key(their_top_key),
+                    vec![QueryItem::Key(their_top_key)],
                     SubqueryBranch {
                         subquery_path: maybe_their_subquery_path,
                         subquery: other.subquery.clone(),
@@ -444,7 +448,7 @@ impl Query {
         let mut merged_query = queries.swap_remove(0);
         for query in queries {
             let Query {
-                mut items,
+                items,
                 default_subquery_branch,
                 conditional_subquery_branches,
                 left_to_right: _,
@@ -454,54 +458,11 @@ impl Query {
             if add_parent_tree_on_subquery {
                 merged_query.add_parent_tree_on_subquery = true;
             }
-            // the searched for items are the union of all items
-            merged_query.insert_items(items.clone());
-
-            // // We now need to deal with subqueries
-            // let QueryItemManyIntersectionResult{ in_both, ours, theirs } =
-            // QueryItem::intersect_many_ordered(&mut merged_query.items, items);
-            // // for the items that are in both we should set them to the merged subquery
-            // branch
-            //
-            // // for the items that are in ours and theirs we should add conditional
-            // subqueries if let Some(ours) = ours {
-            //     for our_item in ours {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(our_item,
-            // conditional_subquery_branch)     }
-            // }
-            //
-            // if let Some(theirs) = theirs {
-            //     for their_item in theirs {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(their_item,
-            // conditional_subquery_branch)     }
-            // }
-
-            if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-                // if there are conditional subqueries
-                // we need to remove from our items the conditional items
-
-                for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches
-                {
-                    merged_query.merge_conditional_boxed_subquery(
-                        conditional_item.clone(),
-                        conditional_subquery_branch,
-                    );
-                    if !items.is_empty() {
-                        let intersection_result =
-                            QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                        items = intersection_result.ours.unwrap_or_default();
-                    }
-                }
-            }
-            // if there are no conditional subquery items then things are easy
-            // we create a conditional subquery item for all our items and add it to the
-            // query
-            for item in items {
-                merged_query
-                    .merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
-            }
+            merged_query.merge_items_and_branches(
+                items,
+                default_subquery_branch,
+                conditional_subquery_branches,
+            );
         }
         merged_query
     }
@@ -510,7 +471,7 @@ impl Query {
     /// subquery branches.
     pub fn merge_with(&mut self, other: Query) {
         let Query {
-            mut items,
+            items,
             default_subquery_branch,
             conditional_subquery_branches,
             left_to_right: _,
@@ -520,34 +481,100 @@ impl Query {
         if add_parent_tree_on_subquery {
             self.add_parent_tree_on_subquery = true;
         }
-        self.insert_items(items.clone());
+        self.merge_items_and_branches(
+            items,
+            default_subquery_branch,
+            conditional_subquery_branches,
+        );
+    }
 
-        // let intersection_result = QueryItem::intersect_many_ordered(&mut self.items,
-        // items); // merge query items as they point to the same context
-        // for item in items {
-        //     self.insert_item(item)
-        // }
+    /// Merges the items of another query into this one, each with the subquery
+    /// branch the other query has for it.
+    fn merge_items_and_branches(
+        &mut self,
+        items: Vec<QueryItem>,
+        default_subquery_branch: SubqueryBranch,
+        conditional_subquery_branches: Option<IndexMap<QueryItem, SubqueryBranch>>,
+    ) {
+        // the branches of the other query only matter for the items it searches
+        // for, and the first conditional branch matching a key is the one used
+        let mut remaining_items = items.clone();
+        let mut items_by_branch = vec![];
+        for (conditional_item, subquery_branch) in conditional_subquery_branches.unwrap_or_default()
+        {
+            let (inside, outside) = Self::split_items(remaining_items, &conditional_item);
+            items_by_branch.push((inside, subquery_branch));
+            remaining_items = outside;
+        }
+        items_by_branch.push((remaining_items, default_subquery_branch));
+        for (items_of_branch, subquery_branch) in items_by_branch {
+            self.merge_branch_on_items(items_of_branch, subquery_branch);
+        }
+        // the searched for items are the union of all items
+        self.insert_items(items);
+    }
 
-        // self.merge_default_subquery_branch(default_subquery_branch);
-        if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-            for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches {
-                self.merge_conditional_boxed_subquery(
-                    conditional_item.clone(),
-                    conditional_subquery_branch,
-                );
+    /// Searches for the given items as well, with the given subquery branch
+    /// below them.
+    pub fn merge_items(&mut self, items: Vec<QueryItem>, subquery_branch: SubqueryBranch) {
+        self.merge_branch_on_items(items.clone(), subquery_branch);
+        self.insert_items(items);
+    }
 
-                if !items.is_empty() {
-                    let intersection_result =
-                        QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                    items = intersection_result.ours.unwrap_or_default();
-                }
+    /// Merges a subquery branch into the branches that apply to the given
+    /// items, which are about to be added to the items of this query.
+    fn merge_branch_on_items(&mut self, items: Vec<QueryItem>, subquery_branch: SubqueryBranch) {
+        // keys this query searches for already keep their branch, the new one is
+        // merged into it
+        let mut new_items = items;
+        let mut shared_items = vec![];
+        for our_item in &self.items {
+            let (inside, outside) = Self::split_items(new_items, our_item);
+            shared_items.extend(inside);
+            new_items = outside;
+        }
+        if !subquery_branch.is_empty() {
+            let default_merged_branch = self.default_subquery_branch.merge(&subquery_branch);
+            for shared_item in shared_items {
+                self.conditional_subquery_branches = Some(Self::merge_conditional_branches(
+                    self.conditional_subquery_branches.take(),
+                    shared_item,
+                    &subquery_branch,
+                    &default_merged_branch,
+                ));
             }
         }
-        for item in items {
-            self.merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
+        // for the other keys only the new branch applies
+        for new_item in new_items {
+            let mut branches = IndexMap::new();
+            for (conditional_item, branch) in self
+                .conditional_subquery_branches
+                .take()
+                .unwrap_or_default()
+            {
+                for outside in Self::split_items(vec![conditional_item], &new_item).1 {
+                    branches.entry(outside).or_insert_with(|| branch.clone());
+                }
+            }
+            if !subquery_branch.is_empty() || !self.default_subquery_branch.is_empty() {
+                branches.insert(new_item, subquery_branch.clone());
+            }
+            if !branches.is_empty() {
+                self.conditional_subquery_branches = Some(branches);
+            }
         }
     }
 
+    /// Splits query items into the parts inside and the parts outside of `item`.
+    fn split_items(
+        mut items: Vec<QueryItem>,
+        item: &QueryItem,
+    ) -> (Vec<QueryItem>, Vec<QueryItem>) {
+        let QueryItemManyIntersectionResult { in_both, ours, .. } =
+            QueryItem::intersect_many_ordered(&mut items, vec![item.clone()]);
+        (in_both.unwrap_or_default(), ours.unwrap_or_default())
+    }
+
     /// Adds a conditional subquery. A conditional subquery replaces the default
     /// subquery and subquery_path if the item matches for the key. If
     /// multiple conditional subquery items match, then the first one that
@@ -578,137 +605,60 @@ impl Query {
         conditional_subquery_branches: Option<IndexMap<QueryItem, SubqueryBranch>>,
         query_item_merging_in: QueryItem,
         subquery_branch_merging_in: SubqueryBranch,
+    ) -> IndexMap<QueryItem, SubqueryBranch> {
+        Self::merge_conditional_branches(
+            conditional_subquery_branches,
+            query_item_merging_in,
+            &subquery_branch_merging_in,
+            &subquery_branch_merging_in,
+        )
+    }
+
+    /// Merges `subquery_branch_merging_in` into the conditional branches where
+    /// they intersect `query_item_merging_in`. What is left of the item gets
+    /// `leftover_subquery_branch`.
+    fn merge_conditional_branches(
+        conditional_subquery_branches: Option<IndexMap<QueryItem, SubqueryBranch>>,
+        query_item_merging_in: QueryItem,
+        subquery_branch_merging_in: &SubqueryBranch,
+        leftover_subquery_branch: &SubqueryBranch,
     ) -> IndexMap<QueryItem, SubqueryBranch> {
         let mut merged_items: IndexMap<QueryItem, SubqueryBranch> = IndexMap::new();
-        // first we need to check if there are already conditional subquery branches
-        // because if there are none then we just assign the new conditional subquery
-        // branch instead of merging it in
-        if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-            // There were conditional subquery branches
-            // We create a vector of the query item we are merging in
-            // On the first loop this is a continuous query item (for example a range)
-            // However as we find things that intersect with it, it might break
-            // Example:
-            // *On first pass:
-            // **Current Subqueries:                   -----------------      --------
-            // ----- **Conditional Subquery merging in:
-            // ------------------------------------ **After first query:
-            // --*****************----------------- We then feed back in
-            // *On second pass:
-            // **Current Subqueries:                   -----------------      --------
-            // ----- **Conditional Subquery merging in:    --
-            // ----------------- Lets say M is the one we are merging in and 1,
-            // 2 and 3 are the previous conditional Suqueries
-            // In the end we will have:              MM11111111111111111MMMMMM22222222MMM
-            // 33333
-            let mut sub_query_items_merging_in_vec = vec![query_item_merging_in];
-            for (original_query_item, subquery_branch) in conditional_subquery_branches {
-                let mut new_query_items_merging_in_vec = vec![];
-                let mut hit = false;
-                for sub_query_item_merging_in in sub_query_items_merging_in_vec {
-                    let QueryItemIntersectionResult {
-                        in_both,
-                        ours_left,
-                        ours_right,
-                        theirs_left,
-                        theirs_right,
-                    } = original_query_item.intersect(&sub_query_item_merging_in);
-                    if let Some(in_both) = in_both {
-                        if !hit {
-                            hit = true;
-                        }
-                        // merge the overlapping subquery branches
-                        let merged_subquery_branch =
-                            subquery_branch.merge(&subquery_branch_merging_in);
-                        merged_items.insert(in_both, merged_subquery_branch);
-
-                        match (ours_left, ours_right, theirs_left, theirs_right) {
-                            (None, None, None, None) => {}
-                            (Some(ours_left), None, None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                            }
-                            (None, Some(ours_right), None, None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (Some(ours_left), Some(ours_right), None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (None, None, Some(theirs_left), None) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), None, Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, None, None, Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), None, None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, None, Some(theirs_left), Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-
-                            (Some(ours_left), None, Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (
-                                Some(ours_left),
-                                Some(ours_right),
-                                Some(theirs_left),
-                                Some(theirs_right),
-                            ) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                        }
-                    } else {
-                        // there was no overlap
-                        // re-add to merged_items
-                        new_query_items_merging_in_vec.push(sub_query_item_merging_in);
-                    }
-                }
-                if !hit {
-                    merged_items.insert(original_query_item, subquery_branch.clone());
+        // On the first loop the item we are merging in is a continuous query item
+        // (for example a range)
+        // However as we find things that intersect with it, it might break
+        // Example:
+        // Lets say M is the one we are merging in and 1, 2 and 3 are the previous
+        // conditional subqueries
+        // In the end we will have:              MM11111111111111111MMMMMM22222222MMM 33333
+        // where the parts of 1 and 2 inside of M are merged with it
+        let mut items_merging_in = vec![query_item_merging_in];
+        for (original_query_item, subquery_branch) in
+            conditional_subquery_branches.unwrap_or_default()
+        {
+            let mut ours = vec![original_query_item.clone()];
+            for item_merging_in in &items_merging_in {
+                let (inside, outside) = Self::split_items(ours, item_merging_in);
+                for item in inside {
+                    // merge the overlapping subquery branches, an earlier branch for
+                    // the same item has precedence
+                    merged_items
+                        .entry(item)
+                        .or_insert_with(|| subquery_branch.merge(subquery_branch_merging_in));
                 }
-                sub_query_items_merging_in_vec = new_query_items_merging_in_vec;
+                ours = outside;
             }
-            for split_item in sub_query_items_merging_in_vec {
-                merged_items.insert(split_item, subquery_branch_merging_in.clone());
+            for item in ours {
+                merged_items
+                    .entry(item)
+                    .or_insert_with(|| subquery_branch.clone());
             }
-        } else {
-            merged_items.insert(query_item_merging_in, subquery_branch_merging_in);
+            items_merging_in = Self::split_items(items_merging_in, &original_query_item).1;
+        }
+        for item in items_merging_in {
+            merged_items
+                .entry(item)
+                .or_insert_with(|| leftover_subquery_branch.clone());
         }
         merged_items
     }
diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..70a89d8 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -239,7 +239,6 @@ impl PathQuery {
             let mut subquery_path =
                 subquery_path.ok_or(Error::CorruptedCodeExecution("subquery path must exist"))?;
             let key = subquery_path.remove(0); // must exist
-            merged_query.insert_item(QueryItem::Key(key.clone()));
             let rest_of_path = if subquery_path.is_empty() {
                 None
             } else {
@@ -249,7 +248,7 @@ impl PathQuery {
                 subquery_path: rest_of_path,
                 subquery,
             };
-            merged_query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            merged_query.merge_items(vec![QueryItem::Key(key)], subquery_branch);
         }
 
         Ok(PathQuery::new_unsized(common_path, merged_query))
-- 
2.43.0


From a1aa597fac0561b41f5311dff65f5859da810646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 07/47] fix: recognise the root path however it was built

---
 path/src/subtree_path_builder.rs | 10 ++--------
 path/src/subtree_path_iter.rs    |  7 +------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..8b130aa 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,7 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        self.len() == 0
     }
 }
 
@@ -332,13 +332,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.is_empty()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..a5b63a4 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,12 +77,7 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
-            && match &self.current_iter {
-                CurrentSubtreePathIter::Single(_) => false,
-                CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-                CurrentSubtreePathIter::OwnedBytes(bytes_iter) => bytes_iter.len() == 0,
-            }
+        self.len() == 0
     }
 }
 
-- 
2.43.0


From e0b6158291326c0894af8b9661b8d0a96a390650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 08/47] fix: keep sectioned removed bytes when adding a basic
 removal

Adding a basic removal to a sectioned one (either way round, and in place)
dropped the amounts of the default identifier. The total of removed bytes
saturates.
---
 costs/src/storage_cost/removal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..b13eb4f 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
@@ -152,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
@@ -232,8 +235,8 @@ impl StorageRemovedBytes {
             BasicStorageRemoval(r) => *r,
             SectionedStorageRemoval(m) => m
                 .values()
-                .map(|int_map| int_map.values().copied().sum::<u32>())
-                .sum(),
+                .flat_map(|int_map| int_map.values().copied())
+                .fold(0, u32::saturating_add),
         }
     }
 }
-- 
2.43.0


From d671d24f0948960739fef06ca6007c8077761974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 09/47] fix: do not invert references that append nothing

---
 grovedb-element/src/reference_path/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grovedb-element/src/reference_path/mod.rs b/grovedb-element/src/reference_path/mod.rs
index fab47eb..0a3d265 100644
--- a/grovedb-element/src/reference_path/mod.rs
+++ b/grovedb-element/src/reference_path/mod.rs
@@ -69,7 +69,11 @@ impl ReferencePathType {
             }
             // Since both reference origin and path share N first segments, the backward reference
             // can do the same, key we shall persist for a qualified path as the output
-            ReferencePathType::UpstreamRootHeightReference(n, _) => {
+            ReferencePathType::UpstreamRootHeightReference(n, append_path) => {
+                // The target is not below the shared segments if nothing is appended to them
+                if append_path.is_empty() {
+                    return None;
+                }
                 let relative_path: Vec<_> = path
                     .to_vec()
                     .into_iter()
@@ -92,7 +96,8 @@ impl ReferencePathType {
             // Discarding N latest segments is relative to the previously appended path, so it would
             // be easier to discard appended paths both ways and have a shared prefix.
             ReferencePathType::UpstreamFromElementHeightReference(n, append_path) => {
-                if append_path.len() > u8::MAX as usize {
+                // The target is not below the shared segments if nothing is appended to them
+                if append_path.is_empty() || append_path.len() > u8::MAX as usize {
                     return None;
                 }
                 let mut relative_path: Vec<Vec<u8>> = path
-- 
2.43.0


From 5c7e7fa013053d867468d2f5bcf89a3c2684d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 10/47] fix: reject epoch storage flags with bytes left over

---
 grovedb-epoch-based-storage-flags/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grovedb-epoch-based-storage-flags/src/lib.rs b/grovedb-epoch-based-storage-flags/src/lib.rs
index 5a9168a..326a65e 100644
--- a/grovedb-epoch-based-storage-flags/src/lib.rs
+++ b/grovedb-epoch-based-storage-flags/src/lib.rs
@@ -575,6 +575,11 @@ impl StorageFlags {
                 offset += bytes_used;
                 bytes_per_epoch.insert(epoch_index, bytes_at_epoch);
             }
+            if offset != len {
+                return Err(StorageFlagsError::StorageFlagsWrongSize(
+                    "multi epoch must not have bytes left over".to_string(),
+                ));
+            }
             Ok(MultiEpoch(base_epoch, bytes_per_epoch))
         }
     }
@@ -638,6 +643,11 @@ impl StorageFlags {
                 offset += bytes_used;
                 bytes_per_epoch.insert(epoch_index, bytes_at_epoch);
             }
+            if offset != len {
+                return Err(StorageFlagsError::StorageFlagsWrongSize(
+                    "multi epoch owned must not have bytes left over".to_string(),
+                ));
+            }
             Ok(MultiEpochOwned(base_epoch, bytes_per_epoch, owner_id))
         }
     }
-- 
2.43.0


From 70fcf01864b29ca980dcdb73af6ddbd292e47245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 11/47] fix: do not overflow when splitting nearly u32::MAX
 removed bytes

---
 grovedb-epoch-based-storage-flags/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grovedb-epoch-based-storage-flags/src/lib.rs b/grovedb-epoch-based-storage-flags/src/lib.rs
index 326a65e..fa8c980 100644
--- a/grovedb-epoch-based-storage-flags/src/lib.rs
+++ b/grovedb-epoch-based-storage-flags/src/lib.rs
@@ -784,9 +784,9 @@ impl StorageFlags {
 
             while bytes_left > 0 {
                 if let Some((epoch_index, bytes_in_epoch)) = rev_iter.next() {
-                    if *bytes_in_epoch <= bytes_left + MINIMUM_NON_BASE_FLAGS_SIZE {
-                        let epoch_removable =
-                            bytes_in_epoch.saturating_sub(MINIMUM_NON_BASE_FLAGS_SIZE);
+                    let epoch_removable =
+                        bytes_in_epoch.saturating_sub(MINIMUM_NON_BASE_FLAGS_SIZE);
+                    if epoch_removable <= bytes_left {
                         sectioned_storage_removal.insert(*epoch_index, epoch_removable);
                         bytes_left = bytes_left.saturating_sub(epoch_removable);
                     } else {
-- 
2.43.0


From 5670f929279bb361a60cf35fffbc94108a744677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 12/47] fix: advance the proof decoder by the bytes an op was
 read from

---
 grovedb-query/src/proofs/encoding.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/proofs/encoding.rs b/grovedb-query/src/proofs/encoding.rs
index 8cfadb3..e6e8eac 100644
--- a/grovedb-query/src/proofs/encoding.rs
+++ b/grovedb-query/src/proofs/encoding.rs
@@ -1049,6 +1049,11 @@ impl Op {
 
     /// Decode an Op from bytes
     pub fn decode(bytes: &[u8]) -> Result<Self, Error> {
+        Self::decode_from(&mut &*bytes)
+    }
+
+    /// Decode an Op from the front of `bytes`, leaving the bytes that follow it
+    fn decode_from(bytes: &mut &[u8]) -> Result<Self, Error> {
         Decode::decode(bytes).map_err(|e| match e {
             EdError::UnexpectedByte(byte) => Error::InvalidProofError(format!(
                 "failed to decode an proofs::Op structure (UnexpectedByte: {byte})"
@@ -1104,9 +1109,11 @@ impl Iterator for Decoder<'_> {
         }
 
         Some((|| {
-            let bytes = &self.bytes[self.offset..];
-            let op = Op::decode(bytes)?;
-            self.offset += op.encoding_length();
+            // Advance by the bytes actually read: an op that was not written in
+            // its shortest form is longer than its own encoding length.
+            let mut bytes = &self.bytes[self.offset..];
+            let op = Op::decode_from(&mut bytes)?;
+            self.offset = self.bytes.len() - bytes.len();
             Ok(op)
         })())
     }
-- 
2.43.0


From c5126f2fe67e5c6436c2cca0d4277b079e1af13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 13/47] fix: bound the lengths an element is decoded with

---
 grovedb-element/src/element/serialize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..93a0e10 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -6,6 +6,11 @@ use grovedb_version::{check_grovedb_v0, version::GroveVersion};
 
 use crate::{element::Element, error::ElementError};
 
+/// Most bytes an element may claim while it is being read. A length found in
+/// untrusted bytes is allocated before its contents are read, so it has to be
+/// bounded.
+const MAX_ELEMENT_LEN: usize = 256 * 1024 * 1024;
+
 impl Element {
     /// Serializes self. Returns vector of u8s.
     pub fn serialize(&self, grove_version: &GroveVersion) -> Result<Vec<u8>, ElementError> {
@@ -34,7 +39,9 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
+        let config = config::standard()
+            .with_big_endian()
+            .with_limit::<MAX_ELEMENT_LEN>();
         Ok(bincode::decode_from_slice(bytes, config)
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
-- 
2.43.0


From 470730ecafc338dd057f9a7a607ee021f67a98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 14/47] fix: read query items from text by the names they are
 written with

---
 grovedb-query/src/query_item/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index d0db815..212571c 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -131,7 +131,7 @@ impl<'de> Deserialize<'de> for QueryItem {
         D: Deserializer<'de>,
     {
         #[derive(Deserialize)]
-        #[serde(field_identifier, rename_all = "snake_case")]
+        #[serde(field_identifier)]
         enum Field {
             Key,
             Range,
-- 
2.43.0


From efae02be300e70246d58c4874c90b60de9de5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 15/47] fix: account for each selected key once when listing
 terminal keys

A key of a conditional without subquery was left out, a key only a conditional
names was listed though the query does not select it, and overlapping
conditionals listed a key for each of them.
---
 grovedb-query/src/query.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..bd56327 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -358,6 +358,16 @@ impl Query {
         self.terminal_keys_inner(current_path, max_results, result, 0)
     }
 
+    /// The subquery branch that applies to a key: the first conditional that
+    /// contains it, or the default one.
+    fn subquery_branch_for_key(&self, key: &[u8]) -> &SubqueryBranch {
+        self.conditional_subquery_branches
+            .iter()
+            .flatten()
+            .find(|(query_item, _)| query_item.contains(key))
+            .map_or(&self.default_subquery_branch, |(_, branch)| branch)
+    }
+
     fn terminal_keys_inner(
         &self,
         current_path: Vec<Vec<u8>>,
@@ -374,7 +384,7 @@ impl Query {
         let mut added = 0;
         let mut already_added_keys = HashSet::new();
         if let Some(conditional_subquery_branches) = &self.conditional_subquery_branches {
-            for (conditional_query_item, subquery_branch) in conditional_subquery_branches {
+            for conditional_query_item in conditional_subquery_branches.keys() {
                 // unbounded ranges can not be supported
                 if conditional_query_item.is_unbounded_range() {
                     return Err(Error::NotSupported(
@@ -384,6 +394,12 @@ impl Query {
                 }
                 let conditional_keys = conditional_query_item.keys()?;
                 for key in conditional_keys.into_iter() {
+                    // only keys the query selects are reached, and each of them once
+                    if already_added_keys.contains(&key)
+                        || !self.items.iter().any(|item| item.contains(&key))
+                    {
+                        continue;
+                    }
                     if current_len > max_results {
                         return Err(Error::RequestAmountExceeded(format!(
                             "terminal keys limit exceeded for conditional subqueries, set max is \
@@ -391,6 +407,7 @@ impl Query {
                         )));
                     }
                     already_added_keys.insert(key.clone());
+                    let subquery_branch = self.subquery_branch_for_key(&key);
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
@@ -442,6 +459,18 @@ impl Query {
                             subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
                         added += added_here;
                         current_len += added_here;
+                    } else {
+                        // nothing below the key is queried, the key itself is terminal
+                        if current_len == max_results {
+                            return Err(Error::RequestAmountExceeded(format!(
+                                "terminal keys limit exceeded for a conditional without subquery \
+                                 or subquery path, set max is {max_results}, current length is \
+                                 {current_len}",
+                            )));
+                        }
+                        result.push((path, key));
+                        added += 1;
+                        current_len += 1;
                     }
                 }
             }
@@ -464,9 +493,10 @@ impl Query {
                          current len is {current_len}",
                     )));
                 }
+                let subquery_branch = self.subquery_branch_for_key(&key);
                 let mut path = current_path.clone();
-                if let Some(subquery_path) = &self.default_subquery_branch.subquery_path {
-                    if let Some(subquery) = &self.default_subquery_branch.subquery {
+                if let Some(subquery_path) = &subquery_branch.subquery_path {
+                    if let Some(subquery) = &subquery_branch.subquery {
                         // a subquery path with a subquery
                         // push the key to the path
                         path.push(key);
@@ -500,7 +530,7 @@ impl Query {
                         added += 1;
                         current_len += 1;
                     }
-                } else if let Some(subquery) = &self.default_subquery_branch.subquery {
+                } else if let Some(subquery) = &subquery_branch.subquery {
                     // a subquery without a subquery path
                     // push the key to the path
                     path.push(key);
-- 
2.43.0


From 2a8042826508468e7faa337e9ce0f1a7a8220bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 16/47] fix: let a conditional without subquery exempt its keys
 when proving

Queries treat keys of such a conditional as results, while proofs took them to
have a subquery.
---
 grovedb/src/query/mod.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 70a89d8..aa05e41 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -616,9 +616,14 @@ impl HasSubquery<'_> {
     pub fn has_subquery_on_key(&self, key: &[u8]) -> bool {
         match self {
             HasSubquery::NoSubquery => false,
+            // the first conditional that contains the key applies, it may ask for nothing
+            // below the key
             HasSubquery::Conditionally(conditionally) => conditionally
-                .keys()
-                .any(|query_item| query_item.contains(key)),
+                .iter()
+                .find(|(query_item, _)| query_item.contains(key))
+                .is_some_and(|(_, branch)| {
+                    branch.subquery.is_some() || branch.subquery_path.is_some()
+                }),
             HasSubquery::Always => true,
         }
     }
@@ -698,7 +703,21 @@ impl<'a> SinglePathSubquery<'a> {
         let has_subquery = if query.default_subquery_branch.subquery.is_some()
             || query.default_subquery_branch.subquery_path.is_some()
         {
-            HasSubquery::Always
+            match query.conditional_subquery_branches.as_ref() {
+                // a conditional without subquery exempts its keys from the default subquery
+                Some(conditional)
+                    if conditional.values().any(|branch| {
+                        branch.subquery.is_none() && branch.subquery_path.is_none()
+                    }) =>
+                {
+                    let mut conditional = conditional.clone();
+                    conditional
+                        .entry(QueryItem::RangeFull(..))
+                        .or_insert_with(|| query.default_subquery_branch.clone());
+                    HasSubquery::Conditionally(Cow::Owned(conditional))
+                }
+                _ => HasSubquery::Always,
+            }
         } else if let Some(conditional) = query.conditional_subquery_branches.as_ref() {
             HasSubquery::Conditionally(Cow::Borrowed(conditional))
         } else {
-- 
2.43.0


From 40f2d4c5256f212dd3bc062fab539ee17d24a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 17/47] fix: leave an aggregate sum query unchanged when
 merging into it fails

---
 grovedb-query/src/aggregate_sum_query/merge.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb-query/src/aggregate_sum_query/merge.rs b/grovedb-query/src/aggregate_sum_query/merge.rs
index 2e77fdd..4a4d1e1 100644
--- a/grovedb-query/src/aggregate_sum_query/merge.rs
+++ b/grovedb-query/src/aggregate_sum_query/merge.rs
@@ -51,12 +51,12 @@ impl AggregateSumQuery {
             ));
         }
 
-        self.sum_limit = self
+        let sum_limit = self
             .sum_limit
             .checked_add(other.sum_limit)
             .ok_or(Error::Overflow("Overflow when merging sum limits"))?;
 
-        self.limit_of_items_to_check =
+        let limit_of_items_to_check =
             match (self.limit_of_items_to_check, other.limit_of_items_to_check) {
                 (Some(a), Some(b)) => Some(
                     a.checked_add(b)
@@ -65,6 +65,8 @@ impl AggregateSumQuery {
                 _ => None,
             };
 
+        self.sum_limit = sum_limit;
+        self.limit_of_items_to_check = limit_of_items_to_check;
         self.insert_items(other.items);
 
         Ok(())
-- 
2.43.0


From 733c54e2b714e8878586a524d67a5ff0eaf52114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 18/47] fix: reject merk proofs that attach data below a hash
 node

---
 merk/src/proofs/tree.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..ffef296 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -517,6 +517,17 @@ where
             .ok_or_else(|| Error::InvalidProofError("Stack underflow".to_string()))
     }
 
+    // The hash of a `Hash` node does not depend on its children, so data below
+    // it would not be authenticated by the root hash.
+    fn check_attach(parent: &Tree, child: &Tree) -> Result<(), Error> {
+        if matches!(parent.node, Node::Hash(_)) && !matches!(child.node, Node::Hash(_)) {
+            return Err(Error::InvalidProofError(
+                "Tried to attach data below a hash node".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     for op in ops {
         op_count += 1;
         if op_count > MAX_PROOF_OPS {
@@ -532,6 +543,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_attach(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -550,6 +562,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_attach(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -568,6 +581,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_attach(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -586,6 +600,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_attach(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
-- 
2.43.0


From 22a1d7a72864812dd3d3fc01d6551401c2902f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 19/47] fix: merk query proofs must run in the direction of the
 query

---
 merk/src/proofs/query/verify.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..3a4773d 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -151,7 +151,23 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // Nodes must be visited in the direction of the query: the checks below
+        // rely on that order for completeness and absence.
+        let ops = decoder.by_ref().map(|op| match op {
+            Ok(Op::Push(_) | Op::Parent | Op::Child) if !left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Proof operation does not match the query direction".to_string(),
+                ))
+            }
+            Ok(Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted) if left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Proof operation does not match the query direction".to_string(),
+                ))
+            }
+            op => op,
+        });
+
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From 0d473580d8516c44bd33fea26981028ec556d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 20/47] fix: reject V1 proofs that show an unresolved reference

A reference shown as is in a KVValueHash node is not bound to the node's
value hash, so any reference (or a reference in place of another element)
could be claimed at a key.
---
 grovedb/src/operations/proof/verify.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..7ea17a0 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -484,6 +484,19 @@ impl GroveDb {
                 if let Some(value_bytes) = &proved_key_value.value {
                     let element = Element::deserialize(value_bytes, grove_version)?;
 
+                    // A reference is proved by the element it resolves to
+                    // (KVRefValueHash). The bytes of a reference shown as is
+                    // are not bound to the value hash of their node.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 proof shows an unresolved reference at key {}",
+                                hex::encode(key),
+                            ),
+                        ));
+                    }
+
                     verified_keys.insert(key.clone());
 
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
-- 
2.43.0


From 84b1a314b31cd9bcc2a92dd746185ead77e10228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 21/47] fix: check the value hash of every empty tree in a V1
 proof

An empty tree the query goes on below, or one left out of the result,
was not checked: a non-empty tree could be passed off as empty, hiding its
contents. Such empty trees now also use up the limit as they do for the
prover, so that honest limited proofs verify.
---
 grovedb/src/operations/proof/verify.rs | 65 +++++++++++++++-----------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 7ea17a0..002ca1f 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -499,6 +499,33 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // For empty trees without a lower layer proof, verify that the
+                    // value_hash matches combine_hash(H(value), NULL_HASH).
+                    // Without this check, an attacker could swap tree types (e.g.
+                    // SumTree→Tree) or pass a non-empty tree off as an empty one
+                    // in KVValueHash nodes without breaking the merk proof, since
+                    // the value bytes are not part of the KVValueHash tree hash
+                    // computation.
+                    let is_empty_tree = element.is_any_tree() && !element.is_non_empty_tree();
+                    if is_empty_tree && !layer_proof.lower_layers.contains_key(key) {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "V1 empty tree value hash mismatch at key {}: expected {}, \
+                                     got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -658,34 +685,8 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
-                        // For non-empty Merk trees without a subquery (no
-                        // lower layer proof), the prover must use
+                        // For non-empty trees without a subquery (no lower layer
+                        // proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
                         // verifier can confirm combine_hash(H(value),
                         // child_hash) == value_hash. If child_hash_verified is
@@ -761,6 +762,14 @@ impl GroveDb {
         path: &[&[u8]],
         limit_left: &mut Option<u16>,
         result: &mut Vec<T>,
+                    } else if is_empty_tree {
+                        // Not part of the result, but the prover counts it
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
         query: &PathQuery,
         grove_version: &GroveVersion,
     ) -> Result<CryptoHash, Error>
-- 
2.43.0


From bf60fbce8cd963bab5e0aaeb318cfbf67647ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 22/47] fix: bind non-Merk trees shown without their contents
 to their value hash

A V1 proof showed an MMR, bulk append, dense or commitment tree in a
KVValueHash node, which does not bind the element, so a different element
(count, kind, flags) could be claimed.
---
 grovedb/src/lib.rs                       |  2 +-
 grovedb/src/operations/proof/generate.rs | 48 +++++++++++++++++++-----
 grovedb/src/operations/proof/verify.rs   | 11 ++----
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/grovedb/src/lib.rs b/grovedb/src/lib.rs
index 7c4f30c..e7c21e9 100644
--- a/grovedb/src/lib.rs
+++ b/grovedb/src/lib.rs
@@ -1115,7 +1115,7 @@ impl GroveDb {
     /// Compute the child hash for a non-Merk tree element by reconstructing
     /// its tree from storage and computing the state root.
     /// Falls back to `merk_root_hash` on any error or for standard Merk trees.
-    fn compute_non_merk_child_hash<'b, B: AsRef<[u8]>>(
+    pub(crate) fn compute_non_merk_child_hash<'b, B: AsRef<[u8]>>(
         &self,
         element: &Element,
         subtree_path: SubtreePath<'b, B>,
diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 2f3c8cc..6d354a6 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -11,7 +11,7 @@ use grovedb_costs::{
 use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
 use grovedb_merk::{
     proofs::{encode_into, query::QueryItem, Node, Op},
-    tree::{combine_hash, value_hash},
+    tree::{combine_hash, value_hash, NULL_HASH},
     Merk, ProofWithoutEncodingResult, TreeFeatureType,
 };
 use grovedb_merkle_mountain_range::MmrTreeProof;
@@ -1253,13 +1253,42 @@ impl GroveDb {
                                 lower_layers.insert(key.clone(), layer_proof);
                             }
 
-                            // MmrTree/BulkAppendTree without subquery (query targets the tree
-                            // itself)
-                            Ok(Element::MmrTree(..))
-                            | Ok(Element::BulkAppendTree(..))
-                            | Ok(Element::DenseAppendOnlyFixedSizeTree(..))
-                                if !done_with_results =>
-                            {
+                            // Non-Merk tree without subquery (query targets the tree
+                            // itself): inject its state root for combine_hash
+                            // verification
+                            Ok(elem) if elem.uses_non_merk_data_storage() && !done_with_results => {
+                                let mut child_path = path.clone();
+                                child_path.push(key.as_slice());
+                                let child_root_hash = self.compute_non_merk_child_hash(
+                                    &elem,
+                                    child_path.as_slice().into(),
+                                    &tx,
+                                    NULL_HASH,
+                                );
+
+                                let key_owned = key.to_owned();
+                                let value_owned = value.to_owned();
+                                let (vh, ft) = match node {
+                                    Node::KVValueHashFeatureType(_, _, vh, ft) => (*vh, *ft),
+                                    Node::KVValueHash(_, _, vh) => {
+                                        (*vh, TreeFeatureType::BasicMerkNode)
+                                    }
+                                    _ => {
+                                        let element_vh =
+                                            value_hash(&value_owned).unwrap_add_cost(&mut cost);
+                                        let vh = combine_hash(&element_vh, &child_root_hash)
+                                            .unwrap_add_cost(&mut cost);
+                                        (vh, TreeFeatureType::BasicMerkNode)
+                                    }
+                                };
+                                *node = Node::KVValueHashFeatureTypeWithChildHash(
+                                    key_owned,
+                                    value_owned,
+                                    vh,
+                                    ft,
+                                    child_root_hash,
+                                );
+
                                 if let Some(limit) = overall_limit.as_mut() {
                                     *limit -= 1;
                                 }
@@ -1319,7 +1348,7 @@ impl GroveDb {
                                 }
                                 has_a_result_at_level |= true;
                             }
-                            // Empty trees and CommitmentTree without subquery
+                            // Empty trees
                             Ok(Element::Tree(None, _))
                             | Ok(Element::SumTree(None, ..))
                             | Ok(Element::BigSumTree(None, ..))
@@ -1327,7 +1356,6 @@ impl GroveDb {
                             | Ok(Element::ProvableCountTree(None, ..))
                             | Ok(Element::CountSumTree(None, ..))
                             | Ok(Element::ProvableCountSumTree(None, ..))
-                            | Ok(Element::CommitmentTree(..))
                                 if !done_with_results =>
                             {
                                 if let Some(limit) = overall_limit.as_mut() {
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 002ca1f..3484794 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -692,10 +692,7 @@ impl GroveDb {
                         // child_hash) == value_hash. If child_hash_verified is
                         // false, an attacker may have downgraded the node type
                         // to hide child hash verification.
-                        // Non-Merk trees (MmrTree, BulkAppendTree, etc.) are
-                        // excluded — they use different proof structures.
-                        if element.is_non_empty_merk_tree() && !proved_key_value.child_hash_verified
-                        {
+                        if element.is_non_empty_tree() && !proved_key_value.child_hash_verified {
                             return Err(Error::InvalidProof(
                                 query.clone(),
                                 format!(
@@ -762,6 +759,9 @@ impl GroveDb {
         path: &[&[u8]],
         limit_left: &mut Option<u16>,
         result: &mut Vec<T>,
+        query: &PathQuery,
+        grove_version: &GroveVersion,
+    ) -> Result<CryptoHash, Error>
                     } else if is_empty_tree {
                         // Not part of the result, but the prover counts it
                         limit_left
@@ -770,9 +770,6 @@ impl GroveDb {
                         if limit_left == &Some(0) {
                             break;
                         }
-        query: &PathQuery,
-        grove_version: &GroveVersion,
-    ) -> Result<CryptoHash, Error>
     where
         T: TryFromVersioned<ProvedPathKeyOptionalValue>,
         Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>,
-- 
2.43.0


From d1e1da261da26f1133eb1b09a025cce5a4d92148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 23/47] fix: verify lower layers attached where a V1 query ends

A lower layer attached to a tree the query targets itself was accepted
unverified, together with whatever tree element was claimed, and the result
was reported at the wrong path.
---
 grovedb/src/operations/proof/verify.rs | 105 ++++++++++++++++++++++---
 1 file changed, 95 insertions(+), 10 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 3484794..b5f1a20 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -544,10 +544,36 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
+                                    // Query targets the tree itself, not its
+                                    // contents. The lower layer still has to
+                                    // match the tree's value hash.
+                                    if !proved_key_value.child_hash_verified {
+                                        let lower_hash =
+                                            Self::lower_layer_root_hash(lower_layer, &element)
+                                                .map_err(|e| {
+                                                    Error::InvalidProof(query.clone(), e)
+                                                })?;
+                                        let combined_root_hash = combine_hash(
+                                            value_hash(value_bytes).value(),
+                                            &lower_hash,
+                                        )
+                                        .value()
+                                        .to_owned();
+                                        if hash != &combined_root_hash {
+                                            return Err(Error::InvalidProof(
+                                                query.clone(),
+                                                format!(
+                                                    "V1 mismatch in lower layer hash, expected \
+                                                     {}, got {}",
+                                                    hex::encode(hash),
+                                                    hex::encode(combined_root_hash)
+                                                ),
+                                            ));
+                                        }
+                                    }
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     result.push(
@@ -736,6 +762,14 @@ impl GroveDb {
             for key in layer_proof.lower_layers.keys() {
                 if !verified_keys.contains(key) {
                     return Err(Error::InvalidProof(
+                    } else if is_empty_tree {
+                        // Not part of the result, but the prover counts it
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                         query.clone(),
                         format!(
                             "V1 proof contains extra lower layer for key {} not required by query",
@@ -760,16 +794,67 @@ impl GroveDb {
         limit_left: &mut Option<u16>,
         result: &mut Vec<T>,
         query: &PathQuery,
+    /// The root hash a lower layer proof commits to, whatever it shows of the
+    /// tree's contents.
+    fn lower_layer_root_hash(
+        lower_layer: &LayerProof,
+        element: &Element,
+    ) -> Result<CryptoHash, String> {
+        let bulk_root = |bytes: &[u8], total_count: u64, height: u8| {
+            grovedb_bulk_append_tree::BulkAppendTreeProof::decode_from_slice(bytes)
+                .and_then(|proof| proof.verify_and_compute_root(height, total_count))
+                .map(|(root, _)| root)
+                .map_err(|e| e.to_string())
+        };
+        match (&lower_layer.merk_proof, element) {
+            (ProofBytes::Merk(bytes), element) if !element.uses_non_merk_data_storage() => {
+                execute(Decoder::new(bytes), true, |_| Ok(()))
+                    .unwrap()
+                    .map(|tree| tree.hash().unwrap())
+                    .map_err(|e| e.to_string())
+            }
+            (ProofBytes::MMR(bytes), Element::MmrTree(mmr_size, _)) => {
+                let proof =
+                    grovedb_merkle_mountain_range::MmrTreeProof::decode_from_slice(bytes)
+                        .map_err(|e| e.to_string())?;
+                if proof.mmr_size() != *mmr_size {
+                    return Err("MMR proof is for another size".to_string());
+                }
+                if *mmr_size == 0 && proof.leaves().is_empty() {
+                    return Ok(NULL_HASH);
+                }
+                proof
+                    .verify_and_get_root()
+                    .map(|(root, _)| root)
+                    .map_err(|e| e.to_string())
+            }
+            (ProofBytes::BulkAppendTree(bytes), Element::BulkAppendTree(total, height, _)) => {
+                bulk_root(bytes, *total, *height)
+            }
+            (ProofBytes::CommitmentTree(bytes), Element::CommitmentTree(total, height, _)) => {
+                if bytes.len() < 32 {
+                    return Err("CommitmentTree proof too short".to_string());
+                }
+                let bulk_state_root = bulk_root(&bytes[32..], *total, *height)?;
+                let mut hasher = blake3::Hasher::new();
+                hasher.update(b"ct_state");
+                hasher.update(&bytes[..32]);
+                hasher.update(&bulk_state_root);
+                Ok(*hasher.finalize().as_bytes())
+            }
+            (
+                ProofBytes::DenseTree(bytes),
+                Element::DenseAppendOnlyFixedSizeTree(count, height, _),
+            ) => grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof::decode_from_slice(bytes)
+                .and_then(|proof| proof.verify_and_get_root::<Vec<_>>(*height, *count))
+                .map(|(root, _)| root)
+                .map_err(|e| e.to_string()),
+            _ => Err("lower layer proof is of another kind than the tree".to_string()),
+        }
+    }
+
         grove_version: &GroveVersion,
     ) -> Result<CryptoHash, Error>
-                    } else if is_empty_tree {
-                        // Not part of the result, but the prover counts it
-                        limit_left
-                            .iter_mut()
-                            .for_each(|limit| *limit = limit.saturating_sub(1));
-                        if limit_left == &Some(0) {
-                            break;
-                        }
     where
         T: TryFromVersioned<ProvedPathKeyOptionalValue>,
         Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>,
-- 
2.43.0


From edeaad9f59d679503c534e8150c9152f0dea0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 24/47] fix: do not accept a Merk layer for a non-Merk tree in
 a V1 proof

A dense tree of one value can have the root hash of a one-node Merk tree,
which let its content be reported as an arbitrary key and element.
---
 grovedb/src/operations/proof/verify.rs | 49 ++++++++++++++++----------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index b5f1a20..7e2e62b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -609,6 +609,17 @@ impl GroveDb {
                                     // Dispatch based on lower layer proof type
                                     let lower_hash = match &lower_layer.merk_proof {
                                         ProofBytes::Merk(_) => {
+                                            // The root hash of a non-Merk tree
+                                            // can be that of a Merk tree of
+                                            // other contents
+                                            if element.uses_non_merk_data_storage() {
+                                                return Err(Error::InvalidProof(
+                                                    query.clone(),
+                                                    "Merk proof attached to a non-Merk tree \
+                                                     element"
+                                                        .to_string(),
+                                                ));
+                                            }
                                             // Standard Merk subtree - recurse
                                             Self::verify_layer_proof_v1(
                                                 lower_layer,
@@ -751,6 +762,14 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else if is_empty_tree {
+                        // Not part of the result, but the prover counts it
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
@@ -762,14 +781,6 @@ impl GroveDb {
             for key in layer_proof.lower_layers.keys() {
                 if !verified_keys.contains(key) {
                     return Err(Error::InvalidProof(
-                    } else if is_empty_tree {
-                        // Not part of the result, but the prover counts it
-                        limit_left
-                            .iter_mut()
-                            .for_each(|limit| *limit = limit.saturating_sub(1));
-                        if limit_left == &Some(0) {
-                            break;
-                        }
                         query.clone(),
                         format!(
                             "V1 proof contains extra lower layer for key {} not required by query",
@@ -783,17 +794,6 @@ impl GroveDb {
         Ok(root_hash)
     }
 
-    /// Verify an MMR lower layer proof and add results.
-    /// Returns the computed MMR root hash, which the caller uses as the
-    /// child hash for Merk authentication (`combine_hash(value_hash ||
-    /// mmr_root)`).
-    fn verify_mmr_lower_layer<T>(
-        mmr_bytes: &[u8],
-        element: &Element,
-        path: &[&[u8]],
-        limit_left: &mut Option<u16>,
-        result: &mut Vec<T>,
-        query: &PathQuery,
     /// The root hash a lower layer proof commits to, whatever it shows of the
     /// tree's contents.
     fn lower_layer_root_hash(
@@ -853,6 +853,17 @@ impl GroveDb {
         }
     }
 
+    /// Verify an MMR lower layer proof and add results.
+    /// Returns the computed MMR root hash, which the caller uses as the
+    /// child hash for Merk authentication (`combine_hash(value_hash ||
+    /// mmr_root)`).
+    fn verify_mmr_lower_layer<T>(
+        mmr_bytes: &[u8],
+        element: &Element,
+        path: &[&[u8]],
+        limit_left: &mut Option<u16>,
+        result: &mut Vec<T>,
+        query: &PathQuery,
         grove_version: &GroveVersion,
     ) -> Result<CryptoHash, Error>
     where
-- 
2.43.0


From fa719f7a5b04787ab5d4223d5869987fb6ee984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 25/47] fix: report MMR and dense entries of a V1 proof in
 position order

The prover chose the order, and with a limit also which entries were
reported.
---
 grovedb/src/operations/proof/verify.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 7e2e62b..cfa2b13 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -955,7 +955,10 @@ impl GroveDb {
             ));
         }
 
-        // Add each verified leaf to the result set
+        // Add each verified leaf to the result set, in order whatever the
+        // order in the proof
+        let mut verified_leaves = verified_leaves;
+        verified_leaves.sort_by_key(|(leaf_index, _)| *leaf_index);
         for (leaf_index, value) in verified_leaves {
             let key = leaf_index.to_be_bytes().to_vec();
             let element = Element::new_item(value);
@@ -1195,11 +1198,13 @@ impl GroveDb {
         // verify_for_query validates height+count from the authenticated Element,
         // checks completeness (all queried positions present) and soundness
         // (no unrequested positions), then returns only matching entries.
-        let (computed_root, verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
+        let (computed_root, mut verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
             .verify_for_query(&level_query, element_height, element_count)
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
-        // Add each verified entry to the result set
+        // Add each verified entry to the result set, in order whatever the
+        // order in the proof
+        verified_entries.sort_by_key(|(position, _)| *position);
         for (position, value) in verified_entries {
             let key = position.to_be_bytes().to_vec();
             let elem = Element::new_item(value);
-- 
2.43.0


From a26565aa9ec117aabc12df670de56402705339a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 26/47] fix: parent tree info comes from the tree the query
 descends into

A lower layer attached to a tree the query ends at changed the reported
parent tree info of V1 proofs.
---
 grovedb/src/operations/proof/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index cfa2b13..58f412f 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -542,7 +542,6 @@ impl GroveDb {
                             | Element::BulkAppendTree(..)
                             | Element::DenseAppendOnlyFixedSizeTree(..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // Query targets the tree itself, not its
                                     // contents. The lower layer still has to
@@ -591,6 +590,7 @@ impl GroveDb {
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
                                     // redesign.
+                                    *last_parent_tree_type = element.tree_feature_type();
                                     if query.should_add_parent_tree_at_path(
                                         current_path,
                                         grove_version,
-- 
2.43.0


From bc743ee1d710dae552ea1574acabfbe203484964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 27/47] fix: verify trunk proofs with the chunk depths the
 prover used

The prover honours min_depth for provable count trees; the verifier
ignored it, so honest proofs were rejected or reported other depths.
---
 grovedb/src/operations/proof/verify.rs | 46 +++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 58f412f..31c15cf 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1,7 +1,8 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use grovedb_merk::{
-    calculate_chunk_depths, calculate_max_tree_depth_from_count,
+    calculate_chunk_depths, calculate_chunk_depths_with_minimum,
+    calculate_max_tree_depth_from_count,
     element::tree_type::ElementTreeTypeExtensions,
     proofs::{
         execute,
@@ -2092,7 +2093,7 @@ impl GroveDb {
 
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
-        let mut count: Option<u64> = None;
+        let mut target: Option<(u64, Element)> = None;
         let mut grovedb_root_hash: Option<CryptoHash> = None;
 
         // Walk through each path segment, verifying layer proofs
@@ -2139,7 +2140,8 @@ impl GroveDb {
                         // On the last path segment, extract the count from the CountTree element
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
-                            count = Self::extract_count_from_element(&element);
+                            target = Self::extract_count_from_element(&element)
+                                .map(|count| (count, element));
                         }
                     }
                     break;
@@ -2191,7 +2193,7 @@ impl GroveDb {
         }
 
         // Ensure we got a count from the element
-        let count = count.ok_or_else(|| {
+        let (count, target_element) = target.ok_or_else(|| {
             Error::InvalidProof(
                 PathQuery::new_unsized(current_path.clone(), Query::default()),
                 "Could not extract count from path - target is not a count tree element"
@@ -2224,8 +2226,7 @@ impl GroveDb {
         }
 
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(&target_element, tree_depth, query)?;
 
         // Now we're at the target layer - decode and execute the trunk proof
         let mut decoder = Decoder::new(&current_layer.merk_proof);
@@ -2341,7 +2342,7 @@ impl GroveDb {
 
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
-        let mut count: Option<u64> = None;
+        let mut target: Option<(u64, Element)> = None;
         let mut grovedb_root_hash: CryptoHash = [0u8; 32];
 
         // Walk through each path segment, verifying layer proofs
@@ -2389,7 +2390,8 @@ impl GroveDb {
 
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
-                            count = Self::extract_count_from_element(&element);
+                            target = Self::extract_count_from_element(&element)
+                                .map(|count| (count, element));
                         }
                     }
                     break;
@@ -2438,7 +2440,7 @@ impl GroveDb {
             current_path.push(path_segment.clone());
         }
 
-        let count = count.ok_or_else(|| {
+        let (count, target_element) = target.ok_or_else(|| {
             Error::InvalidProof(
                 PathQuery::new_unsized(current_path.clone(), Query::default()),
                 "V1 trunk: could not extract count from path - target is not a count tree element"
@@ -2472,10 +2474,7 @@ impl GroveDb {
             (NULL_HASH, None)
         } else {
             let tree_depth = calculate_max_tree_depth_from_count(count);
-            let _chunk_depths =
-                calculate_chunk_depths(tree_depth, query.max_depth).map_err(|e| {
-                    Error::CorruptedData(format!("invalid chunk depth parameters: {}", e))
-                })?;
+            let _chunk_depths = Self::trunk_chunk_depths(&target_element, tree_depth, query)?;
 
             let mut decoder = Decoder::new(target_merk_bytes);
             let ops: Vec<Op> = decoder
@@ -2549,8 +2548,7 @@ impl GroveDb {
         // Non-empty tree: extract elements
         let target_tree = target_tree_opt.unwrap();
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(&target_element, tree_depth, query)?;
 
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
         let mut elements = BTreeMap::new();
@@ -2780,6 +2778,24 @@ impl GroveDb {
         }
     }
 
+    /// The chunk depths the trunk of the given target tree is split into, as
+    /// the prover computes them: the minimum depth only applies to provable
+    /// count trees.
+    fn trunk_chunk_depths(
+        target_element: &Element,
+        tree_depth: u8,
+        query: &PathTrunkChunkQuery,
+    ) -> Result<Vec<u8>, Error> {
+        match (query.min_depth, target_element) {
+            (
+                Some(min_depth),
+                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..),
+            ) => calculate_chunk_depths_with_minimum(tree_depth, query.max_depth, min_depth),
+            _ => calculate_chunk_depths(tree_depth, query.max_depth),
+        }
+        .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))
+    }
+
     /// Extract the count from a CountTree, CountSumTree, ProvableCountTree,
     /// or ProvableCountSumTree element.
     fn extract_count_from_element(element: &Element) -> Option<u64> {
-- 
2.43.0


From d0f43a3e41b62089a6c7c20dec2c7e1d65b61acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 28/47] fix: deleting a non-empty tree left a stale root and
 treated its parent as the deleted tree's kind

---
 grovedb/src/operations/delete/mod.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7ea2184..9db3e26 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -747,7 +747,7 @@ impl GroveDb {
             )
         );
         let uses_sum_tree = subtree_to_delete_from.tree_type;
-        if let Some(tree_type) = element.tree_type() {
+        if element.tree_type().is_some() {
             let subtree_merk_path = path.derive_owned_with_child(key);
             let subtree_merk_path_ref = SubtreePath::from(&subtree_merk_path);
 
@@ -838,32 +838,11 @@ impl GroveDb {
                         );
                     }
                 }
-                // todo: verify why we need to open the same? merk again
-                let storage = self
-                    .db
-                    .get_transactional_storage_context(path.clone(), Some(batch), transaction)
-                    .unwrap_add_cost(&mut cost);
-
-                let mut merk_to_delete_tree_from = cost_return_on_error!(
-                    &mut cost,
-                    Merk::open_layered_with_root_key(
-                        storage,
-                        subtree_to_delete_from.root_key(),
-                        tree_type,
-                        Some(&Element::value_defined_cost_for_serialized_value),
-                        grove_version,
-                    )
-                    .map_err(|e| {
-                        Error::CorruptedData(format!(
-                            "cannot open a subtree with given root key: {e}"
-                        ))
-                    })
-                );
                 // We are deleting a tree, a tree uses 3 bytes
                 cost_return_on_error_into!(
                     &mut cost,
                     Element::delete_with_sectioned_removal_bytes(
-                        &mut merk_to_delete_tree_from,
+                        &mut subtree_to_delete_from,
                         key,
                         Some(options.as_merk_options()),
                         true,
@@ -876,7 +855,7 @@ impl GroveDb {
                     SubtreePath<B>,
                     Merk<PrefixedRocksDbTransactionContext>,
                 > = HashMap::default();
-                merk_cache.insert(path.clone(), merk_to_delete_tree_from);
+                merk_cache.insert(path.clone(), subtree_to_delete_from);
                 cost_return_on_error!(
                     &mut cost,
                     self.propagate_changes_with_batch_transaction(
-- 
2.43.0


From 3ee0f2456beca9b84dbd7f29fcf384129b3f10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 29/47] fix: refuse to insert a reference whose chain leads
 back to itself

---
 grovedb/src/operations/get/mod.rs    | 15 ++++++++++++++-
 grovedb/src/operations/insert/mod.rs |  5 ++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/get/mod.rs b/grovedb/src/operations/get/mod.rs
index 78a96b0..1030d83 100644
--- a/grovedb/src/operations/get/mod.rs
+++ b/grovedb/src/operations/get/mod.rs
@@ -107,6 +107,19 @@ impl GroveDb {
         allow_cache: bool,
         transaction: TransactionArg,
         grove_version: &GroveVersion,
+    ) -> CostResult<Element, Error> {
+        self.follow_reference_from(None, path, allow_cache, transaction, grove_version)
+    }
+
+    /// Same as [`Self::follow_reference`], but the chain must not lead back to
+    /// `origin`, the qualified path of the reference about to be written.
+    pub(crate) fn follow_reference_from<B: AsRef<[u8]>>(
+        &self,
+        origin: Option<Vec<Vec<u8>>>,
+        path: SubtreePath<B>,
+        allow_cache: bool,
+        transaction: TransactionArg,
+        grove_version: &GroveVersion,
     ) -> CostResult<Element, Error> {
         check_grovedb_v0_with_cost!(
             "follow_reference",
@@ -121,7 +134,7 @@ impl GroveDb {
 
         let mut hops_left = MAX_REFERENCE_HOPS;
         let mut current_element;
-        let mut visited = HashSet::new();
+        let mut visited: HashSet<Vec<Vec<u8>>> = origin.into_iter().collect();
         // TODO, still have to do because of references handling
         let mut current_path = path.to_vec();
 
diff --git a/grovedb/src/operations/insert/mod.rs b/grovedb/src/operations/insert/mod.rs
index 97bceb6..b137711 100644
--- a/grovedb/src/operations/insert/mod.rs
+++ b/grovedb/src/operations/insert/mod.rs
@@ -244,6 +244,8 @@ impl GroveDb {
         match element {
             Element::Reference(ref reference_path, ..) => {
                 let path = path.to_vec(); // TODO: need for support for references in path library
+                let mut qualified_path = path.clone();
+                qualified_path.push(key.to_vec());
                 let reference_path = cost_return_on_error_into!(
                     &mut cost,
                     path_from_reference_path_type(reference_path.clone(), &path, Some(key))
@@ -252,7 +254,8 @@ impl GroveDb {
 
                 let referenced_item = cost_return_on_error!(
                     &mut cost,
-                    self.follow_reference(
+                    self.follow_reference_from(
+                        Some(qualified_path),
                         reference_path.as_slice().into(),
                         false,
                         Some(transaction),
-- 
2.43.0


From 8fb3228e020a5e4951a3a5c35e64f6a6f131ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 30/47] fix: replacing an element whose flags change length was
 charged for the old flags and refused

---
 merk/src/tree/just_in_time_value_update.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merk/src/tree/just_in_time_value_update.rs b/merk/src/tree/just_in_time_value_update.rs
index fd20267..65421a6 100644
--- a/merk/src/tree/just_in_time_value_update.rs
+++ b/merk/src/tree/just_in_time_value_update.rs
@@ -49,6 +49,7 @@ impl TreeNode {
                 // don't do this for sum items or trees
                 None
             };
+            let costs_are_for_old_flags = new_value_with_old_flags.is_some();
 
             let (mut current_tree_plus_hook_size, mut storage_costs) = self
                 .kv_with_parent_hook_size_and_storage_cost_change_for_value(
@@ -71,6 +72,13 @@ impl TreeNode {
                     self.value_mut_ref(),
                 )?;
                 if !flags_changed {
+                    // the costs so far may be those of the new value with the old flags, but
+                    // it is the new value as it is that will be stored
+                    if i == 0 && costs_are_for_old_flags {
+                        storage_costs = self
+                            .kv_with_parent_hook_size_and_storage_cost(old_specialized_cost)?
+                            .1;
+                    }
                     break;
                 } else {
                     self.inner.kv.value_defined_cost = value_defined_cost;
-- 
2.43.0


From ad57f643f83e84eb9d6981e6e1b15f6059ff8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 31/47] fix: count only existing elements towards a query's
 offset, and return nothing for limit 0

---
 grovedb/src/element/query.rs | 139 +++++++++++++++--------------------
 1 file changed, 60 insertions(+), 79 deletions(-)

diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 1584abd..9861ada 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -209,6 +209,10 @@ impl ElementQueryExtensions for Element {
         let original_offset = sized_query.offset;
         let mut offset = original_offset;
 
+        if limit == Some(0) {
+            return Ok((QueryResultElements::new(), 0)).wrap_with_cost(cost);
+        }
+
         if sized_query.query.left_to_right {
             for item in sized_query.query.iter() {
                 cost_return_on_error!(
@@ -409,89 +413,66 @@ impl ElementQueryExtensions for Element {
                 }
                 results.append(&mut sub_elements.elements);
             } else if let Some(subquery_path) = subquery_path {
-                if offset.unwrap_or(0) == 0 {
-                    if let Some((subquery_path_last_key, subquery_path_front_keys)) =
-                        &subquery_path.split_last()
-                    {
-                        path_vec.extend(subquery_path_front_keys.iter().map(|k| k.as_slice()));
-
-                        let subtree_path: SubtreePath<_> = path_vec.as_slice().into();
-                        let subtree = cost_return_on_error!(
-                            &mut cost,
-                            compat::merk_optional_tx(
-                                storage,
-                                subtree_path,
-                                tx.as_ref(),
-                                None,
-                                grove_version
-                            )
-                        );
-
-                        match result_type {
-                            QueryElementResultType => {
-                                if let Some(element) = cost_return_on_error_into!(
-                                    &mut cost,
-                                    Element::get_optional_with_absolute_refs(
-                                        &subtree,
-                                        path_vec.as_slice(),
-                                        subquery_path_last_key.as_slice(),
-                                        allow_cache,
-                                        grove_version,
-                                    )
-                                ) {
-                                    results.push(QueryResultElement::ElementResultItem(element));
-                                }
-                            }
-                            QueryKeyElementPairResultType => {
-                                if let Some(element) = cost_return_on_error_into!(
-                                    &mut cost,
-                                    Element::get_optional_with_absolute_refs(
-                                        &subtree,
-                                        path_vec.as_slice(),
-                                        subquery_path_last_key.as_slice(),
-                                        allow_cache,
-                                        grove_version,
-                                    )
-                                ) {
-                                    results.push(QueryResultElement::KeyElementPairResultItem((
-                                        subquery_path_last_key.to_vec(),
-                                        element,
-                                    )));
-                                }
-                            }
-                            QueryPathKeyElementTrioResultType => {
-                                if let Some(element) = cost_return_on_error_into!(
-                                    &mut cost,
-                                    Element::get_optional_with_absolute_refs(
-                                        &subtree,
-                                        path_vec.as_slice(),
-                                        subquery_path_last_key.as_slice(),
-                                        allow_cache,
-                                        grove_version,
-                                    )
-                                ) {
-                                    results.push(QueryResultElement::PathKeyElementTrioResultItem(
-                                        (
-                                            path_vec.iter().map(|p| p.to_vec()).collect(),
-                                            subquery_path_last_key.to_vec(),
-                                            element,
-                                        ),
-                                    ));
-                                }
-                            }
-                        }
-                    } else {
-                        return Err(Error::CorruptedCodeExecution(
-                            "subquery_paths can not be empty",
-                        ))
-                        .wrap_with_cost(cost);
-                    };
+                let Some((subquery_path_last_key, subquery_path_front_keys)) =
+                    subquery_path.split_last()
+                else {
+                    return Err(Error::CorruptedCodeExecution(
+                        "subquery_paths can not be empty",
+                    ))
+                    .wrap_with_cost(cost);
+                };
+                path_vec.extend(subquery_path_front_keys.iter().map(|k| k.as_slice()));
+
+                let subtree_path: SubtreePath<_> = path_vec.as_slice().into();
+                let subtree = cost_return_on_error!(
+                    &mut cost,
+                    compat::merk_optional_tx(
+                        storage,
+                        subtree_path,
+                        tx.as_ref(),
+                        None,
+                        grove_version
+                    )
+                );
 
+                let maybe_element = cost_return_on_error_into!(
+                    &mut cost,
+                    Element::get_optional_with_absolute_refs(
+                        &subtree,
+                        path_vec.as_slice(),
+                        subquery_path_last_key.as_slice(),
+                        allow_cache,
+                        grove_version,
+                    )
+                );
+
+                if let Some(element) = maybe_element {
+                    // Only elements that exist count towards the offset and the limit
+                    cost_return_on_error_no_add!(
+                        cost,
+                        Element::basic_push(
+                            PathQueryPushArgs {
+                                storage,
+                                transaction,
+                                key: Some(subquery_path_last_key.as_slice()),
+                                element,
+                                path: path_vec.as_slice(),
+                                subquery_path: None,
+                                subquery: None,
+                                left_to_right,
+                                query_options,
+                                result_type,
+                                results,
+                                limit,
+                                offset,
+                            },
+                            grove_version
+                        )
+                    );
+                } else if decrease_limit_on_range_with_no_sub_elements {
                     if let Some(limit) = limit {
                         *limit = limit.saturating_sub(1);
                     }
-                } else if let Some(offset) = offset {
-                    *offset = offset.saturating_sub(1);
                 }
             } else if allow_get_raw {
                 cost_return_on_error_no_add!(
-- 
2.43.0


From 466a6d5067f2f4644caab0c8866cbb429835bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 32/47] fix: layers created while merging queries are read left
 to right

---
 grovedb-query/src/merge.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index 53a2a7b..e887a49 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -11,6 +11,12 @@ impl SubqueryBranch {
         self.subquery_path.is_none() && self.subquery.is_none()
     }
 
+    /// The given subquery, or an empty one for other queries to be merged into.
+    /// (A default query would be read right to left.)
+    fn subquery_or_new(subquery: &Option<Box<Query>>) -> Box<Query> {
+        subquery.clone().unwrap_or_else(|| Box::new(Query::new()))
+    }
+
     fn merge_subquery(
         &self,
         other_default_branch_subquery: Option<Box<Query>>,
@@ -120,7 +126,7 @@ impl SubqueryBranch {
                     } else if right_path_leftovers.is_empty() {
                         // this means our subquery path was longer
                         // which means we need to set the default to the right (other)
-                        let mut merged_query = other.subquery.clone().unwrap_or_default();
+                        let mut merged_query = Self::subquery_or_new(&other.subquery);
                         let first_key = left_path_leftovers.remove(0);
                         let maybe_left_path_leftovers = if left_path_leftovers.is_empty() {
                             None
@@ -142,7 +148,7 @@ impl SubqueryBranch {
                             subquery: Some(merged_query),
                         }
                     } else if left_path_leftovers.is_empty() {
-                        let mut merged_query = self.subquery.clone().unwrap_or_default();
+                        let mut merged_query = Self::subquery_or_new(&self.subquery);
                         // this means our subquery path shorter
                         // we should keep our subquery
                         let other_first = right_path_leftovers.remove(0);
@@ -177,7 +183,7 @@ impl SubqueryBranch {
                 let mut our_subquery_path = our_subquery_path.clone();
 
                 // take their subquery as it will be on a topmost layer
-                let mut merged_subquery = other.subquery.clone().unwrap_or_default();
+                let mut merged_subquery = Self::subquery_or_new(&other.subquery);
 
                 // We need to add a conditional subquery for ours
 
@@ -211,7 +217,7 @@ impl SubqueryBranch {
                 let mut their_subquery_path = their_subquery_path.clone();
 
                 // take our subquery as it will be on a topmost layer
-                let mut merged_subquery = self.subquery.clone().unwrap_or_default();
+                let mut merged_subquery = Self::subquery_or_new(&self.subquery);
 
                 // The subquery_path is already set to None, no need to set it again
 
-- 
2.43.0


From 1f5173054f1aa0684e41e50126fb1441342d8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 33/47] fix: references in provable count sum trees are proved
 with their count

---
 grovedb/src/operations/proof/generate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 6d354a6..01b7054 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -319,7 +319,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
@@ -1033,7 +1034,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
-- 
2.43.0


From a9e5f512c4ec50c813e5e9b5292cb31addceb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 34/47] fix: a limit counts matches on the open end of an
 earlier range in proofs

---
 merk/src/proofs/query/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index 22352d5..af25523 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -257,7 +257,7 @@ where
                     left_proof_items = ProofItems::default();
                 }
                 found_item = false;
-            } else if found_item && !on_boundary_not_found {
+            } else if found_item {
                 // if limit is not zero, reserve a limit slot for the current node
                 // before generating proof for the right subtree
                 new_limit = Some(current_limit - 1);
-- 
2.43.0


From d31016befc0fabe53fe4ac05f29cd0232ec6fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 35/47] fix: a new subtree left empty by a batch has the zero
 aggregate of its kind

---
 grovedb/src/batch/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f01baaf..e01bc7a 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2596,6 +2596,19 @@ impl GroveDb {
                                                 | GroveOp::InsertIfNotExists { element, .. }
                                                 | GroveOp::Replace { element }
                                                 | GroveOp::Patch { element, .. } => {
+                                                    // A new tree that stays empty has the zero
+                                                    // aggregate of its kind
+                                                    let aggregate_data =
+                                                        match (aggregate_data, element.tree_type())
+                                                        {
+                                                            (
+                                                                AggregateData::NoAggregateData,
+                                                                Some(tree_type),
+                                                            ) => tree_type
+                                                                .empty_tree_feature_type()
+                                                                .into(),
+                                                            (aggregate_data, _) => aggregate_data,
+                                                        };
                                                     // Standard Merk trees
                                                     if let Element::Tree(_, flags) = element {
                                                         *mutable_occupied_entry =
-- 
2.43.0


From df8f0bb88b27acf747d67d98b3dab1f0035b391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 36/47] fix: a refreshed reference keeps the feature type its
 tree requires

---
 grovedb/src/batch/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index e01bc7a..aa96bcd 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2087,7 +2087,12 @@ where
                         .wrap_with_cost(cost);
                     };
 
-                    let merk_feature_type = in_tree_type.empty_tree_feature_type();
+                    let merk_feature_type = cost_return_on_error_into!(
+                        &mut cost,
+                        element
+                            .get_feature_type(in_tree_type)
+                            .wrap_with_cost(OperationCost::default())
+                    );
 
                     let path_reference = cost_return_on_error_into!(
                         &mut cost,
-- 
2.43.0


From 990a5d1a34a2792d3424518a245625f7c967642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 37/47] fix: batches refuse sum items in trees that keep no
 sum, as insertion does

---
 grovedb/src/batch/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index aa96bcd..dcf6441 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1999,6 +1999,12 @@ where
                             );
                         }
                         Element::Item(..) | Element::SumItem(..) | Element::ItemWithSumItem(..) => {
+                            if element.is_sum_item() && !in_tree_type.allows_sum_item() {
+                                return Err(Error::InvalidBatchOperation(
+                                    "cannot add sum item to non sum tree",
+                                ))
+                                .wrap_with_cost(cost);
+                            }
                             let merk_feature_type = cost_return_on_error_into!(
                                 &mut cost,
                                 element
-- 
2.43.0


From 7a8d7535ec9e407a4f3717658a280e6d7dff1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 38/47] fix: conditional insertion of commitment trees in
 batches is conditional

---
 grovedb/src/batch/mod.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index dcf6441..ad45362 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1932,6 +1932,7 @@ where
                         | Element::CountSumTree(..)
                         | Element::ProvableCountTree(..)
                         | Element::ProvableCountSumTree(..)
+                        | Element::CommitmentTree(..)
                         | Element::MmrTree(..)
                         | Element::BulkAppendTree(..)
                         | Element::DenseAppendOnlyFixedSizeTree(..) => {
@@ -1967,30 +1968,17 @@ where
                                     .get_feature_type(in_tree_type)
                                     .wrap_with_cost(OperationCost::default())
                             );
+                            let empty_root_hash = if matches!(&element, Element::CommitmentTree(..))
+                            {
+                                grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+                            } else {
+                                NULL_HASH
+                            };
                             cost_return_on_error_into!(
                                 &mut cost,
                                 element.insert_subtree_into_batch_operations(
                                     key_info.get_key_clone(),
-                                    NULL_HASH,
-                                    false,
-                                    &mut batch_operations,
-                                    merk_feature_type,
-                                    grove_version,
-                                )
-                            );
-                        }
-                        Element::CommitmentTree(..) => {
-                            let merk_feature_type = cost_return_on_error_into!(
-                                &mut cost,
-                                element
-                                    .get_feature_type(in_tree_type)
-                                    .wrap_with_cost(OperationCost::default())
-                            );
-                            cost_return_on_error_into!(
-                                &mut cost,
-                                element.insert_subtree_into_batch_operations(
-                                    key_info.get_key_clone(),
-                                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                                    empty_root_hash,
                                     false,
                                     &mut batch_operations,
                                     merk_feature_type,
-- 
2.43.0


From 8988e24a673dfd1e5756b087b66ae687ff8893ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 39/47] fix: tree override protection in batches also covers
 references

---
 grovedb/src/batch/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index ad45362..61e04af 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1813,10 +1813,8 @@ where
                         _ => unreachable!(),
                     };
 
-                    // Check tree-override protection for all non-reference elements.
-                    if batch_apply_options.validate_insertion_does_not_override_tree
-                        && !matches!(&element, Element::Reference(..))
-                    {
+                    // Check tree-override protection.
+                    if batch_apply_options.validate_insertion_does_not_override_tree {
                         let merk = self.merks.get_mut(path).expect("the Merk is cached");
                         let maybe_existing = cost_return_on_error_into!(
                             &mut cost,
-- 
2.43.0


From 6b5c236f1ecbaac13a748ad039928a52cf0583e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 40/47] fix: one-hop references in batches refuse trees and
 references as targets

---
 grovedb/src/batch/mod.rs | 65 +++++-----------------------------------
 1 file changed, 8 insertions(+), 57 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 61e04af..b9fae8f 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1143,14 +1143,8 @@ where
     /// batch operation.
     ///
     /// This function performs the processing for a reference when it does not
-    /// change in the same batch. It distinguishes between two cases:
-    ///
-    /// 1. When the hop count is exactly 1, it tries to directly extract the
-    ///    value hash from the reference element.
-    ///
-    /// 2. When the hop count is greater than 1, it retrieves the referenced
-    ///    element and then determines the next step based on the type of the
-    ///    element.
+    /// change in the same batch. It retrieves the referenced element and then
+    /// determines the next step based on the type of the element.
     ///
     /// # Arguments
     ///
@@ -1198,55 +1192,12 @@ where
             u32,
         ) -> Result<(StorageRemovedBytes, StorageRemovedBytes), Error>,
     {
-        let mut cost = OperationCost::default();
+        let cost = OperationCost::default();
         let (key, reference_path) = qualified_path
             .split_last()
             .expect("path validated non-empty above");
 
-        let merk = match self.merks.entry(reference_path.to_vec()) {
-            HashMapEntry::Occupied(o) => o.into_mut(),
-            HashMapEntry::Vacant(v) => v.insert(cost_return_on_error!(
-                &mut cost,
-                (self.get_merk_fn)(reference_path, false)
-            )),
-        };
-
-        // Here the element being referenced doesn't change in the same batch
-        // and the max hop count is 1, meaning it should point directly to the base
-        // element at this point we can extract the value hash from the
-        // reference element directly
-        if recursions_allowed == 1 {
-            let referenced_element_value_hash_opt = cost_return_on_error!(
-                &mut cost,
-                merk.get_value_hash(
-                    key.as_ref(),
-                    true,
-                    Some(Element::value_defined_cost_for_serialized_value),
-                    grove_version,
-                )
-                .map_err(|e| Error::CorruptedData(e.to_string()))
-            );
-
-            let referenced_element_value_hash = cost_return_on_error!(
-                &mut cost,
-                referenced_element_value_hash_opt
-                    .ok_or({
-                        let reference_string = reference_path
-                            .iter()
-                            .map(hex::encode)
-                            .collect::<Vec<String>>()
-                            .join("/");
-                        Error::MissingReference(format!(
-                            "direct reference to path:`{}` key:`{}` in batch is missing",
-                            reference_string,
-                            hex::encode(key)
-                        ))
-                    })
-                    .wrap_with_cost(OperationCost::default())
-            );
-
-            Ok(referenced_element_value_hash).wrap_with_cost(cost)
-        } else if let Some(referenced_path) = intermediate_reference_info {
+        if let Some(referenced_path) = intermediate_reference_info {
             let path = cost_return_on_error_into_no_add!(
                 cost,
                 path_from_reference_qualified_path_type(referenced_path.clone(), qualified_path)
@@ -1261,10 +1212,10 @@ where
                 grove_version,
             )
         } else {
-            // Here the element being referenced doesn't change in the same batch
-            // but the hop count is greater than 1, we can't just take the value hash from
-            // the referenced element as an element further down in the chain might still
-            // change in the batch.
+            // Here the element being referenced doesn't change in the same batch, we
+            // can't just take the value hash from the referenced element: it may be a
+            // reference, and an element further down in the chain might still change in
+            // the batch.
             self.process_reference_with_hop_count_greater_than_one(
                 key,
                 reference_path,
-- 
2.43.0


From fbc16c7a6c56f479214b00a0f38a6fcb8cf0c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 41/47] fix: clearing an append-only tree resets its element

---
 grovedb/src/operations/delete/mod.rs | 70 +++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 9db3e26..c20ad3f 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -36,7 +36,11 @@ use grovedb_merk::element::{
     delete::ElementDeleteFromStorageExtensions, tree_type::ElementTreeTypeExtensions,
 };
 #[cfg(feature = "minimal")]
-use grovedb_merk::{proofs::Query, KVIterator, MaybeTree};
+use grovedb_merk::element::{
+    get::ElementFetchFromStorageExtensions, insert::ElementInsertToStorageExtensions,
+};
+#[cfg(feature = "minimal")]
+use grovedb_merk::{proofs::Query, tree::NULL_HASH, KVIterator, MaybeTree};
 #[cfg(feature = "minimal")]
 use grovedb_merk::{Error as MerkError, Merk, MerkOptions};
 use grovedb_path::SubtreePath;
@@ -261,6 +265,70 @@ impl GroveDb {
                 })
             );
 
+            // The element in the parent tree describes the appended entries: make it the
+            // element of an empty tree again.
+            if let Some((parent_path, parent_key)) = subtree_path.derive_parent() {
+                let mut parent_merk = cost_return_on_error!(
+                    &mut cost,
+                    self.open_transactional_merk_at_path(
+                        parent_path.clone(),
+                        tx.as_ref(),
+                        Some(&batch),
+                        grove_version,
+                    )
+                );
+                let element = cost_return_on_error_into!(
+                    &mut cost,
+                    Element::get(&parent_merk, parent_key, true, grove_version)
+                );
+                let (element, empty_root_hash) = match element {
+                    Element::CommitmentTree(_, chunk_power, flags) => (
+                        Element::CommitmentTree(0, chunk_power, flags),
+                        grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                    ),
+                    Element::MmrTree(_, flags) => (Element::MmrTree(0, flags), NULL_HASH),
+                    Element::BulkAppendTree(_, chunk_power, flags) => {
+                        (Element::BulkAppendTree(0, chunk_power, flags), NULL_HASH)
+                    }
+                    Element::DenseAppendOnlyFixedSizeTree(_, height, flags) => (
+                        Element::DenseAppendOnlyFixedSizeTree(0, height, flags),
+                        NULL_HASH,
+                    ),
+                    _ => {
+                        return Err(Error::CorruptedData(
+                            "non-merk tree data under an element of another type".to_string(),
+                        ))
+                        .wrap_with_cost(cost);
+                    }
+                };
+                cost_return_on_error_into!(
+                    &mut cost,
+                    element.insert_subtree(
+                        &mut parent_merk,
+                        parent_key,
+                        empty_root_hash,
+                        None,
+                        grove_version,
+                    )
+                );
+
+                let mut merk_cache: HashMap<
+                    SubtreePath<B>,
+                    Merk<PrefixedRocksDbTransactionContext>,
+                > = HashMap::default();
+                merk_cache.insert(parent_path.clone(), parent_merk);
+                cost_return_on_error!(
+                    &mut cost,
+                    self.propagate_changes_with_transaction(
+                        merk_cache,
+                        parent_path,
+                        tx.as_ref(),
+                        &batch,
+                        grove_version,
+                    )
+                );
+            }
+
             cost_return_on_error!(
                 &mut cost,
                 self.db
-- 
2.43.0


From 41cecf8a6c0783abdd3b13df2b8528d669162206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 42/47] fix: proofs of references charge the hashes they
 compute

---
 merk/src/proofs/tree.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index ffef296..0eb4fb7 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -186,6 +186,7 @@ impl Tree {
 
                 kv_digest_to_kv_hash(key.as_slice(), &combined_value_hash)
                     .flat_map(|kv_hash| compute_hash(self, kv_hash))
+                    .add_cost(cost)
             }
             Node::KVCount(key, value, count) => {
                 kv_hash(key.as_slice(), value.as_slice()).flat_map(|kv_hash| {
@@ -210,14 +211,16 @@ impl Tree {
                 let combined_value_hash = combine_hash(node_value_hash, &referenced_value_hash)
                     .unwrap_add_cost(&mut cost);
 
-                kv_digest_to_kv_hash(key.as_slice(), &combined_value_hash).flat_map(|kv_hash| {
-                    node_hash_with_count(
-                        &kv_hash,
-                        &self.child_hash(true),
-                        &self.child_hash(false),
-                        *count,
-                    )
-                })
+                kv_digest_to_kv_hash(key.as_slice(), &combined_value_hash)
+                    .flat_map(|kv_hash| {
+                        node_hash_with_count(
+                            &kv_hash,
+                            &self.child_hash(true),
+                            &self.child_hash(false),
+                            *count,
+                        )
+                    })
+                    .add_cost(cost)
             }
         }
     }
-- 
2.43.0


From 891189f38d7d0c6a074583f6c980e778b2a78145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 43/47] fix: inserting an element under an append-only tree is
 refused

---
 grovedb/src/operations/insert/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grovedb/src/operations/insert/mod.rs b/grovedb/src/operations/insert/mod.rs
index b137711..6e9a5ee 100644
--- a/grovedb/src/operations/insert/mod.rs
+++ b/grovedb/src/operations/insert/mod.rs
@@ -201,6 +201,17 @@ impl GroveDb {
                 grove_version
             )
         );
+        // Append-only trees hold values, not elements: nothing can be inserted
+        // under them.
+        if subtree_to_insert_into
+            .tree_type
+            .uses_non_merk_data_storage()
+        {
+            return Err(Error::InvalidInput(
+                "cannot insert an element under an append-only tree",
+            ))
+            .wrap_with_cost(cost);
+        }
         // if we don't allow a tree override then we should check
 
         if options.checks_for_override() {
-- 
2.43.0


From 1da47e1b2b4565b52d88d13a2954d4ebcd0e06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 44/47] fix: subtrees are not looked for inside append-only
 trees

---
 grovedb/src/operations/auxiliary.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/auxiliary.rs b/grovedb/src/operations/auxiliary.rs
index 63512c5..b873f31 100644
--- a/grovedb/src/operations/auxiliary.rs
+++ b/grovedb/src/operations/auxiliary.rs
@@ -186,7 +186,11 @@ impl GroveDb {
                 if value.is_any_tree() {
                     let mut sub_path = q.clone();
                     sub_path.push(key.to_vec());
-                    queue.push(sub_path.clone());
+                    // Append-only trees hold values rather than elements: they
+                    // have no subtrees to look for.
+                    if !value.uses_non_merk_data_storage() {
+                        queue.push(sub_path.clone());
+                    }
                     result.push(sub_path);
                 }
             }
-- 
2.43.0


From 0b1265109f23b576e39bed0c1479b7014d98e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 45/47] fix: batches refuse operations on elements under an
 existing append-only tree

---
 grovedb/src/batch/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index b9fae8f..07ee815 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1733,10 +1733,19 @@ where
         let in_tree_type = {
             let merk = match self.merks.entry(path.to_vec()) {
                 HashMapEntry::Occupied(o) => o.into_mut(),
-                HashMapEntry::Vacant(v) => v.insert(cost_return_on_error!(
-                    &mut cost,
-                    (self.get_merk_fn)(path, false)
-                )),
+                HashMapEntry::Vacant(v) => {
+                    let merk =
+                        cost_return_on_error!(&mut cost, (self.get_merk_fn)(path, false));
+                    // Append-only trees hold values, not elements: nothing can
+                    // be inserted under them.
+                    if merk.tree_type.uses_non_merk_data_storage() {
+                        return Err(Error::InvalidBatchOperation(
+                            "batch operations cannot work on elements under an append-only tree",
+                        ))
+                        .wrap_with_cost(cost);
+                    }
+                    v.insert(merk)
+                }
             };
             merk.tree_type
         };
-- 
2.43.0


From 8e35c62cba3ca50d836baf59a31e1eb27d3758ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:02 +0000
Subject: [PATCH 46/47] fix: proofs of limited queries reveal no range boundary
 past the last result

---
 merk/src/proofs/query/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index af25523..1d6b982 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -209,14 +209,19 @@ where
         // 6. The same logic applies to range queries. If we are searching for
         // items 1 to 4 it would not make sense to push this to the right of 6.
 
-        let (mut found_item, on_boundary_not_found, mut left_proof_items, mut right_proof_items) =
-            proof_query_items.process_key(&key);
+        let (
+            mut found_item,
+            mut on_boundary_not_found,
+            mut left_proof_items,
+            mut right_proof_items,
+        ) = proof_query_items.process_key(&key);
 
         if let Some(current_limit) = proof_status.limit
             && current_limit == 0
         {
             left_proof_items = ProofItems::default();
             found_item = false;
+            on_boundary_not_found = false;
             right_proof_items = ProofItems::default();
         }
 
@@ -257,6 +262,9 @@ where
                     left_proof_items = ProofItems::default();
                 }
                 found_item = false;
+                // nothing has to be proven past the last result: revealing a
+                // boundary here would come after abridged nodes
+                on_boundary_not_found = false;
             } else if found_item {
                 // if limit is not zero, reserve a limit slot for the current node
                 // before generating proof for the right subtree
-- 
2.43.0


From 71af87663dbf89d1d812ba64a7c86127f22c59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:44 +0000
Subject: [PATCH 47/47] fix: proofs over bulk append trees count the selected
 values against the limit

---
 grovedb/src/operations/proof/generate.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 01b7054..d748018 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1581,10 +1581,18 @@ impl GroveDb {
                 .map_err(|e| Error::CorruptedData(format!("{}", e)))
         );
 
-        // Update limit: count individual values in the queried range
+        // Update limit: count the queried values, as the verifier does. The range
+        // spans all query items, so it can hold positions that none of them
+        // selects.
         if let Some(limit) = overall_limit.as_mut() {
-            let count = (end.min(total_count) - start).min(u16::MAX as u64) as u16;
-            *limit = limit.saturating_sub(count);
+            let count = (start..end.min(total_count))
+                .filter(|position| {
+                    let key = position.to_be_bytes();
+                    sub_query.items.iter().any(|item| item.contains(&key))
+                })
+                .take(*limit as usize)
+                .count() as u16;
+            *limit -= count;
         }
 
         let proof_bytes = cost_return_on_error_no_add!(
-- 
2.43.0

