From ae95a45b11fab73f55fda31dda3ef16e641a342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 01/23] verif: delay points behind cfg(scc_vhook)

---
 src/hash_table.rs               | 13 +++++++++++++
 src/hash_table/bucket.rs        | 13 +++++++++++++
 src/lib.rs                      | 16 ++++++++++++++++
 src/tree_index.rs               |  2 ++
 src/tree_index/internal_node.rs | 20 ++++++++++++++++++++
 src/tree_index/leaf.rs          |  8 ++++++++
 src/tree_index/leaf_node.rs     | 26 ++++++++++++++++++++++++++
 src/tree_index/node.rs          |  4 ++++
 src/vhook.rs                    | 20 ++++++++++++++++++++
 9 files changed, 122 insertions(+)
 create mode 100644 src/vhook.rs

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cd2794a..288027e 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -232,6 +232,7 @@ where
         while let Some(current_array) = unsafe { current_array_ptr.as_ref_unchecked() } {
             if let Some(old_array) = current_array.linked_array(guard) {
                 self.incremental_rehash_sync::<true>(current_array, guard);
+                vpoint!(11);
                 let index = old_array.bucket_index(hash);
                 if let Some(entry) =
                     old_array
@@ -251,6 +252,7 @@ where
                 return Some(entry);
             }
 
+            vpoint!(10);
             let new_current_array_ptr = self.bucket_array_var().load(Acquire, guard);
             if current_array_ptr == new_current_array_ptr {
                 break;
@@ -904,6 +906,7 @@ where
             return;
         }
 
+        vpoint!(12);
         // Lock the target buckets.
         let (target_index, end_target_index) =
             from_index_to_range(old_array.len(), current_array.len(), old_index);
@@ -933,6 +936,7 @@ where
             },
         );
 
+        vpoint!(1);
         self.relocate_bucket(unlock.0, unlock.1, old_array, old_index, &old_writer);
         drop(unlock);
 
@@ -960,6 +964,7 @@ where
         let (target_index, end_target_index) =
             from_index_to_range(old_array.len(), current_array.len(), old_index);
 
+        vpoint!(13);
         // Lock the target buckets.
         for i in target_index..end_target_index {
             let writer = if TRY_LOCK {
@@ -1012,6 +1017,7 @@ where
         // because incomplete relocation of entries may result in duplicate key problems.
         let pre_allocate_slots =
             old_array.len() > current_array.len() || old_writer.len() > BUCKET_LEN;
+        vpoint!(2);
         let old_data_block = old_array.data_block(old_index);
         let mut entry_ptr = EntryPtr::null();
         let mut position = 0;
@@ -1066,6 +1072,7 @@ where
             }
         }
 
+        vpoint!(3);
         // Relocate entries; it is infallible.
         entry_ptr = EntryPtr::null();
         position = 0;
@@ -1189,12 +1196,14 @@ where
                     debug_assert!(current_array.has_linked_array());
                 }
 
+                vpoint!(4);
                 if Self::end_incremental_rehash(rehashing_guard.0, rehashing_guard.1, true) {
                     if let Some(bucket_array) = current_array
                         .linked_array_var()
                         .swap((None, Tag::None), Release)
                         .0
                     {
+                        vpoint!(6);
                         self.defer_reclaim(bucket_array, async_guard.guard());
                     }
                 }
@@ -1241,6 +1250,7 @@ where
                     }
                 }
 
+                vpoint!(5);
                 if Self::end_incremental_rehash(rehashing_guard.0, rehashing_guard.1, true) {
                     if let Some(bucket_array) = current_array
                         .linked_array_var()
@@ -1337,6 +1347,7 @@ where
             // The bucket array is being replaced with a new one.
             return;
         }
+        vpoint!(7);
         let _lock_guard = ExitGuard::new((), |()| {
             self.minimum_capacity_var().fetch_sub(RESIZING, Release);
         });
@@ -1408,6 +1419,7 @@ where
                 }
                 true
             }) {
+                vpoint!(8);
                 // All the buckets are empty and locked.
                 writer_guard.1 = true;
                 if let Some(bucket_array) =
@@ -1417,6 +1429,7 @@ where
                 }
             }
         } else if try_resize {
+            vpoint!(9);
             let new_bucket_array = unsafe {
                 Shared::new_unchecked(BucketArray::<K, V, L, TYPE>::new(
                     new_capacity,
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 696c865..7a14c34 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -231,6 +231,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 *h = u8::from(guard.epoch());
             });
 
+            vpoint!(20);
             let mut removed_bitmap = link.metadata.removed_bitmap.load(Relaxed);
             debug_assert_eq!(removed_bitmap & (1_u32 << entry_ptr.index), 0);
 
@@ -241,6 +242,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 *h = u8::from(guard.epoch());
             });
 
+            vpoint!(21);
             let mut removed_bitmap = self.metadata.removed_bitmap.load(Relaxed);
             debug_assert_eq!(removed_bitmap & (1_u32 << entry_ptr.index), 0);
 
@@ -345,6 +347,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         };
         self.insert(data_block, hash, entry);
 
+        vpoint!(22);
         let mo = if TYPE == INDEX { Release } else { Relaxed };
         if let Some(link) = link_ref(from_entry_ptr.link_ptr) {
             let occupied_bitmap = link.metadata.occupied_bitmap.load(Relaxed);
@@ -363,6 +366,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 .store(occupied_bitmap & !(1_u32 << from_entry_ptr.index), mo);
         }
 
+        vpoint!(23);
         let from_len = from_writer.len.load(Relaxed);
         from_writer.len.store(from_len - 1, Relaxed);
     }
@@ -423,12 +427,15 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.write_cell(&link.metadata.partial_hash_array[0], |h| {
             *h = Self::partial_hash(hash);
         });
+        vpoint!(26);
         link.metadata.occupied_bitmap.store(1, Relaxed);
         if let Some(head) = link_ref(link.metadata.load_link()) {
             head.prev_link.store(link.as_ptr().cast_mut(), Relaxed);
         }
+        vpoint!(24);
         let link_ptr = link.as_ptr();
         self.metadata.link.swap((Some(link), Tag::None), Release);
+        vpoint!(25);
         self.len.store(self.len.load(Relaxed) + 1, Relaxed);
         EntryPtr { link_ptr, index: 0 }
     }
@@ -475,6 +482,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                         && next_link_ptr.is_null()
                     {
                         debug_assert!(link.metadata.link.is_null(Relaxed));
+                        vpoint!(32);
                         let unlinked = if let Some(prev) = unsafe { prev_link_ptr.as_ref() } {
                             prev.metadata.link.swap((None, Tag::None), Acquire).0
                         } else {
@@ -513,9 +521,11 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             }
         }
 
+        vpoint!(27);
         // Store ordering: `occupied_bitmap` -> `release` -> `removed_bitmap`.
         let occupied_bitmap = metadata.occupied_bitmap.load(Relaxed) & !dropped_bitmap;
         metadata.occupied_bitmap.store(occupied_bitmap, Release);
+        vpoint!(28);
         let removed_bitmap = metadata.removed_bitmap.load(Relaxed) & !dropped_bitmap;
         metadata.removed_bitmap.store(removed_bitmap, Release);
         if removed_bitmap != 0 {
@@ -627,6 +637,7 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 return Some(entry);
             }
 
+            vpoint!(30);
             let mut link_ptr = self.metadata.load_link();
             while let Some(link) = link_ref(link_ptr) {
                 if let Some((entry, _)) =
@@ -698,6 +709,7 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             metadata.occupied_bitmap.load(Relaxed)
         };
 
+        vpoint!(29);
         // Expect that the loop is vectorized by the compiler.
         for i in 0..LEN {
             if *Self::read_cell(&metadata.partial_hash_array[i]) != Self::partial_hash(hash) {
@@ -796,6 +808,7 @@ impl<K, V, L: LruList, const TYPE: char> Writer<K, V, L, TYPE> {
                     == self.metadata.occupied_bitmap.load(Relaxed)
         );
 
+        vpoint!(31);
         let poisoned = self.rw_lock.poison_lock();
         debug_assert!(poisoned);
 
diff --git a/src/lib.rs b/src/lib.rs
index f3ee0f9..f5f0029 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,17 @@
 #![deny(missing_docs, warnings, clippy::all, clippy::pedantic)]
 #![doc = include_str!("../README.md")]
+// `scc_vhook` is only set by the verification harness: `RUSTFLAGS="--cfg scc_vhook"`.
+#![allow(unexpected_cfgs)]
+
+/// Marks a point where the verification harness may delay the current thread.
+///
+/// Expands to nothing unless `scc_vhook` is set.
+macro_rules! vpoint {
+    ($id:expr) => {
+        #[cfg(scc_vhook)]
+        crate::vhook::point($id);
+    };
+}
 
 // Re-export [`sdd`](https://crates.io/crates/sdd) modules for backward compatibility.
 pub use sdd::{AtomicShared, Bag, Guard, LinkedEntry, LinkedList, Queue, Shared, Stack, Tag};
@@ -28,6 +40,10 @@ mod async_helper;
 mod exit_guard;
 mod hash_table;
 
+#[cfg(scc_vhook)]
+#[doc(hidden)]
+pub mod vhook;
+
 #[cfg(feature = "serde")]
 mod serde;
 
diff --git a/src/tree_index.rs b/src/tree_index.rs
index b0a40fe..982ed6f 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -378,6 +378,7 @@ where
         loop {
             {
                 let guard = Guard::new();
+                vpoint!(99);
                 if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                     if let Ok(result) = root_ref.remove_if::<_, _, _>(
                         key,
@@ -446,6 +447,7 @@ where
         let mut removed = false;
         loop {
             let guard = Guard::new();
+            vpoint!(99);
             if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                 if let Ok(result) =
                     root_ref.remove_if::<_, _, _>(key, &mut condition, &mut (), &guard)
diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 86718f6..4b864ca 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -109,6 +109,7 @@ where
     {
         loop {
             let (child, metadata) = self.children.min_greater_equal(key);
+            vpoint!(80);
             if let Some((_, child)) = child {
                 if let Some(child) = child.load(Acquire, guard).as_ref() {
                     if self.children.validate(metadata) {
@@ -138,6 +139,7 @@ where
     {
         loop {
             let (child, metadata) = self.children.min_greater_equal(key);
+            vpoint!(80);
             if let Some((_, child)) = child {
                 if let Some(child) = child.load(Acquire, guard).as_ref() {
                     if self.children.validate(metadata) {
@@ -183,6 +185,7 @@ where
             if retry {
                 continue;
             }
+            vpoint!(82);
             let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
             if let Some(unbounded) = unbounded_ptr.as_ref() {
                 if self.children.validate(metadata) {
@@ -252,6 +255,7 @@ where
     ) -> Result<InsertResult<K, V>, (K, V)> {
         loop {
             let (child, metadata) = self.children.min_greater_equal(&key);
+            vpoint!(81);
             if let Some((child_key, child)) = child {
                 let child_ptr = child.load(Acquire, guard);
                 if let Some(child_ref) = child_ptr.as_ref() {
@@ -303,6 +307,7 @@ where
                 continue;
             }
 
+            vpoint!(82);
             let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
             if let Some(unbounded) = unbounded_ptr.as_ref() {
                 debug_assert!(unbounded_ptr.tag() == Tag::None);
@@ -373,6 +378,7 @@ where
     {
         loop {
             let (child, metadata) = self.children.min_greater_equal(key);
+            vpoint!(80);
             if let Some((_, child)) = child {
                 let child_ptr = child.load(Acquire, guard);
                 if let Some(child) = child_ptr.as_ref() {
@@ -395,6 +401,7 @@ where
                 // It is not a hot loop - see `LeafNode::search_entry`.
                 continue;
             }
+            vpoint!(82);
             let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
             if let Some(unbounded) = unbounded_ptr.as_ref() {
                 debug_assert!(unbounded_ptr.tag() == Tag::None);
@@ -462,6 +469,7 @@ where
                 RemoveRangeState::FullyContained => {
                     // There can be another thread inserting keys into the node, and this may
                     // render those concurrent operations completely ineffective.
+                    vpoint!(94);
                     self.children.remove_if(key, &mut |_| true);
                     node.swap((None, Tag::None), AcqRel);
                 }
@@ -479,6 +487,7 @@ where
             }
         }
 
+        vpoint!(93);
         // Now, examine the unbounded child.
         match current_state {
             RemoveRangeState::Below => {
@@ -518,6 +527,7 @@ where
                 self.children.remove_if(key, &mut |_| true);
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                vpoint!(95);
                 lower_node.swap((None, Tag::None), Release);
             }
             if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
@@ -592,6 +602,7 @@ where
             return Err(entry);
         }
 
+        vpoint!(83);
         let prev = self
             .split_op
             .origin_node
@@ -823,6 +834,7 @@ where
             }
         }
 
+        vpoint!(84);
         // Inserts the newly allocated internal nodes into the main array.
         match self.children.insert(
             unsafe {
@@ -847,6 +859,7 @@ where
         }
         exit_guard.forget();
 
+        vpoint!(85);
         // Replace the full node with the high-key node.
         let unused_node = full_node
             .swap(
@@ -858,6 +871,7 @@ where
             )
             .0;
 
+        vpoint!(86);
         if root_split {
             // Return without unlocking it.
             return Ok(InsertResult::Retry(entry.0, entry.1));
@@ -866,6 +880,7 @@ where
         // Unlock the node.
         self.finish_split();
 
+        vpoint!(87);
         // Drop the deprecated nodes.
         if let Some(unused_node) = unused_node {
             // Clean up the split operation by committing it.
@@ -890,6 +905,7 @@ where
     pub(super) fn commit(&self, guard: &Guard) {
         let origin = self.split_op.reset();
 
+        vpoint!(88);
         // Prevent further exclusive access to the internal node.
         self.lock.poison_lock();
         if let Some(origin) = origin {
@@ -942,6 +958,7 @@ where
                 let node_ptr = node.load(Acquire, guard);
                 let node_ref = node_ptr.as_ref().unwrap();
                 if node_ref.retired() {
+                    vpoint!(89);
                     let result = self.children.remove_if(key, &mut |_| true);
                     debug_assert_ne!(result, RemoveResult::Fail);
 
@@ -956,6 +973,7 @@ where
                 }
             }
 
+            vpoint!(90);
             // The unbounded node is replaced with the maximum key node if retired.
             let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
             let fully_empty = if let Some(unbounded) = unbounded_ptr.as_ref() {
@@ -973,6 +991,7 @@ where
                             let _: bool = obsolete_node.release();
                             node_deleted = true;
                         }
+                        vpoint!(91);
                         let result = self.children.remove_if(key, &mut |_| true);
                         debug_assert_ne!(result, RemoveResult::Fail);
                         if let Some(node) = max_key_child.swap((None, Tag::None), Release).0 {
@@ -1003,6 +1022,7 @@ where
             }
 
             drop(lock);
+            vpoint!(92);
             if !self.has_retired_node(guard) {
                 break;
             }
diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index e5845ff..20ed760 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -285,6 +285,7 @@ impl<K, V> Leaf<K, V> {
 
     /// Rolls back the insertion at the given index.
     fn rollback(&self, index: usize) -> InsertResult<K, V> {
+        vpoint!(45);
         let (key, val) = self.take(index);
         let result = self
             .metadata
@@ -365,7 +366,9 @@ where
                         continue 'after_read_metadata;
                     }
 
+                    vpoint!(40);
                     self.write(i, key, val);
+                    vpoint!(41);
                     return self.post_insert(i, interim_metadata);
                 }
                 mutable_metadata >>= DIMENSION.num_bits_per_entry;
@@ -438,6 +441,7 @@ where
                                 mutable_metadata >>= DIMENSION.num_bits_per_entry;
                             }
 
+                            vpoint!(43);
                             let mut new_metadata = metadata | DIMENSION.rank_mask(i);
                             if empty {
                                 new_metadata = Dimension::retire(new_metadata);
@@ -624,6 +628,7 @@ where
                 .unwrap_unchecked()
         };
 
+        vpoint!(44);
         let boundary = Self::optimal_boundary(metadata);
         let scanner = Scanner {
             leaf: self,
@@ -678,6 +683,7 @@ where
                 mutable_metadata >>= DIMENSION.num_bits_per_entry;
             }
 
+            vpoint!(42);
             // Make the newly inserted value reachable.
             let final_metadata = DIMENSION.augment(new_metadata, free_slot_index, max_min_rank + 1);
             if let Err(actual) =
@@ -913,10 +919,12 @@ impl<'l, K, V> Scanner<'l, K, V> {
     where
         K: Ord,
     {
+        vpoint!(46);
         let mut next_leaf_ptr = self.leaf.next_ptr(Acquire, guard);
         while let Some(next_leaf_ref) = next_leaf_ptr.as_ref() {
             let mut leaf_scanner = Scanner::new(next_leaf_ref);
             if let Some(key) = min_allowed_key {
+                vpoint!(47);
                 if !self.leaf.is_clear(Relaxed) {
                     // Data race resolution: compare keys if the current leaf has been deleted.
                     //
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 18cdda2..f429fca 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -119,6 +119,7 @@ where
             let (child, metadata) = self.children.min_greater_equal(key);
             if let Some((_, child)) = child {
                 if let Some(child) = child.load(Acquire, guard).as_ref() {
+                    vpoint!(50);
                     if self.children.validate(metadata) {
                         // Data race with split.
                         //  - Writer: start to insert an intermediate low key leaf.
@@ -140,6 +141,7 @@ where
             } else {
                 let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
                 if let Some(unbounded) = unbounded_ptr.as_ref() {
+                    vpoint!(51);
                     if self.children.validate(metadata) {
                         return unbounded.search_entry(key);
                     }
@@ -161,8 +163,10 @@ where
             let (child, metadata) = self.children.min_greater_equal(key);
             if let Some((_, child)) = child {
                 if let Some(child) = child.load(Acquire, guard).as_ref() {
+                    vpoint!(52);
                     if self.children.validate(metadata) {
                         // Data race resolution - see `LeafNode::search_entry`.
+                        vpoint!(53);
                         return child.search_value(key);
                     }
                 }
@@ -171,6 +175,7 @@ where
                 let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
                 if let Some(unbounded) = unbounded_ptr.as_ref() {
                     if self.children.validate(metadata) {
+                        vpoint!(53);
                         return unbounded.search_value(key);
                     }
                 } else {
@@ -275,6 +280,7 @@ where
                 if let Some(child_ref) = child_ptr.as_ref() {
                     if self.children.validate(metadata) {
                         // Data race resolution - see `LeafNode::search_entry`.
+                        vpoint!(54);
                         let insert_result = child_ref.insert(key, val);
                         match insert_result {
                             InsertResult::Success
@@ -330,6 +336,7 @@ where
                 if !self.children.validate(metadata) {
                     continue;
                 }
+                vpoint!(54);
                 let insert_result = unbounded.insert(key, val);
                 match insert_result {
                     InsertResult::Success
@@ -386,6 +393,7 @@ where
                 if let Some(child) = child_ptr.as_ref() {
                     if self.children.validate(metadata) {
                         // Data race resolution - see `LeafNode::search_entry`.
+                        vpoint!(55);
                         let result = child.remove_if(key, condition);
                         if result == RemoveResult::Frozen {
                             // When a `Leaf` is frozen, its entries may be being copied to new
@@ -408,6 +416,7 @@ where
                     // Data race resolution - see `LeafNode::search_entry`.
                     continue;
                 }
+                vpoint!(55);
                 let result = unbounded.remove_if(key, condition);
                 if result == RemoveResult::Frozen {
                     async_wait.try_wait(&self.lock);
@@ -464,6 +473,7 @@ where
                 RemoveRangeState::FullyContained => {
                     // There can be another thread inserting keys into the leaf, and this may
                     // render those operations completely ineffective.
+                    vpoint!(68);
                     self.children.remove_if(key, &mut |_| true);
                     if let Some(leaf) = leaf.swap((None, Tag::None), AcqRel).0 {
                         leaf.delete_self(Release);
@@ -482,6 +492,7 @@ where
             }
         }
 
+        vpoint!(69);
         if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
             unbounded.remove_range(range);
         }
@@ -521,6 +532,7 @@ where
         high_key_leaf_node: &LeafNode<K, V>,
         guard: &'g Guard,
     ) -> &'g K {
+        vpoint!(70);
         let mut middle_key = None;
 
         low_key_leaf_node.lock.lock_sync();
@@ -657,6 +669,7 @@ where
             .load(Relaxed, guard)
             .as_ref()
             .unwrap();
+        vpoint!(71);
         let unfrozen = low_key_leaf.thaw();
         debug_assert!(unfrozen);
         let unfrozen = high_key_leaf.thaw();
@@ -703,6 +716,7 @@ where
             .as_ref()
             .unwrap();
 
+        vpoint!(72);
         // Roll back the linked list state.
         //
         // `high_key_leaf` must be deleted first in order for `Scanners` not to omit entries.
@@ -810,9 +824,11 @@ where
             self.lock.release_lock();
         });
 
+        vpoint!(56);
         let mut low_key_leaf_shared = Shared::new(Leaf::new());
         let mut high_key_leaf_shared = None;
         target.freeze_and_distribute(&mut low_key_leaf_shared, &mut high_key_leaf_shared);
+        vpoint!(57);
 
         self.split_op
             .low_key_leaf
@@ -839,6 +855,7 @@ where
                 target.push_back(low_key_leaf_ptr.get_shared().unwrap(), true, Release, guard);
             debug_assert!(result.is_ok());
 
+            vpoint!(58);
             // Take the max key value stored in the low key leaf as the leaf key.
             let low_key_leaf = low_key_leaf_ptr.as_ref().unwrap();
 
@@ -868,6 +885,7 @@ where
             // If the order is reversed, there emerges a possibility that entries were removed from
             // the replaced leaf node whereas those entries still remain in `unused_leaf`; if that
             // happens, iterators may see the removed entries momentarily.
+            vpoint!(59);
             let deleted = target.delete_self(Release);
             debug_assert!(deleted);
 
@@ -875,6 +893,7 @@ where
             let unfrozen = low_key_leaf.thaw();
             debug_assert!(unfrozen);
 
+            vpoint!(60);
             // Replace the full leaf with the high-key leaf.
             let high_key_leaf = self
                 .split_op
@@ -892,6 +911,7 @@ where
             debug_assert!(result.is_ok());
 
             // Mark the full leaf deleted before making the new one reachable and updatable.
+            vpoint!(61);
             let deleted = target.delete_self(Release);
             debug_assert!(deleted);
 
@@ -902,6 +922,7 @@ where
                 )
                 .0
         };
+        vpoint!(62);
         exit_guard.forget();
 
         let origin = self.split_op.reset();
@@ -922,12 +943,15 @@ where
             for entry in Scanner::new(&self.children) {
                 let leaf_ptr = entry.1.load(Acquire, guard);
                 let leaf = leaf_ptr.as_ref().unwrap();
+                vpoint!(63);
                 if leaf.is_retired() {
                     let deleted = leaf.delete_self(Release);
                     debug_assert!(deleted);
+                    vpoint!(64);
                     let result = self.children.remove_if(entry.0, &mut |_| true);
                     debug_assert_ne!(result, RemoveResult::Fail);
 
+                    vpoint!(65);
                     // The pointer is nullified after the metadata of `self.children` is updated so
                     // that readers are able to retry when they find it being `null`.
                     if let Some(leaf) = entry.1.swap((None, Tag::None), Release).0 {
@@ -950,6 +974,7 @@ where
             } else {
                 let unbounded_ptr = self.unbounded_child.load(Acquire, guard);
                 if let Some(unbounded) = unbounded_ptr.as_ref() {
+                    vpoint!(66);
                     if unbounded.is_retired() {
                         let deleted = unbounded.delete_self(Release);
                         debug_assert!(deleted);
@@ -972,6 +997,7 @@ where
                 }
             };
 
+            vpoint!(67);
             if fully_empty {
                 return RemoveResult::Retired;
             }
diff --git a/src/tree_index/node.rs b/src/tree_index/node.rs
index d746302..09afd39 100644
--- a/src/tree_index/node.rs
+++ b/src/tree_index/node.rs
@@ -241,6 +241,7 @@ where
             val = v;
 
             // Updates the pointer before unlocking the root.
+            vpoint!(96);
             match root.compare_exchange(
                 root_ptr,
                 (Some(new_root), Tag::None),
@@ -252,6 +253,7 @@ where
                     if let Some(Self::Internal(internal_node)) = new_root_ptr.as_ref() {
                         internal_node.finish_split();
                     }
+                    vpoint!(98);
                     if let Some(old_root) = old_root {
                         old_root.commit(guard);
                     }
@@ -313,6 +315,7 @@ where
                 return false;
             }
 
+            vpoint!(97);
             let new_root = match root_ref {
                 Node::Internal(internal_node) => {
                     if internal_node.retired() {
@@ -337,6 +340,7 @@ where
                 }
             };
 
+            vpoint!(96);
             match root.compare_exchange(root_ptr, (new_root, Tag::None), AcqRel, Acquire, guard) {
                 Ok((_, new_root_ptr)) => {
                     root_ptr = new_root_ptr;
diff --git a/src/vhook.rs b/src/vhook.rs
new file mode 100644
index 0000000..bdf49db
--- /dev/null
+++ b/src/vhook.rs
@@ -0,0 +1,20 @@
+//! Delay points for the verification harness, compiled only with `--cfg scc_vhook`.
+
+use std::sync::OnceLock;
+
+static HANDLER: OnceLock<fn(u32)> = OnceLock::new();
+
+/// Sets the function called at every delay point.
+///
+/// Only the first call takes effect.
+pub fn set(handler: fn(u32)) {
+    let _: Result<(), fn(u32)> = HANDLER.set(handler);
+}
+
+/// Calls the handler, if any.
+#[inline]
+pub(crate) fn point(id: u32) {
+    if let Some(handler) = HANDLER.get() {
+        handler(id);
+    }
+}
-- 
2.43.0


From e7942d99f8f58bd0f5dc4a240548c4f2ad8f57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 02/23] fix: report the minimum capacity without the internal
 resizing flag

---
 src/hash_cache.rs | 2 +-
 src/hash_index.rs | 2 +-
 src/hash_map.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash_cache.rs b/src/hash_cache.rs
index b2a085f..3e45c9b 100644
--- a/src/hash_cache.rs
+++ b/src/hash_cache.rs
@@ -1154,7 +1154,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 }
 
diff --git a/src/hash_index.rs b/src/hash_index.rs
index 93bcff7..0736e7f 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1112,7 +1112,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
diff --git a/src/hash_map.rs b/src/hash_map.rs
index 494f7ee..4364c0a 100644
--- a/src/hash_map.rs
+++ b/src/hash_map.rs
@@ -1457,7 +1457,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
-- 
2.43.0


From 71b2c2784bba6c0bb4242c4009a464d503b75b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 03/23] fix: keep exhausted HashIndex and TreeIndex iterators
 exhausted

---
 src/hash_index.rs |  9 +++++++++
 src/tree_index.rs | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 0736e7f..5905e18 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -4,6 +4,7 @@ use std::collections::hash_map::RandomState;
 use std::fmt::{self, Debug};
 use std::hash::{BuildHasher, Hash};
 use std::iter::FusedIterator;
+use std::mem;
 use std::ops::{Deref, RangeInclusive};
 use std::panic::UnwindSafe;
 use std::ptr;
@@ -112,6 +113,7 @@ where
     index: usize,
     bucket: Option<&'h Bucket<K, V, (), INDEX>>,
     entry_ptr: EntryPtr<K, V, INDEX>,
+    exhausted: bool,
     guard: &'h Guard,
 }
 
@@ -1175,6 +1177,7 @@ where
             index: 0,
             bucket: None,
             entry_ptr: EntryPtr::null(),
+            exhausted: false,
             guard,
         }
     }
@@ -2097,6 +2100,11 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        // The iterator stays exhausted unless an entry is found.
+        if mem::replace(&mut self.exhausted, true) {
+            return None;
+        }
+
         let mut array = if let Some(&array) = self.bucket_array.as_ref() {
             array
         } else {
@@ -2119,6 +2127,7 @@ where
                 if self.entry_ptr.move_to_next(bucket) {
                     let (k, v) = self.entry_ptr.get(array.data_block(self.index));
                     self.bucket.replace(bucket);
+                    self.exhausted = false;
                     return Some((k, v));
                 }
             }
diff --git a/src/tree_index.rs b/src/tree_index.rs
index 982ed6f..aa393a6 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -8,6 +8,7 @@ mod node;
 use std::fmt::{self, Debug};
 use std::iter::FusedIterator;
 use std::marker::PhantomData;
+use std::mem;
 use std::ops::Bound::{Excluded, Included, Unbounded};
 use std::ops::RangeBounds;
 use std::panic::UnwindSafe;
@@ -73,6 +74,7 @@ pub struct TreeIndex<K, V> {
 pub struct Iter<'t, 'g, K, V> {
     root: &'t AtomicShared<Node<K, V>>,
     leaf_scanner: Option<Scanner<'g, K, V>>,
+    exhausted: bool,
     guard: &'g Guard,
 }
 
@@ -83,6 +85,7 @@ pub struct Range<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> {
     bounds: R,
     check_lower_bound: bool,
     check_upper_bound: bool,
+    exhausted: bool,
     guard: &'g Guard,
     query: PhantomData<fn() -> Q>,
 }
@@ -874,6 +877,7 @@ impl<'t, 'g, K, V> Iter<'t, 'g, K, V> {
         Iter::<'t, 'g, K, V> {
             root,
             leaf_scanner: None,
+            exhausted: false,
             guard,
         }
     }
@@ -897,6 +901,11 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        // The iterator stays exhausted unless an entry is found.
+        if mem::replace(&mut self.exhausted, true) {
+            return None;
+        }
+
         // Starts scanning.
         if self.leaf_scanner.is_none() {
             let root_ptr = self.root.load(Acquire, self.guard);
@@ -914,12 +923,14 @@ where
             let min_allowed_key = scanner.get().map(|(key, _)| key);
             if let Some(result) = scanner.next() {
                 self.leaf_scanner.replace(scanner);
+                self.exhausted = false;
                 return Some(result);
             }
             // Go to the next leaf node.
             if let Some(new_scanner) = scanner.jump(min_allowed_key, self.guard) {
                 if let Some(entry) = new_scanner.get() {
                     self.leaf_scanner.replace(new_scanner);
+                    self.exhausted = false;
                     return Some(entry);
                 }
             }
@@ -950,6 +961,7 @@ impl<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> Range<'t, 'g, K, V, Q, R> {
             bounds: range,
             check_lower_bound: true,
             check_upper_bound: false,
+            exhausted: false,
             guard,
             query: PhantomData,
         }
@@ -1057,6 +1069,11 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        // The iterator stays exhausted unless an entry is found.
+        if mem::replace(&mut self.exhausted, true) {
+            return None;
+        }
+
         while let Some((k, v)) = self.next_unbounded() {
             if self.check_lower_bound {
                 match self.bounds.start_bound() {
@@ -1078,20 +1095,24 @@ where
                 match self.bounds.end_bound() {
                     Excluded(key) => {
                         if key.compare(k).is_gt() {
+                            self.exhausted = false;
                             return Some((k, v));
                         }
                     }
                     Included(key) => {
                         if key.compare(k).is_ge() {
+                            self.exhausted = false;
                             return Some((k, v));
                         }
                     }
                     Unbounded => {
+                        self.exhausted = false;
                         return Some((k, v));
                     }
                 }
                 break;
             }
+            self.exhausted = false;
             return Some((k, v));
         }
         None
-- 
2.43.0


From 7ab86be8128017194f470a075edb1569225eab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 04/23] fix: lock-free HashIndex reads do not miss an entry
 being updated

OccupiedEntry::update inserts the new version into another slot before it
marks the old one removed. A reader that had already passed the slot of the
new version when it was written, and reached the old one after it was marked,
reported the key as absent although it was present all the time. Look again
if any slot of the bucket has changed in the meantime.
---
 src/hash_table/bucket.rs | 43 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 7a14c34..84cd76a 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -4,7 +4,7 @@ use std::mem::{MaybeUninit, forget, needs_drop};
 use std::ops::{Deref, Index};
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
+use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize, fence};
 
 use saa::Lock;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
@@ -630,7 +630,10 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     where
         Q: Equivalent<K> + ?Sized,
     {
-        if self.len() != 0 {
+        // If `TYPE = INDEX`, lock-free readers may overlook an entry that is being updated, because
+        // an update moves the entry to another slot; look again if any slot has changed meanwhile.
+        let mut slot_state = if TYPE == INDEX { self.slot_state() } else { 0 };
+        while self.len() != 0 {
             if let Some((entry, _)) =
                 Self::search_data_block(&self.metadata, data_block_ref(data_block), key, hash)
             {
@@ -647,11 +650,47 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 }
                 link_ptr = link.metadata.load_link();
             }
+
+            if TYPE != INDEX {
+                break;
+            }
+            fence(Acquire);
+            let new_slot_state = self.slot_state();
+            if slot_state == new_slot_state {
+                break;
+            }
+            slot_state = new_slot_state;
         }
 
         None
     }
 
+    /// Returns a digest of the bitmaps of all the data blocks.
+    ///
+    /// A slot that is marked removed stays as it is as long as the caller holds a [`Guard`] that
+    /// was created before.
+    #[inline]
+    fn slot_state(&self) -> u64 {
+        let state = |removed_bitmap: u32, occupied_bitmap: u32| {
+            (u64::from(removed_bitmap) << u32::BITS) | u64::from(occupied_bitmap)
+        };
+        let mut digest = state(
+            self.metadata.removed_bitmap.load(Acquire),
+            self.metadata.occupied_bitmap.load(Acquire),
+        );
+        let mut link_ptr = self.metadata.load_link();
+        while let Some(link) = link_ref(link_ptr) {
+            digest = digest
+                .wrapping_mul(0x9E37_79B9_7F4A_7C15)
+                .wrapping_add(state(
+                    link.metadata.removed_bitmap.load(Acquire),
+                    link.metadata.occupied_bitmap.load(Acquire),
+                ));
+            link_ptr = link.metadata.load_link();
+        }
+        digest
+    }
+
     /// Gets an [`EntryPtr`] pointing to the slot containing the key.
     ///
     /// Returns an invalid [`EntryPtr`] if the key is not present.
-- 
2.43.0


From 56d4ade8d5678b85f5c486fd9cf3507d73a652fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:51 +0000
Subject: [PATCH 05/23] fix: TreeIndex range uses the scanned entries for its
 upper bound check

The upper bound check was skipped if the entries beyond the bound had been
removed after the leaf was snapshotted, although they were still visited.
---
 src/tree_index/leaf.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 20ed760..bf7bf75 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -164,7 +164,11 @@ impl<K, V> Leaf<K, V> {
     /// Returns a reference to the max entry.
     #[inline]
     pub(super) fn max_entry(&self) -> Option<(&K, &V)> {
-        let mut mutable_metadata = self.metadata.load(Acquire);
+        Self::max_index(self.metadata.load(Acquire)).map(|i| (self.key_at(i), self.value_at(i)))
+    }
+
+    /// Returns the index of the max entry in the given metadata.
+    fn max_index(mut mutable_metadata: usize) -> Option<usize> {
         let mut max_rank = 0;
         let mut max_index = DIMENSION.num_entries;
         for i in 0..DIMENSION.num_entries {
@@ -178,10 +182,7 @@ impl<K, V> Leaf<K, V> {
             }
             mutable_metadata >>= DIMENSION.num_bits_per_entry;
         }
-        if max_index != DIMENSION.num_entries {
-            return Some((self.key_at(max_index), self.value_at(max_index)));
-        }
-        None
+        (max_index != DIMENSION.num_entries).then_some(max_index)
     }
 
     /// Inserts a key value pair at the specified position without checking the metadata.
@@ -903,10 +904,14 @@ impl<'l, K, V> Scanner<'l, K, V> {
         ))
     }
 
-    /// Returns a reference to the max key.
+    /// Returns a reference to the max key among the entries that the scanner can visit.
+    ///
+    /// It has to rely on the same metadata as the scanner, because the scanner also visits entries
+    /// that have been removed since.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&'l K> {
-        self.leaf.max_key()
+        let leaf = self.leaf;
+        Leaf::<K, V>::max_index(self.metadata).map(|i| leaf.key_at(i))
     }
 
     /// Traverses the linked list.
-- 
2.43.0


From 90dc78a35085de3f4a41dad2136883353a7bd010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 06/23] fix: TreeIndex removal does not remove a key again that
 was inserted meanwhile

If the root could not be cleaned up after a successful removal, the removal was
repeated, and took away an entry that another thread had inserted since.
---
 src/tree_index.rs | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/tree_index.rs b/src/tree_index.rs
index aa393a6..e853ece 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -382,7 +382,12 @@ where
             {
                 let guard = Guard::new();
                 vpoint!(99);
-                if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
+                if removed {
+                    // Only the root needs to be cleaned up; the key may have been inserted again.
+                    if Node::cleanup_root(&self.root, &mut pinned_async_wait, &guard) {
+                        return true;
+                    }
+                } else if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                     if let Ok(result) = root_ref.remove_if::<_, _, _>(
                         key,
                         &mut condition,
@@ -400,24 +405,12 @@ where
                                 }
                                 removed = true;
                             }
-                            RemoveResult::Fail => {
-                                if removed {
-                                    if Node::cleanup_root(
-                                        &self.root,
-                                        &mut pinned_async_wait,
-                                        &guard,
-                                    ) {
-                                        return true;
-                                    }
-                                } else {
-                                    return false;
-                                }
-                            }
+                            RemoveResult::Fail => return false,
                             RemoveResult::Frozen => (),
                         }
                     }
                 } else {
-                    return removed;
+                    return false;
                 }
             }
             pinned_async_wait.wait().await;
@@ -451,7 +444,12 @@ where
         loop {
             let guard = Guard::new();
             vpoint!(99);
-            if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
+            if removed {
+                // Only the root needs to be cleaned up; the key may have been inserted again.
+                if Node::cleanup_root(&self.root, &mut (), &guard) {
+                    return true;
+                }
+            } else if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                 if let Ok(result) =
                     root_ref.remove_if::<_, _, _>(key, &mut condition, &mut (), &guard)
                 {
@@ -466,20 +464,12 @@ where
                             }
                             removed = true;
                         }
-                        RemoveResult::Fail => {
-                            if removed {
-                                if Node::cleanup_root(&self.root, &mut (), &guard) {
-                                    return true;
-                                }
-                            } else {
-                                return false;
-                            }
-                        }
+                        RemoveResult::Fail => return false,
                         RemoveResult::Frozen => (),
                     }
                 }
             } else {
-                return removed;
+                return false;
             }
         }
     }
-- 
2.43.0


From 3ebd6485372af2c39fd90ff816534ad5786397e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 07/23] fix: TreeIndex iterators always skip keys that are not
 greater than the last one

A leaf that was removed as part of its node, or cleared, does not look deleted,
so smaller keys inserted into the next leaf since were produced.
---
 src/tree_index/leaf.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index bf7bf75..40c382a 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -930,19 +930,18 @@ impl<'l, K, V> Scanner<'l, K, V> {
             let mut leaf_scanner = Scanner::new(next_leaf_ref);
             if let Some(key) = min_allowed_key {
                 vpoint!(47);
-                if !self.leaf.is_clear(Relaxed) {
-                    // Data race resolution: compare keys if the current leaf has been deleted.
-                    //
-                    // There is a chance that the current leaf has been deleted, and smaller
-                    // keys have been inserted into the next leaf.
-                    while let Some((k, _)) = leaf_scanner.next() {
-                        if key.cmp(k) == Ordering::Less {
-                            return Some(leaf_scanner);
-                        }
+                // Data race resolution: compare keys in case the current leaf has been deleted.
+                //
+                // There is a chance that the current leaf has been deleted, and smaller keys have
+                // been inserted into the next leaf. The state of the current leaf does not tell
+                // if it has been removed along with its node, or cleared.
+                while let Some((k, _)) = leaf_scanner.next() {
+                    if key.cmp(k) == Ordering::Less {
+                        return Some(leaf_scanner);
                     }
-                    next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
-                    continue;
                 }
+                next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
+                continue;
             }
             if leaf_scanner.next().is_some() {
                 return Some(leaf_scanner);
-- 
2.43.0


From 772f86b63d2e0b68cfd9570672ccd60de66fd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:45 +0000
Subject: [PATCH 08/23] fix: dropping a future that waits for a removed bucket
 or node does not hang

The wait queue of a poisoned lock stays flagged as being processed, and the
lock may already have been freed: acknowledge the result instead of unlinking
the wait queue entry when an awaiting future is dropped.
---
 src/async_helper.rs      | 101 ++++++++++++++++++++++++++++++++-------
 src/hash_table/bucket.rs |  30 +++++++++---
 2 files changed, 107 insertions(+), 24 deletions(-)

diff --git a/src/async_helper.rs b/src/async_helper.rs
index 4104a19..90e7ce1 100644
--- a/src/async_helper.rs
+++ b/src/async_helper.rs
@@ -1,7 +1,10 @@
 use std::cell::UnsafeCell;
+use std::future::poll_fn;
+use std::hint::spin_loop;
+use std::mem::ManuallyDrop;
 use std::pin::{Pin, pin};
 use std::ptr;
-use std::sync::atomic::Ordering;
+use std::sync::atomic::Ordering::{self, Acquire};
 
 use saa::lock::Mode;
 use saa::{Lock, Pager};
@@ -20,7 +23,11 @@ pub(crate) struct AsyncGuard {
 #[derive(Debug)]
 pub(crate) struct AsyncWait {
     /// Allows the user to await the lock anywhere in the code.
-    pager: Pager<'static, Lock>,
+    pager: ManuallyDrop<Pager<'static, Lock>>,
+    /// The [`Lock`] where the [`Pager`] is registered.
+    lock: *const Lock,
+    /// What the [`Pager`] is waiting for.
+    mode: Mode,
 }
 
 /// [`TryWait`] allows [`AsyncWait`] to be used in synchronous methods.
@@ -83,10 +90,38 @@ unsafe impl Sync for AsyncGuard {}
 impl AsyncWait {
     /// Awaits the [`Lock`] to be available.
     #[inline]
-    pub async fn wait(self: &mut Pin<&mut Self>) {
-        let this = unsafe { ptr::read(self) };
-        let mut pinned_pager = unsafe { Pin::new_unchecked(&mut this.get_unchecked_mut().pager) };
-        let _result = pinned_pager.poll_async().await;
+    pub fn wait(self: &mut Pin<&mut Self>) -> impl Future<Output = bool> {
+        poll_fn(|cx| pin!(self.pager().poll_async()).poll(cx).map(|r| r == Ok(true)))
+    }
+
+    /// Tries to acquire the [`Lock`] in the specified mode.
+    ///
+    /// Returns `None` if the [`Lock`] is not available, and in that case [`wait`](Self::wait)
+    /// acquires it. Returns `false` if the [`Lock`] is poisoned.
+    #[inline]
+    pub fn try_acquire(self: &mut Pin<&mut Self>, lock: &Lock, mode: Mode) -> Option<bool> {
+        self.register(lock, mode);
+        self.pager().try_poll().ok()
+    }
+
+    /// Registers the [`Pager`] in the [`Lock`] unless it is waiting for another one.
+    fn register(self: &mut Pin<&mut Self>, lock: &Lock, mode: Mode) {
+        // SAFETY: the `Pager` is notified before the `Lock` is dropped.
+        let lock = unsafe { std::mem::transmute::<&Lock, &'static Lock>(lock) };
+        if lock.register_pager(&mut self.pager(), mode, false) {
+            let this = unsafe { self.as_mut().get_unchecked_mut() };
+            this.lock = lock;
+            this.mode = mode;
+        }
+    }
+
+    /// Returns the [`Pager`].
+    #[inline]
+    fn pager<'p>(self: &'p mut Pin<&mut Self>) -> Pin<&'p mut Pager<'static, Lock>> {
+        unsafe {
+            self.as_mut()
+                .map_unchecked_mut(|async_wait| &mut *async_wait.pager)
+        }
     }
 }
 
@@ -94,24 +129,56 @@ impl Default for AsyncWait {
     #[inline]
     fn default() -> Self {
         Self {
-            pager: unsafe {
-                std::mem::transmute::<Pager<'_, Lock>, Pager<'static, Lock>>(Pager::default())
-            },
+            pager: ManuallyDrop::new(Pager::default()),
+            lock: ptr::null(),
+            mode: Mode::WaitExclusive,
+        }
+    }
+}
+
+impl Drop for AsyncWait {
+    #[inline]
+    fn drop(&mut self) {
+        // SAFETY: `self` was pinned before the `Pager` was registered.
+        let mut pager = unsafe { Pin::new_unchecked(&mut *self.pager) };
+
+        // The wait queue of a poisoned `Lock` cannot be accessed, and the `Lock` may have been
+        // dropped if the result is already available, therefore try to acknowledge the result first.
+        let _guard = pager.is_registered().then(Guard::new);
+        while pager.is_registered() {
+            match (pager.try_poll(), self.mode) {
+                (Ok(true), Mode::Exclusive) => {
+                    // SAFETY: a locked `Lock` cannot be dropped.
+                    unsafe { (*self.lock).release_lock() };
+                }
+                (Ok(true), Mode::Shared) => {
+                    // SAFETY: a locked `Lock` cannot be dropped.
+                    unsafe { (*self.lock).release_share() };
+                }
+                (Ok(_), _) => (),
+                (Err(_), _) => {
+                    // SAFETY: the `Lock` cannot be dropped before the result is available, and the
+                    // `Guard` keeps it alive afterwards.
+                    if unsafe { !(*self.lock).is_poisoned(Acquire) } {
+                        break;
+                    }
+                    spin_loop();
+                }
+            }
         }
+
+        unsafe { ManuallyDrop::drop(&mut self.pager) };
     }
 }
 
+// SAFETY: `AsyncWait` is a pinned `Pager` and a pointer to the `Lock` it refers to.
+unsafe impl Send for AsyncWait {}
+unsafe impl Sync for AsyncWait {}
+
 impl TryWait for Pin<&mut AsyncWait> {
     #[inline]
     fn try_wait(&mut self, lock: &Lock) {
-        let this = unsafe { ptr::read(self) };
-        let mut pinned_pager = unsafe {
-            let pager_ref = std::mem::transmute::<&mut Pager<'static, Lock>, &mut Pager<Lock>>(
-                &mut this.get_unchecked_mut().pager,
-            );
-            Pin::new_unchecked(pager_ref)
-        };
-        lock.register_pager(&mut pinned_pager, Mode::WaitExclusive, false);
+        self.register(lock, Mode::WaitExclusive);
     }
 }
 
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 84cd76a..8f1e612 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -2,15 +2,17 @@ use std::cell::UnsafeCell;
 use std::fmt::{self, Debug};
 use std::mem::{MaybeUninit, forget, needs_drop};
 use std::ops::{Deref, Index};
+use std::pin::pin;
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize, fence};
 
 use saa::Lock;
+use saa::lock::Mode;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
 use crate::Equivalent;
-use crate::async_helper::AsyncGuard;
+use crate::async_helper::{AsyncGuard, AsyncWait};
 
 /// [`Bucket`] is a lock-protected fixed-size entry array.
 ///
@@ -795,7 +797,16 @@ impl<K, V, L: LruList, const TYPE: char> Writer<K, V, L, TYPE> {
         bucket: &'g Bucket<K, V, L, TYPE>,
         async_guard: &'g AsyncGuard,
     ) -> Option<Writer<K, V, L, TYPE>> {
-        if bucket.rw_lock.lock_async_with(|| async_guard.reset()).await {
+        if bucket.rw_lock.try_lock() || {
+            let mut async_wait = pin!(AsyncWait::default());
+            match async_wait.try_acquire(&bucket.rw_lock, Mode::Exclusive) {
+                Some(locked) => locked,
+                None => {
+                    async_guard.reset();
+                    async_wait.wait().await
+                }
+            }
+        } {
             // The `bucket` was not killed, and will not be killed until the `Writer` is dropped.
             // This guarantees that the `BucketArray` will survive as long as the `Writer` is alive.
             Some(Self::from_bucket(bucket))
@@ -900,11 +911,16 @@ impl<'g, K, V, L: LruList, const TYPE: char> Reader<K, V, L, TYPE> {
         bucket: &'g Bucket<K, V, L, TYPE>,
         async_guard: &AsyncGuard,
     ) -> Option<Reader<K, V, L, TYPE>> {
-        if bucket
-            .rw_lock
-            .share_async_with(|| async_guard.reset())
-            .await
-        {
+        if bucket.rw_lock.try_share() || {
+            let mut async_wait = pin!(AsyncWait::default());
+            match async_wait.try_acquire(&bucket.rw_lock, Mode::Shared) {
+                Some(shared) => shared,
+                None => {
+                    async_guard.reset();
+                    async_wait.wait().await
+                }
+            }
+        } {
             // The `bucket` was not killed, and will not be killed until the `Reader` is dropped.
             // This guarantees that the `BucketArray` will survive as long as the `Reader` is alive.
             Some(Reader {
-- 
2.43.0


From 8665c9033df402544ceb86587648f7b0e9690bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:48 +0000
Subject: [PATCH 09/23] fix: asynchronous iteration does not touch a bucket
 array that may be gone

The inner loop is left when the bucket array was replaced while the task was
suspended: it may have been freed by then.
---
 src/hash_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index 288027e..8b66482 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -561,7 +561,7 @@ where
                 start_index += 1;
             }
 
-            if start_index == current_array.len() {
+            if start_index == prev_len {
                 break;
             }
         }
-- 
2.43.0


From 563577a3d5a9ab0038722671a970a4c6e6c1781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 10/23] fix: TreeIndex rolls back a leaf split completely when
 user code panics

Dropping the retired leaf was not undone once the new leaves were pushed into the
linked list, thereby leaving duplicate entries visible to iterators.
---
 src/tree_index/leaf_node.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index f429fca..f20d6ed 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -818,10 +818,15 @@ where
         let target = full_leaf_ptr.as_ref().unwrap();
 
         // Distribute entries to two leaves after make the target retired.
-        let exit_guard = ExitGuard::new((), |()| {
-            target.thaw();
-            self.split_op.reset();
-            self.lock.release_lock();
+        let mut exit_guard = ExitGuard::new(false, |linked| {
+            if linked {
+                // The new leaves are reachable through the linked list.
+                self.rollback(guard);
+            } else {
+                target.thaw();
+                self.split_op.reset();
+                self.lock.release_lock();
+            }
         });
 
         vpoint!(56);
@@ -844,6 +849,7 @@ where
         let high_key_leaf_ptr = self.split_op.high_key_leaf.load(Relaxed, guard);
         let unused_leaf = if let Some(high_key_leaf) = high_key_leaf_ptr.as_ref() {
             // From here, `Scanners` can reach the new leaves.
+            *exit_guard = true;
             let result = target.push_back(
                 high_key_leaf_ptr.get_shared().unwrap(),
                 true,
-- 
2.43.0


From 96bc2b7f4415d9990d65a3eb8ce424c2d51da114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 11/23] fix: TreeIndex does not compare keys when removing a
 child of a node

A panic in the comparison left a deleted child behind in the node.
---
 src/tree_index/internal_node.rs | 12 +++++-------
 src/tree_index/leaf.rs          | 28 ++++++++++++++++++++++++++++
 src/tree_index/leaf_node.rs     |  5 ++---
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 4b864ca..8c0d964 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -470,13 +470,13 @@ where
                     // There can be another thread inserting keys into the node, and this may
                     // render those concurrent operations completely ineffective.
                     vpoint!(94);
-                    self.children.remove_if(key, &mut |_| true);
+                    self.children.remove_key_ref(key);
                     node.swap((None, Tag::None), AcqRel);
                 }
                 RemoveRangeState::MaybeAbove => {
                     if valid_upper_min_node.is_some() {
                         // `valid_upper_min_node` is not in this sub-tree.
-                        self.children.remove_if(key, &mut |_| true);
+                        self.children.remove_key_ref(key);
                         node.swap((None, Tag::None), AcqRel);
                     } else {
                         num_children += 1;
@@ -524,7 +524,7 @@ where
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
             if let Some((Some(key), lower_node)) = lower_border {
-                self.children.remove_if(key, &mut |_| true);
+                self.children.remove_key_ref(key);
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
                 vpoint!(95);
@@ -959,8 +959,7 @@ where
                 let node_ref = node_ptr.as_ref().unwrap();
                 if node_ref.retired() {
                     vpoint!(89);
-                    let result = self.children.remove_if(key, &mut |_| true);
-                    debug_assert_ne!(result, RemoveResult::Fail);
+                    self.children.remove_key_ref(key);
 
                     // Once the key is removed, it is safe to deallocate the node as the validation
                     // loop ensures the absence of readers.
@@ -992,8 +991,7 @@ where
                             node_deleted = true;
                         }
                         vpoint!(91);
-                        let result = self.children.remove_if(key, &mut |_| true);
-                        debug_assert_ne!(result, RemoveResult::Fail);
+                        self.children.remove_key_ref(key);
                         if let Some(node) = max_key_child.swap((None, Tag::None), Release).0 {
                             let _: bool = node.release();
                             node_deleted = true;
diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 40c382a..dacb653 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -4,6 +4,7 @@ use std::fmt::{self, Debug};
 use std::mem::{MaybeUninit, needs_drop};
 use std::ops::Bound::{Excluded, Included, Unbounded};
 use std::ops::RangeBounds;
+use std::ptr;
 #[cfg(not(feature = "loom"))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
@@ -479,6 +480,33 @@ where
         RemoveResult::Fail
     }
 
+    /// Removes the entry that the specified key reference belongs to without comparing keys.
+    ///
+    /// The reference must have been obtained from this [`Leaf`], and no other threads are allowed
+    /// to modify the [`Leaf`]. In contrast to [`Leaf::remove_if`], it does not run any user code.
+    #[inline]
+    pub(super) fn remove_key_ref(&self, key: &K) {
+        let _: Result<usize, usize> = self.metadata.fetch_update(AcqRel, Acquire, |metadata| {
+            let mut new_metadata = None;
+            let mut empty = true;
+            for i in 0..DIMENSION.num_entries {
+                let rank = DIMENSION.rank(metadata, i);
+                if rank != Dimension::uninit_rank() && rank != DIMENSION.removed_rank() {
+                    if new_metadata.is_none() && ptr::eq(self.key_at(i), key) {
+                        new_metadata.replace(metadata | DIMENSION.rank_mask(i));
+                    } else {
+                        empty = false;
+                    }
+                }
+            }
+            if empty {
+                new_metadata.map(Dimension::retire)
+            } else {
+                new_metadata
+            }
+        });
+    }
+
     /// Removes a range of entries.
     ///
     /// Returns the number of remaining entries.
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index f20d6ed..7e904ab 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -474,7 +474,7 @@ where
                     // There can be another thread inserting keys into the leaf, and this may
                     // render those operations completely ineffective.
                     vpoint!(68);
-                    self.children.remove_if(key, &mut |_| true);
+                    self.children.remove_key_ref(key);
                     if let Some(leaf) = leaf.swap((None, Tag::None), AcqRel).0 {
                         leaf.delete_self(Release);
                     }
@@ -954,8 +954,7 @@ where
                     let deleted = leaf.delete_self(Release);
                     debug_assert!(deleted);
                     vpoint!(64);
-                    let result = self.children.remove_if(entry.0, &mut |_| true);
-                    debug_assert_ne!(result, RemoveResult::Fail);
+                    self.children.remove_key_ref(entry.0);
 
                     vpoint!(65);
                     // The pointer is nullified after the metadata of `self.children` is updated so
-- 
2.43.0


From 2babe89ddbc0d1b0938b4ccab8ea0b51f0c2cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 12/23] fix: lock-free HashIndex readers do not race on partial
 hash values

Non-atomic reads of partial_hash_array raced with writers that insert, update or
remove entries in the same bucket.
---
 src/hash_table/bucket.rs | 89 ++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 26 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 8f1e612..84e7459 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -5,7 +5,7 @@ use std::ops::{Deref, Index};
 use std::pin::pin;
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize, fence};
+use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, fence};
 
 use saa::Lock;
 use saa::lock::Mode;
@@ -101,9 +101,15 @@ struct Metadata<K, V, const LEN: usize> {
     removed_bitmap: AtomicU32,
     /// Partial hash array for fast hash lookup, or the epoch when the corresponding entry was
     /// removed if `TYPE = INDEX`.
-    partial_hash_array: [UnsafeCell<u8>; LEN],
+    partial_hash_array: PartialHashArray,
 }
 
+/// Array of partial hash values packed into words.
+///
+/// Lock-free readers may read it while the writer, of which there is at most one, changes it.
+#[derive(Default)]
+struct PartialHashArray([AtomicU64; BUCKET_LEN / 8]);
+
 /// The size of the linked data block.
 const LINKED_BUCKET_LEN: usize = BUCKET_LEN / 4;
 
@@ -118,6 +124,42 @@ struct LinkedBucket<K, V> {
     prev_link: AtomicPtr<LinkedBucket<K, V>>,
 }
 
+impl PartialHashArray {
+    /// Returns the value of the slot.
+    #[inline]
+    fn get(&self, index: usize) -> u8 {
+        self.0[index / 8].load(Relaxed).to_le_bytes()[index % 8]
+    }
+
+    /// Sets the value of the slot.
+    ///
+    /// The associated [`Bucket`] must be locked, or not shared with others.
+    #[inline]
+    fn set(&self, index: usize, value: u8) {
+        let word = &self.0[index / 8];
+        let mut bytes = word.load(Relaxed).to_le_bytes();
+        bytes[index % 8] = value;
+        word.store(u64::from_le_bytes(bytes), Relaxed);
+    }
+
+    /// Returns a bitmap of the slots in `0..LEN` that have the value.
+    #[inline]
+    fn matches<const LEN: usize>(&self, value: u8) -> u32 {
+        const LOW_BITS: u64 = u64::from_le_bytes([0x7f; 8]);
+        const LSB: u64 = u64::from_le_bytes([1; 8]);
+        let mut bitmap = 0;
+        for i in 0..LEN / 8 {
+            // The most significant bit of a byte in `matched` is `1` only if the byte has the value.
+            let diff = self.0[i].load(Relaxed) ^ (LSB * u64::from(value));
+            let matched = !(((diff & LOW_BITS) + LOW_BITS) | diff | LOW_BITS);
+            // Gather the eight bits.
+            let bits = (matched >> 7).wrapping_mul(0x0102_0408_1020_4080) >> 56;
+            bitmap |= (bits as u32) << (i * 8);
+        }
+        bitmap
+    }
+}
+
 impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     /// Creates a new [`Bucket`].
     #[cfg(any(test, feature = "loom"))]
@@ -129,7 +171,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 link: AtomicShared::default(),
                 occupied_bitmap: AtomicU32::default(),
                 removed_bitmap: AtomicU32::default(),
-                partial_hash_array: Default::default(),
+                partial_hash_array: PartialHashArray::default(),
             },
             lru_list: L::default(),
         }
@@ -229,9 +271,9 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.len.store(self.len.load(Relaxed) - 1, Relaxed);
 
         if let Some(link) = link_ref(entry_ptr.link_ptr) {
-            self.write_cell(&link.metadata.partial_hash_array[entry_ptr.index], |h| {
-                *h = u8::from(guard.epoch());
-            });
+            link.metadata
+                .partial_hash_array
+                .set(entry_ptr.index, u8::from(guard.epoch()));
 
             vpoint!(20);
             let mut removed_bitmap = link.metadata.removed_bitmap.load(Relaxed);
@@ -240,9 +282,9 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             removed_bitmap |= 1_u32 << entry_ptr.index;
             link.metadata.removed_bitmap.store(removed_bitmap, Release);
         } else {
-            self.write_cell(&self.metadata.partial_hash_array[entry_ptr.index], |h| {
-                *h = u8::from(guard.epoch());
-            });
+            self.metadata
+                .partial_hash_array
+                .set(entry_ptr.index, u8::from(guard.epoch()));
 
             vpoint!(21);
             let mut removed_bitmap = self.metadata.removed_bitmap.load(Relaxed);
@@ -426,9 +468,9 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.write_cell(&link.data_block[0], |block| unsafe {
             block.as_mut_ptr().write(entry);
         });
-        self.write_cell(&link.metadata.partial_hash_array[0], |h| {
-            *h = Self::partial_hash(hash);
-        });
+        link.metadata
+            .partial_hash_array
+            .set(0, Self::partial_hash(hash));
         vpoint!(26);
         link.metadata.occupied_bitmap.store(1, Relaxed);
         if let Some(head) = link_ref(link.metadata.load_link()) {
@@ -459,9 +501,9 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.write_cell(&data_block[index], |block| unsafe {
             block.as_mut_ptr().write(entry);
         });
-        self.write_cell(&metadata.partial_hash_array[index], |h| {
-            *h = Self::partial_hash(hash);
-        });
+        metadata
+            .partial_hash_array
+            .set(index, Self::partial_hash(hash));
         metadata.occupied_bitmap.store(
             occupied_bitmap | (1_u32 << index),
             if TYPE == INDEX { Release } else { Relaxed },
@@ -516,7 +558,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
 
         let current_epoch = guard.epoch();
         for i in 0..LEN {
-            if Epoch::try_from(*Self::read_cell(&metadata.partial_hash_array[i]))
+            if Epoch::try_from(metadata.partial_hash_array.get(i))
                 .is_ok_and(|e| e.in_same_generation(current_epoch))
             {
                 dropped_bitmap &= !(1_u32 << i);
@@ -751,12 +793,7 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         };
 
         vpoint!(29);
-        // Expect that the loop is vectorized by the compiler.
-        for i in 0..LEN {
-            if *Self::read_cell(&metadata.partial_hash_array[i]) != Self::partial_hash(hash) {
-                bitmap &= !(1_u32 << i);
-            }
-        }
+        bitmap &= metadata.partial_hash_array.matches::<LEN>(Self::partial_hash(hash));
 
         let mut offset = bitmap.trailing_zeros();
         while offset != u32::BITS {
@@ -988,11 +1025,11 @@ impl<K, V, const TYPE: char> EntryPtr<K, V, TYPE> {
     ///
     /// The [`EntryPtr`] must point to a valid entry.
     #[inline]
-    pub(crate) const fn partial_hash<L: LruList>(&self, bucket: &Bucket<K, V, L, TYPE>) -> u8 {
+    pub(crate) fn partial_hash<L: LruList>(&self, bucket: &Bucket<K, V, L, TYPE>) -> u8 {
         if let Some(link) = link_ref(self.link_ptr) {
-            *Bucket::<K, V, L, TYPE>::read_cell(&link.metadata.partial_hash_array[self.index])
+            link.metadata.partial_hash_array.get(self.index)
         } else {
-            *Bucket::<K, V, L, TYPE>::read_cell(&bucket.metadata.partial_hash_array[self.index])
+            bucket.metadata.partial_hash_array.get(self.index)
         }
     }
 
@@ -1304,7 +1341,7 @@ impl<K, V> LinkedBucket<K, V> {
                 link: AtomicShared::default(),
                 occupied_bitmap: AtomicU32::default(),
                 removed_bitmap: AtomicU32::default(),
-                partial_hash_array: Default::default(),
+                partial_hash_array: PartialHashArray::default(),
             },
             data_block: unsafe {
                 #[allow(clippy::uninit_assumed_init)]
-- 
2.43.0


From 2b5781a436192e6ed63470daf4ec46125deaad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 13/23] fix: HashIndex does not create mutable references to
 entries that readers may hold

---
 src/hash_index.rs        | 16 ++++++++--------
 src/hash_table.rs        |  2 +-
 src/hash_table/bucket.rs |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 5905e18..3c0f834 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -627,11 +627,11 @@ where
     {
         self.reclaim_memory();
         let hash = self.hash(key);
-        let Some(mut locked_bucket) = self.optional_writer_async(hash).await else {
+        let Some(locked_bucket) = self.optional_writer_async(hash).await else {
             return false;
         };
         let mut entry_ptr = locked_bucket.search(key, hash);
-        if entry_ptr.is_valid() && condition(&mut locked_bucket.entry_mut(&mut entry_ptr).1) {
+        if entry_ptr.is_valid() && condition(&locked_bucket.entry(&entry_ptr).1) {
             locked_bucket.mark_removed(self, &mut entry_ptr);
             true
         } else {
@@ -664,11 +664,11 @@ where
     {
         self.reclaim_memory();
         let hash = self.hash(key);
-        let Some(mut locked_bucket) = self.optional_writer_sync(hash) else {
+        let Some(locked_bucket) = self.optional_writer_sync(hash) else {
             return false;
         };
         let mut entry_ptr = locked_bucket.search(key, hash);
-        if entry_ptr.is_valid() && condition(&mut locked_bucket.entry_mut(&mut entry_ptr).1) {
+        if entry_ptr.is_valid() && condition(&locked_bucket.entry(&entry_ptr).1) {
             locked_bucket.mark_removed(self, &mut entry_ptr);
             true
         } else {
@@ -948,10 +948,10 @@ where
     #[inline]
     pub async fn retain_async<F: FnMut(&K, &V) -> bool>(&self, mut pred: F) {
         self.reclaim_memory();
-        self.for_each_writer_async(0, 0, |mut locked_bucket, removed| {
+        self.for_each_writer_async(0, 0, |locked_bucket, removed| {
             let mut entry_ptr = EntryPtr::null();
             while entry_ptr.move_to_next(&locked_bucket.writer) {
-                let (k, v) = locked_bucket.entry_mut(&mut entry_ptr);
+                let (k, v) = locked_bucket.entry(&entry_ptr);
                 if !pred(k, v) {
                     locked_bucket
                         .writer
@@ -991,10 +991,10 @@ where
     pub fn retain_sync<F: FnMut(&K, &V) -> bool>(&self, mut pred: F) {
         self.reclaim_memory();
         let guard = Guard::new();
-        self.for_each_writer_sync(0, 0, &guard, |mut locked_bucket, removed| {
+        self.for_each_writer_sync(0, 0, &guard, |locked_bucket, removed| {
             let mut entry_ptr = EntryPtr::null();
             while entry_ptr.move_to_next(&locked_bucket.writer) {
-                let (k, v) = locked_bucket.entry_mut(&mut entry_ptr);
+                let (k, v) = locked_bucket.entry(&entry_ptr);
                 if !pred(k, v) {
                     locked_bucket.writer.mark_removed(&mut entry_ptr, &guard);
                     *removed = true;
diff --git a/src/hash_table.rs b/src/hash_table.rs
index 8b66482..cf7c300 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -1030,7 +1030,7 @@ where
             let (offset, hash) = if old_array.len() >= current_array.len() {
                 (0, u64::from(entry_ptr.partial_hash(&**old_writer)))
             } else {
-                let hash = self.hash(&entry_ptr.get_mut(old_data_block, old_writer).0);
+                let hash = self.hash(&entry_ptr.get(old_data_block).0);
                 let new_index = current_array.bucket_index(hash);
                 debug_assert!(new_index - target_index < (current_array.len() / old_array.len()));
                 (new_index - target_index, hash)
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 84e7459..a083030 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -643,7 +643,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         data_block: &DataBlock<K, V, LEN>,
         index: usize,
     ) -> *mut (K, V) {
-        unsafe { (*data_block.0[index].get()).as_mut_ptr() }
+        data_block.0[index].get().cast::<(K, V)>()
     }
 
     /// Reads the cell.
-- 
2.43.0


From 53e20bd72a8a3cbb3ae87242569b027fb9e2bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 14/23] fix: HashIndex relocates entries without moving them as
 owned values

A relocation moved a key-value pair while lock-free readers could hold references
to it, which is undefined behavior if the pair contains a Box.
---
 src/hash_table/bucket.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index a083030..42e4d11 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -190,6 +190,17 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         data_block: NonNull<DataBlock<K, V, BUCKET_LEN>>,
         hash: u64,
         entry: (K, V),
+    ) -> EntryPtr<K, V, TYPE> {
+        self.insert_data::<(K, V)>(data_block, hash, entry)
+    }
+
+    /// Inserts the data of a key-value pair where `D` is either `(K, V)` or `MaybeUninit<(K, V)>`.
+    #[inline]
+    fn insert_data<D>(
+        &self,
+        data_block: NonNull<DataBlock<K, V, BUCKET_LEN>>,
+        hash: u64,
+        entry: D,
     ) -> EntryPtr<K, V, TYPE> {
         let occupied_bitmap = self.metadata.occupied_bitmap.load(Relaxed);
         let occupied_bitmap = if TYPE == INDEX
@@ -384,12 +395,14 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     ) {
         debug_assert!(self.rw_lock.is_locked(Relaxed));
 
+        // If `TYPE = INDEX`, there can be references to the entry: do not move it as `(K, V)` that
+        // may contain uniquely owned data.
         let entry = if let Some(link) = link_ref(from_entry_ptr.link_ptr) {
-            Self::read_data_block(&link.data_block, from_entry_ptr.index)
+            link.data_block[from_entry_ptr.index].get()
         } else {
-            Self::read_data_block(data_block_ref(from_data_block), from_entry_ptr.index)
+            data_block_ref(from_data_block)[from_entry_ptr.index].get()
         };
-        self.insert(data_block, hash, entry);
+        self.insert_data(data_block, hash, unsafe { entry.read() });
 
         vpoint!(22);
         let mo = if TYPE == INDEX { Release } else { Relaxed };
@@ -438,7 +451,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     }
 
     /// Inserts an entry into an overflow bucket.
-    fn insert_overflow(&self, hash: u64, entry: (K, V)) -> EntryPtr<K, V, TYPE> {
+    fn insert_overflow<D>(&self, hash: u64, entry: D) -> EntryPtr<K, V, TYPE> {
         let mut link_ptr = self.metadata.load_link();
         while let Some(link) = link_ref(link_ptr) {
             let occupied_bitmap = link.metadata.occupied_bitmap.load(Relaxed);
@@ -466,7 +479,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         let head = self.metadata.link.get_shared(Relaxed, fake_ref(self));
         let link = unsafe { Shared::new_unchecked(LinkedBucket::new(head)) };
         self.write_cell(&link.data_block[0], |block| unsafe {
-            block.as_mut_ptr().write(entry);
+            block.as_mut_ptr().cast::<D>().write(entry);
         });
         link.metadata
             .partial_hash_array
@@ -486,20 +499,21 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
 
     /// Inserts a key-value pair in the slot.
     #[inline]
-    fn insert_entry<const LEN: usize>(
+    fn insert_entry<D, const LEN: usize>(
         &self,
         metadata: &Metadata<K, V, LEN>,
         data_block: &DataBlock<K, V, LEN>,
         index: usize,
         occupied_bitmap: u32,
         hash: u64,
-        entry: (K, V),
+        entry: D,
     ) {
         debug_assert!(index < LEN);
+        debug_assert_eq!(size_of::<D>(), size_of::<(K, V)>());
         debug_assert_eq!(metadata.occupied_bitmap.load(Relaxed) & (1_u32 << index), 0);
 
         self.write_cell(&data_block[index], |block| unsafe {
-            block.as_mut_ptr().write(entry);
+            block.as_mut_ptr().cast::<D>().write(entry);
         });
         metadata
             .partial_hash_array
-- 
2.43.0


From ac6e9c8105116f23bc222e6c5a6ff0a26423e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 15/23] fix: lock-free HashIndex reads do not miss an entry
 relocated by a resize

A reader that saw zero as the length of an old bucket was not synchronized with the
relocation, and it could therefore read a stale state of the new bucket.
---
 src/hash_table/bucket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 42e4d11..5e264e8 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -425,7 +425,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
 
         vpoint!(23);
         let from_len = from_writer.len.load(Relaxed);
-        from_writer.len.store(from_len - 1, Relaxed);
+        from_writer.len.store(from_len - 1, mo);
     }
 
     /// Drops entries in the [`DataBlock`] when the bucket array is being dropped.
@@ -691,7 +691,8 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         // If `TYPE = INDEX`, lock-free readers may overlook an entry that is being updated, because
         // an update moves the entry to another slot; look again if any slot has changed meanwhile.
         let mut slot_state = if TYPE == INDEX { self.slot_state() } else { 0 };
-        while self.len() != 0 {
+        // Load ordering: `len` of the old bucket -> `acquire` -> the state of the new bucket.
+        while self.len.load(if TYPE == INDEX { Acquire } else { Relaxed }) != 0 {
             if let Some((entry, _)) =
                 Self::search_data_block(&self.metadata, data_block_ref(data_block), key, hash)
             {
-- 
2.43.0


From 3e33e648da00dc179e5f3ccfe546258e7901c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 16/23] fix: TreeIndex::remove_range retires a sub-tree before
 making it unreachable

Sub-trees fully contained in the range were unlinked with their leaves still in
the linked list, and were only bypassed at the very end. If a lock on the border
could not be acquired, the future was dropped, or a comparison panicked before
that, the leaves stayed in the list for good: iterators visited entries that were
no longer in the tree. Leaves are now marked deleted under the locks of their
nodes before the sub-tree is unlinked.
---
 src/tree_index/internal_node.rs | 37 +++++++++++++++++++++++++++++++++
 src/tree_index/leaf_node.rs     | 25 ++++++++++++++++++++++
 src/tree_index/node.rs          | 13 ++++++++++++
 3 files changed, 75 insertions(+)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 8c0d964..02a2e33 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -425,6 +425,34 @@ where
         }
     }
 
+    /// Retires all the nodes and leaves in the sub-tree.
+    ///
+    /// The leaves are logically deleted from the linked list before they become unreachable, and
+    /// therefore the tree is left consistent even if the sub-tree is only partially retired.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if a retry is required.
+    pub(super) fn retire<W: TryWait>(&self, async_wait: &mut W, guard: &Guard) -> Result<(), ()> {
+        let Some(_lock) = Locker::try_lock(self) else {
+            async_wait.try_wait(&self.lock);
+            return Err(());
+        };
+
+        for (key, node) in Scanner::new(&self.children) {
+            if let Some(node) = node.load(Acquire, guard).as_ref() {
+                node.retire(async_wait, guard)?;
+            }
+            self.children.remove_key_ref(key);
+            node.swap((None, Tag::None), AcqRel);
+        }
+        if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
+            unbounded.retire(async_wait, guard)?;
+            self.unbounded_child.swap((None, RETIRED), AcqRel);
+        }
+        Ok(())
+    }
+
     /// Removes a range of entries.
     ///
     /// Returns the number of remaining children.
@@ -470,12 +498,18 @@ where
                     // There can be another thread inserting keys into the node, and this may
                     // render those concurrent operations completely ineffective.
                     vpoint!(94);
+                    if let Some(node) = node.load(Acquire, guard).as_ref() {
+                        node.retire(async_wait, guard)?;
+                    }
                     self.children.remove_key_ref(key);
                     node.swap((None, Tag::None), AcqRel);
                 }
                 RemoveRangeState::MaybeAbove => {
                     if valid_upper_min_node.is_some() {
                         // `valid_upper_min_node` is not in this sub-tree.
+                        if let Some(node) = node.load(Acquire, guard).as_ref() {
+                            node.retire(async_wait, guard)?;
+                        }
                         self.children.remove_key_ref(key);
                         node.swap((None, Tag::None), AcqRel);
                     } else {
@@ -524,6 +558,9 @@ where
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
             if let Some((Some(key), lower_node)) = lower_border {
+                if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
+                    unbounded.retire(async_wait, guard)?;
+                }
                 self.children.remove_key_ref(key);
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 7e904ab..908ca52 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -430,6 +430,31 @@ where
         }
     }
 
+    /// Retires all the leaves in the [`LeafNode`].
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if a retry is required.
+    pub(super) fn retire<W: TryWait>(&self, async_wait: &mut W, guard: &Guard) -> Result<(), ()> {
+        let Some(_lock) = Locker::try_lock(self) else {
+            async_wait.try_wait(&self.lock);
+            return Err(());
+        };
+
+        for (key, leaf) in Scanner::new(&self.children) {
+            if let Some(leaf) = leaf.load(Acquire, guard).as_ref() {
+                leaf.delete_self(Release);
+            }
+            self.children.remove_key_ref(key);
+            leaf.swap((None, Tag::None), AcqRel);
+        }
+        if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
+            unbounded.delete_self(Release);
+        }
+        self.unbounded_child.swap((None, RETIRED), AcqRel);
+        Ok(())
+    }
+
     /// Removes a range of entries.
     ///
     /// Returns the number of remaining children.
diff --git a/src/tree_index/node.rs b/src/tree_index/node.rs
index 09afd39..4d267fb 100644
--- a/src/tree_index/node.rs
+++ b/src/tree_index/node.rs
@@ -156,6 +156,19 @@ where
         }
     }
 
+    /// Retires all the nodes and leaves in the sub-tree.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if a retry is required.
+    #[inline]
+    pub(super) fn retire<W: TryWait>(&self, async_wait: &mut W, guard: &Guard) -> Result<(), ()> {
+        match &self {
+            Self::Internal(internal_node) => internal_node.retire(async_wait, guard),
+            Self::Leaf(leaf_node) => leaf_node.retire(async_wait, guard),
+        }
+    }
+
     /// Removes a range of entries.
     ///
     /// Returns the number of remaining children.
-- 
2.43.0


From 85a2b67cb7975f2a2dbdedef0f2fb8f29a954bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 17/23] fix: TreeIndex::remove_range does not hide keys below
 the range while it runs

The separator was removed before the unbounded child was replaced, so keys below
the range were searched for, and inserted into, the unbounded child about to be
dropped.
---
 src/tree_index/internal_node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 02a2e33..d947ae4 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -561,10 +561,12 @@ where
                 if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
                     unbounded.retire(async_wait, guard)?;
                 }
-                self.children.remove_key_ref(key);
+                // The unbounded child has to be replaced first, otherwise keys below the range may
+                // be searched for in the unbounded child being removed.
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
                 vpoint!(95);
+                self.children.remove_key_ref(key);
                 lower_node.swap((None, Tag::None), Release);
             }
             if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
-- 
2.43.0


From fc07984d70e27b6f720779590b0bcc2918a8db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 18/23] fix: TreeIndex::remove_range copes with empty sub-trees
 on the border of the range

An empty sub-tree on the lower border ended the removal there, leaving entries of
the range in the upper border; an empty leaf node on the upper border cut the
linked list, so iterators missed everything above.
---
 src/tree_index/internal_node.rs |  3 +++
 src/tree_index/leaf_node.rs     | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index d947ae4..cc55587 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -578,6 +578,9 @@ where
                     async_wait,
                     guard,
                 )?;
+            } else {
+                // This sub-tree is empty: there is no leaf to connect to `upper_node`.
+                upper_node.remove_range(range, true, None, None, async_wait, guard)?;
             }
         } else {
             let lower_node = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref());
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 908ca52..ca675e2 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -527,13 +527,13 @@ where
             if first_valid_leaf.is_none() {
                 first_valid_leaf.replace(&self.unbounded_child);
             }
-            valid_lower_max_leaf.link_ref().swap(
-                (
-                    first_valid_leaf.and_then(|l| l.get_shared(Acquire, guard)),
-                    Tag::None,
-                ),
-                AcqRel,
-            );
+            if let Some(first_valid_leaf) =
+                first_valid_leaf.and_then(|l| l.get_shared(Acquire, guard))
+            {
+                valid_lower_max_leaf
+                    .link_ref()
+                    .swap((Some(first_valid_leaf), Tag::None), AcqRel);
+            }
         } else if let Some(valid_upper_min_node) = valid_upper_min_node {
             // Connect the unbounded child with the minimum valid leaf in the node.
             valid_upper_min_node.remove_range(
-- 
2.43.0


From cfbafaa7f7a6cba1cd918d73bae588d22db8140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 19/23] fix: withdrawing a waiter cannot race with poisoning
 the lock

The wait queue of a poisoned lock stays flagged as being processed, and
therefore a cancelled waiter that checked that the lock was not poisoned,
and then removed itself from the wait queue span forever if the lock was
poisoned in between.
---
 src/async_helper.rs             | 65 ++++++++++++++++++++++++++++++---
 src/hash_table/bucket.rs        |  4 +-
 src/tree_index/internal_node.rs |  6 +--
 src/tree_index/leaf_node.rs     |  4 +-
 4 files changed, 67 insertions(+), 12 deletions(-)

diff --git a/src/async_helper.rs b/src/async_helper.rs
index 90e7ce1..e010096 100644
--- a/src/async_helper.rs
+++ b/src/async_helper.rs
@@ -4,12 +4,15 @@ use std::hint::spin_loop;
 use std::mem::ManuallyDrop;
 use std::pin::{Pin, pin};
 use std::ptr;
-use std::sync::atomic::Ordering::{self, Acquire};
+use std::sync::atomic::AtomicUsize;
+use std::sync::atomic::Ordering::{self, AcqRel, Acquire, Relaxed, Release};
 
 use saa::lock::Mode;
 use saa::{Lock, Pager};
 use sdd::{AtomicShared, Guard};
 
+use crate::exit_guard::ExitGuard;
+
 /// [`AsyncGuard`] is used when an asynchronous task needs to be suspended without invalidating any
 /// references.
 ///
@@ -30,6 +33,15 @@ pub(crate) struct AsyncWait {
     mode: Mode,
 }
 
+/// Keeps a [`Lock`] from being poisoned while a [`Pager`] is being removed from its wait queue.
+///
+/// The wait queue of a poisoned [`Lock`] stays flagged as being processed, therefore a [`Pager`]
+/// that checks that the [`Lock`] is not poisoned, and then removes itself would wait forever if the
+/// [`Lock`] was poisoned in between. The lower half is the number of [`Pager`] instances being
+/// removed, and the upper half is the number of [`Lock`] instances being poisoned.
+#[repr(align(64))]
+struct Withdrawal(AtomicUsize);
+
 /// [`TryWait`] allows [`AsyncWait`] to be used in synchronous methods.
 pub(crate) trait TryWait {
     /// Registers the [`Pager`] in the [`Lock`], or synchronously waits for the [`Lock`] to be
@@ -125,6 +137,44 @@ impl AsyncWait {
     }
 }
 
+impl Withdrawal {
+    /// One [`Lock`] is being poisoned.
+    const POISONING: usize = 1 << (usize::BITS / 2);
+
+    /// Returns the [`Withdrawal`] responsible for the [`Lock`].
+    #[inline]
+    fn of(lock: *const Lock) -> &'static Withdrawal {
+        static INSTANCES: [Withdrawal; 64] = [const { Withdrawal(AtomicUsize::new(0)) }; 64];
+        &INSTANCES[(lock.addr() >> 7) % INSTANCES.len()]
+    }
+
+    /// Keeps the [`Lock`] from being poisoned until the returned value is dropped.
+    ///
+    /// Returns `None` if a [`Lock`] is being poisoned.
+    fn try_begin(&self) -> Option<impl Drop> {
+        let state = self.0.fetch_add(1, Acquire);
+        let exit_guard = ExitGuard::new((), |()| {
+            self.0.fetch_sub(1, Release);
+        });
+        (state < Self::POISONING).then_some(exit_guard)
+    }
+}
+
+/// Poisons the [`Lock`].
+#[inline]
+pub(crate) fn poison_lock(lock: &Lock) -> bool {
+    let withdrawal = Withdrawal::of(lock);
+    let mut state = withdrawal.0.fetch_add(Withdrawal::POISONING, AcqRel);
+    let _exit_guard = ExitGuard::new((), |()| {
+        withdrawal.0.fetch_sub(Withdrawal::POISONING, Release);
+    });
+    while state % Withdrawal::POISONING != 0 {
+        spin_loop();
+        state = withdrawal.0.load(Acquire);
+    }
+    lock.poison_lock()
+}
+
 impl Default for AsyncWait {
     #[inline]
     fn default() -> Self {
@@ -157,16 +207,21 @@ impl Drop for AsyncWait {
                 }
                 (Ok(_), _) => (),
                 (Err(_), _) => {
-                    // SAFETY: the `Lock` cannot be dropped before the result is available, and the
-                    // `Guard` keeps it alive afterwards.
-                    if unsafe { !(*self.lock).is_poisoned(Acquire) } {
-                        break;
+                    if let Some(_withdrawal) = Withdrawal::of(self.lock).try_begin() {
+                        // SAFETY: the `Lock` cannot be dropped before the result is available, and
+                        // the `Guard` keeps it alive afterwards.
+                        if unsafe { !(*self.lock).is_poisoned(Relaxed) } {
+                            // SAFETY: the `Pager` is not used afterwards.
+                            unsafe { ManuallyDrop::drop(&mut self.pager) };
+                            return;
+                        }
                     }
                     spin_loop();
                 }
             }
         }
 
+        // SAFETY: the `Pager` is not used afterwards.
         unsafe { ManuallyDrop::drop(&mut self.pager) };
     }
 }
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 5e264e8..639f228 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -12,7 +12,7 @@ use saa::lock::Mode;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
 use crate::Equivalent;
-use crate::async_helper::{AsyncGuard, AsyncWait};
+use crate::async_helper::{AsyncGuard, AsyncWait, poison_lock};
 
 /// [`Bucket`] is a lock-protected fixed-size entry array.
 ///
@@ -911,7 +911,7 @@ impl<K, V, L: LruList, const TYPE: char> Writer<K, V, L, TYPE> {
         );
 
         vpoint!(31);
-        let poisoned = self.rw_lock.poison_lock();
+        let poisoned = poison_lock(&self.rw_lock);
         debug_assert!(poisoned);
 
         if (TYPE != INDEX || !needs_drop::<(K, V)>()) && !self.metadata.link.is_null(Relaxed) {
diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index cc55587..1be3220 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -13,7 +13,7 @@ use super::leaf_node::RETIRED;
 use super::leaf_node::RemoveRangeState;
 use super::node::Node;
 use crate::Comparable;
-use crate::async_helper::TryWait;
+use crate::async_helper::{TryWait, poison_lock};
 use crate::exit_guard::ExitGuard;
 
 /// Internal node.
@@ -949,7 +949,7 @@ where
 
         vpoint!(88);
         // Prevent further exclusive access to the internal node.
-        self.lock.poison_lock();
+        poison_lock(&self.lock);
         if let Some(origin) = origin {
             origin.commit(guard);
             let _: bool = origin.release();
@@ -1112,7 +1112,7 @@ impl<'n, K, V> Locker<'n, K, V> {
 
     /// Retires the node with the lock released.
     pub(super) fn unlock_retire(self) {
-        self.internal_node.lock.poison_lock();
+        poison_lock(&self.internal_node.lock);
         forget(self);
     }
 }
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index ca675e2..b92e904 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -12,7 +12,7 @@ use super::leaf::{DIMENSION, InsertResult, RemoveResult, Scanner, range_contains
 use super::node::Node;
 use crate::Comparable;
 use crate::LinkedList;
-use crate::async_helper::TryWait;
+use crate::async_helper::{TryWait, poison_lock};
 use crate::exit_guard::ExitGuard;
 
 /// [`Tag::First`] indicates that the corresponding node has retired.
@@ -721,7 +721,7 @@ where
         let origin = self.split_op.reset();
 
         // The leaf node can no longer be locked.
-        self.lock.poison_lock();
+        poison_lock(&self.lock);
         origin.map(Shared::release);
     }
 
-- 
2.43.0


From 8059b9e23b366653d78d3a18c43a1bc84b13ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 20/23] fix: a linked bucket is not dropped while it is
 borrowed by an argument

`EntryPtr::unlink` took a reference to the linked bucket that it drops.
---
 src/hash_table/bucket.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 639f228..7d8df03 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -254,7 +254,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 .store(occupied_bitmap, Relaxed);
             let removed = Self::read_data_block(&link.data_block, entry_ptr.index);
             if occupied_bitmap == 0 && TYPE != INDEX {
-                entry_ptr.unlink(&self.metadata.link, link);
+                entry_ptr.unlink(&self.metadata.link);
             }
             removed
         } else {
@@ -1106,9 +1106,12 @@ impl<K, V, const TYPE: char> EntryPtr<K, V, TYPE> {
     /// Unlinks the [`LinkedBucket`] currently pointed to by this [`EntryPtr`] from the linked list.
     ///
     /// The associated [`Bucket`] must be locked.
-    fn unlink(&mut self, link_head: &AtomicShared<LinkedBucket<K, V>>, link: &LinkedBucket<K, V>) {
+    fn unlink(&mut self, link_head: &AtomicShared<LinkedBucket<K, V>>) {
         debug_assert_ne!(TYPE, INDEX);
 
+        // The linked bucket will be dropped, and therefore it cannot be passed as a reference: a
+        // reference argument has to stay valid until the method returns.
+        let link = unsafe { &*self.link_ptr };
         let prev_link_ptr = link.prev_link.load(Relaxed);
         let next = link.metadata.link.swap((None, Tag::None), Relaxed).0;
         if let Some(next) = next.as_ref() {
-- 
2.43.0


From 697edf0d593e05fe6f85f55843f86545c85c7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 21/23] fix: memory is not allocated for zero-sized entries

Passing a zero-sized layout to the global allocator is undefined behavior.
---
 src/hash_table/bucket_array.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/hash_table/bucket_array.rs b/src/hash_table/bucket_array.rs
index 94e961e..c85f94d 100644
--- a/src/hash_table/bucket_array.rs
+++ b/src/hash_table/bucket_array.rs
@@ -70,9 +70,14 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
                 dealloc(unaligned_bucket_array_ptr.cast::<u8>().as_ptr(), layout);
             });
 
-            let Some(data_blocks) =
+            let data_blocks = if data_block_array_layout.size() == 0 {
+                // Both `K` and `V` are zero-sized.
+                NonNull::dangling()
+            } else if let Some(data_blocks) =
                 NonNull::new(alloc(data_block_array_layout).cast::<DataBlock<K, V, BUCKET_LEN>>())
-            else {
+            {
+                data_blocks
+            } else {
                 panic!("memory allocation failure: {data_block_array_layout:?}");
             };
             alloc_guard.forget();
@@ -226,14 +231,17 @@ impl<K, V, L: LruList, const TYPE: char> Drop for BucketArray<K, V, L, TYPE> {
                     .as_ptr(),
                 Self::bucket_array_layout(self.array_len),
             );
-            dealloc(
-                self.data_blocks.cast::<u8>().as_ptr(),
-                Layout::from_size_align(
-                    size_of::<DataBlock<K, V, BUCKET_LEN>>() * self.array_len,
-                    align_of::<[DataBlock<K, V, BUCKET_LEN>; 0]>(),
-                )
-                .unwrap(),
-            );
+            let data_block_array_layout = Layout::from_size_align(
+                size_of::<DataBlock<K, V, BUCKET_LEN>>() * self.array_len,
+                align_of::<[DataBlock<K, V, BUCKET_LEN>; 0]>(),
+            )
+            .unwrap();
+            if data_block_array_layout.size() != 0 {
+                dealloc(
+                    self.data_blocks.cast::<u8>().as_ptr(),
+                    data_block_array_layout,
+                );
+            }
         }
     }
 }
-- 
2.43.0


From 27f9f4fcbbb4a69d48d7fab3fcfdf0bd6ca93ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 22/23] fix: a hash table too large for the address space is
 never created

The size of the bucket array and that of the data block array could overflow, and
therefore HashCache::with_capacity(1 << 62, 1 << 62) succeeded with memory
blocks smaller than needed, and then entries were written out of bounds.
---
 src/hash_table/bucket_array.rs | 42 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/hash_table/bucket_array.rs b/src/hash_table/bucket_array.rs
index c85f94d..68336a2 100644
--- a/src/hash_table/bucket_array.rs
+++ b/src/hash_table/bucket_array.rs
@@ -1,5 +1,5 @@
 use std::alloc::{Layout, alloc, alloc_zeroed, dealloc};
-use std::mem::{align_of, needs_drop, size_of};
+use std::mem::{align_of, needs_drop};
 use std::panic::UnwindSafe;
 use std::ptr::NonNull;
 use std::sync::atomic::AtomicUsize;
@@ -43,6 +43,7 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
 
         let alignment = align_of::<Bucket<K, V, L, TYPE>>();
         let layout = Self::bucket_array_layout(array_len);
+        let data_block_array_layout = Self::data_block_array_layout(array_len);
 
         unsafe {
             let Some(unaligned_bucket_array_ptr) = NonNull::new(alloc_zeroed(layout)) else {
@@ -59,11 +60,6 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
                 .add(bucket_array_ptr_offset)
                 .cast::<Bucket<K, V, L, TYPE>>();
             let bucket_array_ptr_offset = u16::try_from(bucket_array_ptr_offset).unwrap_or(0);
-            let data_block_array_layout = Layout::from_size_align(
-                size_of::<DataBlock<K, V, BUCKET_LEN>>() * array_len,
-                align_of::<[DataBlock<K, V, BUCKET_LEN>; 0]>(),
-            )
-            .unwrap();
 
             // In case the below data block allocation fails, deallocate the bucket array.
             let alloc_guard = ExitGuard::new((), |()| {
@@ -184,13 +180,31 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
         unsafe { self.linked_array.load(Acquire, guard).as_ref_unchecked() }
     }
 
-    /// Calculates the layout of the memory block for an array of `T`.
+    /// Calculates the layout of the memory block for an array of [`Bucket`].
+    ///
+    /// # Panics
+    ///
+    /// Panics if the size of the memory block overflows.
     #[inline]
-    const fn bucket_array_layout(array_len: usize) -> Layout {
-        let size_of_t = size_of::<Bucket<K, V, L, TYPE>>();
-        let allocation_size = (array_len + 1) * size_of_t;
+    fn bucket_array_layout(array_len: usize) -> Layout {
+        let Ok(layout) = Layout::array::<Bucket<K, V, L, TYPE>>(array_len + 1) else {
+            panic!("memory allocation failure: capacity overflow");
+        };
         // Intentionally misaligned in order to take full advantage of demand paging.
-        unsafe { Layout::from_size_align_unchecked(allocation_size, 1) }
+        unsafe { Layout::from_size_align_unchecked(layout.size(), 1) }
+    }
+
+    /// Calculates the layout of the memory block for an array of [`DataBlock`].
+    ///
+    /// # Panics
+    ///
+    /// Panics if the size of the memory block overflows.
+    #[inline]
+    fn data_block_array_layout(array_len: usize) -> Layout {
+        let Ok(layout) = Layout::array::<DataBlock<K, V, BUCKET_LEN>>(array_len) else {
+            panic!("memory allocation failure: capacity overflow");
+        };
+        layout
     }
 }
 
@@ -231,11 +245,7 @@ impl<K, V, L: LruList, const TYPE: char> Drop for BucketArray<K, V, L, TYPE> {
                     .as_ptr(),
                 Self::bucket_array_layout(self.array_len),
             );
-            let data_block_array_layout = Layout::from_size_align(
-                size_of::<DataBlock<K, V, BUCKET_LEN>>() * self.array_len,
-                align_of::<[DataBlock<K, V, BUCKET_LEN>; 0]>(),
-            )
-            .unwrap();
+            let data_block_array_layout = Self::data_block_array_layout(self.array_len);
             if data_block_array_layout.size() != 0 {
                 dealloc(
                     self.data_blocks.cast::<u8>().as_ptr(),
-- 
2.43.0


From 875d231d4e9f61caa5f82ff0eb6fc2e7616d49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 23/23] fix: a reservation is cancelled if memory cannot be
 allocated for it

The minimum capacity was left increased forever when `reserve` panicked.
---
 src/hash_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cf7c300..945562b 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -105,12 +105,18 @@ where
                 Relaxed,
             ) {
                 Ok(_) => {
+                    // In case memory allocation fails, cancel the reservation.
+                    let cancel_guard = ExitGuard::new((), |()| {
+                        self.minimum_capacity_var()
+                            .fetch_sub(additional_capacity, Relaxed);
+                    });
                     let guard = Guard::new();
                     if let Some(current_array) = self.bucket_array(&guard) {
                         if !current_array.has_linked_array() {
                             self.try_resize(current_array, 0, &guard);
                         }
                     }
+                    cancel_guard.forget();
                     return additional_capacity;
                 }
                 Err(actual) => current_minimum_capacity = actual,
-- 
2.43.0

