From 5f2336b873ba22f2706dae831e86abae27286f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 01/14] verif hooks: node width and invariant assertion behind
 librrb_verif_* cfgs

---
 src/lib.rs   | 12 ++++++++++++
 src/verif.rs |  9 +++++++++
 2 files changed, 21 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 0968e58..f3d27fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,6 +41,9 @@ mod sort;
 pub mod vector;
 pub mod focus;
 
+#[cfg(librrb_verif_tree)]
+pub mod verif;
+
 #[doc(inline)]
 pub use vector::{InternalVector, Iter, IterMut};
 
@@ -51,8 +54,17 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
+#[cfg(not(any(librrb_verif_width4, librrb_verif_width8)))]
 pub const RRB_WIDTH: usize = 64;
 
+/// The reduced node width used by the verification builds.
+#[cfg(all(librrb_verif_width4, not(librrb_verif_width8)))]
+pub const RRB_WIDTH: usize = 4;
+
+/// The reduced node width used by the verification builds.
+#[cfg(librrb_verif_width8)]
+pub const RRB_WIDTH: usize = 8;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..a32d493
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,9 @@
+//! Access to crate-private checks for the verification builds. Compiled only with the
+//! `librrb_verif_tree` cfg.
+use crate::node_traits::InternalTrait;
+use crate::vector::InternalVector;
+
+/// Runs the crate's own invariant assertions. Panics if one of them is broken.
+pub fn assert_invariants<Internal: InternalTrait>(vector: &InternalVector<Internal>) -> bool {
+    vector.assert_invariants()
+}
-- 
2.43.0


From 2399e65993f8480339318b894e88935469f024db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 02/14] fix: honour inclusive end bounds in range searches

---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..e7c4081 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 32fd3815bf4f914b81a9ca32ab7fe179f07f70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 03/14] fix: range search over an empty range reports the
 insertion point

---
 src/vector.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index e7c4081..a2f7ea2 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1592,6 +1592,11 @@ where
             Bound::Unbounded => self.len,
         };
 
+        // There is nothing to find in an empty range
+        if start >= end {
+            return Err(start);
+        }
+
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
-- 
2.43.0


From a190fc5ba21cf2886fc10fb38c7bd5d179d59590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 04/14] fix: keep a narrowed focus inside its parent range

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..dd53e98 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,7 +334,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From c84f3e501f0dd96c4a31b5a83ac51317683eb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 05/14] fix: split a narrowed focus relative to its own start

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index dd53e98..cefc394 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -364,8 +364,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split_point = self.range.start + idx;
+        let first_range = self.range.start..split_point;
+        let second_range = split_point..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From ea23fba2dffdd80fa2b9a26bed50dfe3e17c4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 06/14] fix: allow foci over an empty range of any vector

---
 src/focus.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index cefc394..d73a325 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -172,9 +172,12 @@ where
         }
         let tree_iter = tree.spine_iter();
         let mut range_end = 0;
-        let mut focus_range = 0..0;
-        let mut spine_position = None;
-        let mut focus_node = &tree.root;
+        // No node overlaps an empty range, the focus is placed on the first leaf in that case
+        let (mut spine_position, mut focus_node) = match tree.left_spine.first() {
+            Some(leaf) => (Some((Side::Front, 0)), leaf),
+            None => (None, &tree.root),
+        };
+        let mut focus_range = 0..focus_node.len();
         for (node_position, node) in tree_iter {
             let range_start = range_end;
             range_end = range_start + node.len();
-- 
2.43.0


From 2966d569d643ce1300e03c21b34a60de234dcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 07/14] fix: sort runs of equal minimum elements without
 recursing on each of them

---
 src/sort.rs | 58 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5515318..f7af7db 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -102,10 +102,28 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather the items equal to it behind
+    // it and sort the remaining, strictly greater, items. Recursing on the equal items as well would
+    // place them one at a time.
     if less_count == 0 {
-        do_single_sort(&mut rest, rng, comparator);
+        let (mut equal_focus, mut greater_focus) = rest.split_at(equal_count);
+        let mut greater_position = 0;
+        for equal_position in 0..equal_count {
+            if comparator(equal_focus.index(equal_position), first.index(0)) == cmp::Ordering::Equal
+            {
+                continue;
+            }
+            while comparator(greater_focus.index(greater_position), first.index(0))
+                != cmp::Ordering::Equal
+            {
+                greater_position += 1;
+            }
+            mem::swap(
+                equal_focus.index(equal_position),
+                greater_focus.index(greater_position),
+            );
+        }
+        do_single_sort(&mut greater_focus, rng, comparator);
         return;
     }
 
@@ -280,10 +298,38 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather the items equal to it behind
+    // it and sort the remaining, strictly greater, items. Recursing on the equal items as well would
+    // place them one at a time.
     if less_count == 0 {
-        do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
+        let (mut equal_focus, mut greater_focus) = rest_focus.split_at(equal_count);
+        let (mut equal_dual, mut greater_dual) = rest_dual.split_at(equal_count);
+        let mut greater_position = 0;
+        for equal_position in 0..equal_count {
+            if comparator(
+                equal_focus.index(equal_position),
+                first_focus.index(0),
+            ) == cmp::Ordering::Equal
+            {
+                continue;
+            }
+            while comparator(
+                greater_focus.index(greater_position),
+                first_focus.index(0),
+            ) != cmp::Ordering::Equal
+            {
+                greater_position += 1;
+            }
+            mem::swap(
+                equal_focus.index(equal_position),
+                greater_focus.index(greater_position),
+            );
+            mem::swap(
+                equal_dual.index(equal_position),
+                greater_dual.index(greater_position),
+            );
+        }
+        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
         return;
     }
 
-- 
2.43.0


From 3053e6695cdfe35d8d0bb301790510ba66c8ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 08/14] fix: do not leak size tables through mutable foci

---
 src/node_impls/basic.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 9aaf30a..c32ff5d 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -22,6 +22,12 @@ where
 
 pub struct DerefPtr<T>(*const T);
 
+impl<T> Clone for DerefPtr<T> {
+    fn clone(&self) -> Self {
+        DerefPtr(self.0)
+    }
+}
+
 impl<T> Deref for DerefPtr<T> {
     type Target = T;
 
@@ -212,7 +218,9 @@ impl<A: Clone + std::fmt::Debug> LeafTrait for Leaf<A> {
 }
 
 pub struct BorrowedInternal<Leaf: LeafTrait, P: SharedPointerKind> {
-    pub(crate) sizes: SharedPointer<SizeTable, P>,
+    // The node this was borrowed from keeps the table alive. Owning a reference here would require
+    // giving it back, but foci may forget their borrowed nodes.
+    pub(crate) sizes: DerefPtr<SizeTable>,
     pub(crate) children: BorrowedChildList<Leaf, P>,
 }
 
@@ -229,7 +237,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> Drop for BorrowedInternal<Leaf, P> {
 impl<Leaf: LeafTrait, P: SharedPointerKind> Clone for BorrowedInternal<Leaf, P> {
     fn clone(&self) -> Self {
         BorrowedInternal {
-            sizes: SharedPointer::clone(&self.sizes),
+            sizes: self.sizes.clone(),
             children: self.children.clone(),
         }
     }
@@ -341,11 +349,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         (
             BorrowedInternal {
                 children: left,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: self.sizes.clone(),
             },
             BorrowedInternal {
                 children: right,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: self.sizes.clone(),
             },
         )
     }
@@ -757,7 +765,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
     fn borrow_node(&mut self) -> Self::Borrowed {
         BorrowedInternal {
             children: self.children.borrow(),
-            sizes: SharedPointer::clone(&self.sizes),
+            sizes: DerefPtr(self.sizes.deref() as *const SizeTable),
         }
     }
 
-- 
2.43.0


From d3147b121028680241e245543349842732da2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 09/14] fix: drop each element of a consumed ring buffer once
 and iterate it from the back

---
 src/circular.rs | 44 ++++----------------------------------------
 1 file changed, 4 insertions(+), 40 deletions(-)

diff --git a/src/circular.rs b/src/circular.rs
index 0dc95a2..2d4323b 100644
--- a/src/circular.rs
+++ b/src/circular.rs
@@ -698,9 +698,6 @@ impl<'a, A: 'a> FusedIterator for IterMut<'a, A> {}
 
 /// A consuming iterator over a vector that is obtained by the `Vector::into_iter()` method.
 pub struct IntoIter<A> {
-    consumed: usize,
-    front: usize,
-    back: usize,
     buffer: CircularBuffer<A>,
 }
 
@@ -708,44 +705,17 @@ impl<A> Iterator for IntoIter<A> {
     type Item = A;
 
     fn next(&mut self) -> Option<A> {
-        if self.consumed == self.buffer.len() {
-            None
-        } else {
-            let result = unsafe {
-                mem::replace(
-                    &mut self.buffer.data[self.front],
-                    mem::MaybeUninit::uninit(),
-                )
-                .assume_init()
-            };
-            self.front = (self.front + 1) % RRB_WIDTH;
-            self.consumed += 1;
-            Some(result)
-        }
+        self.buffer.try_pop_front()
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.buffer.len() - self.consumed;
-        (len, Some(len))
+        (self.buffer.len(), Some(self.buffer.len()))
     }
 }
 
 impl<A> DoubleEndedIterator for IntoIter<A> {
     fn next_back(&mut self) -> Option<A> {
-        if self.consumed == self.buffer.len() {
-            None
-        } else {
-            self.consumed += 1;
-            self.back = (self.back + RRB_WIDTH - 1) % RRB_WIDTH;
-            let result = unsafe {
-                mem::replace(
-                    &mut self.buffer.data[self.front],
-                    mem::MaybeUninit::uninit(),
-                )
-                .assume_init()
-            };
-            Some(result)
-        }
+        self.buffer.try_pop_back()
     }
 }
 
@@ -776,13 +746,7 @@ impl<A> IntoIterator for CircularBuffer<A> {
     type Item = A;
 
     fn into_iter(self) -> IntoIter<A> {
-        let back = (self.front + self.len) % RRB_WIDTH;
-        IntoIter {
-            back,
-            front: self.front,
-            consumed: 0,
-            buffer: self,
-        }
+        IntoIter { buffer: self }
     }
 }
 
-- 
2.43.0


From ec3fe5104ee646d65435ea5f663c501635595853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 10/14] fix: keep a mutable focus usable after an out of bounds
 access

When the focused spine node is a leaf, leaf_range kept its old value while
the root was dropped, so get(len) followed by get(0) unwrapped a None.
---
 src/focus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index d73a325..a637404 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -708,10 +708,9 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        self.leaf = None;
+        // A root that is a leaf has a range without having a separate leaf
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From a92965157a351c39b0f6c9e52506a9ebc3fb5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 11/14] fix: bound the recursion depth of sorting

Recursing on both sides of each partition used stack proportional to the
length for orders that defeat the pivot choice. Recurse on the smaller side
only and loop on the larger one.
---
 src/sort.rs | 112 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 90 insertions(+), 22 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index f7af7db..9d8f749 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -3,6 +3,7 @@ use crate::node_traits::{InternalTrait, LeafTrait};
 use rand_core::RngCore;
 use std::cmp;
 use std::mem;
+use std::ops::Range;
 
 // pub(crate) fn sort_multiple<'a>(
 //     foci: &mut [FocusMut<'a, dyn InternalTrait, dyn Leaf, dyn BorrowedInternal>],
@@ -77,12 +78,46 @@ pub(crate) fn do_single_sort<R, F, Internal>(
     ) -> cmp::Ordering,
     Internal: InternalTrait,
 {
-    if focus.len() <= 1 {
-        return;
+    // The range of the focus that is still to be sorted. Only the smaller side of each partition is
+    // recursed on, so the depth is logarithmic no matter how badly the pivots are chosen.
+    let mut unsorted = 0..focus.len();
+    while unsorted.len() > 1 {
+        let (mut head, _) = focus.split_at(unsorted.end);
+        let (_, mut current) = head.split_at(unsorted.start);
+        let (less, greater) = partition_single(&mut current, rng, comparator);
+        let start = unsorted.start;
+        if less.len() < greater.len() {
+            let (mut less_focus, _) = current.split_at(less.end);
+            let (_, mut less_focus) = less_focus.split_at(less.start);
+            do_single_sort(&mut less_focus, rng, comparator);
+            unsorted = start + greater.start..start + greater.end;
+        } else {
+            let (_, mut greater_focus) = current.split_at(greater.start);
+            do_single_sort(&mut greater_focus, rng, comparator);
+            unsorted = start + less.start..start + less.end;
+        }
     }
+}
+
+/// Partitions a focus of at least two elements around a random pivot. Returns the ranges of elements
+/// that are smaller and greater than the pivot; all other elements are in their final position.
+fn partition_single<R, F, Internal>(
+    focus: &mut FocusMut<Internal>,
+    rng: &mut R,
+    comparator: &F,
+) -> (Range<usize>, Range<usize>)
+where
+    R: RngCore,
+    F: Fn(
+        &<Internal::Leaf as LeafTrait>::Item,
+        &<Internal::Leaf as LeafTrait>::Item,
+    ) -> cmp::Ordering,
+    Internal: InternalTrait,
+{
+    let len = focus.len();
 
     // We know there are at least 2 elements here
-    let pivot_index = rng.next_u64() as usize % focus.len();
+    let pivot_index = rng.next_u64() as usize % len;
     let (mut first, mut rest) = focus.split_at(1);
     if pivot_index > 0 {
         mem::swap(rest.index(pivot_index - 1), first.index(0));
@@ -103,7 +138,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
         }
     }
     // If by accident we picked the minimum element as a pivot, we gather the items equal to it behind
-    // it and sort the remaining, strictly greater, items. Recursing on the equal items as well would
+    // it, only the remaining, strictly greater, items are left. Leaving the equal items as well would
     // place them one at a time.
     if less_count == 0 {
         let (mut equal_focus, mut greater_focus) = rest.split_at(equal_count);
@@ -123,8 +158,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
                 greater_focus.index(greater_position),
             );
         }
-        do_single_sort(&mut greater_focus, rng, comparator);
-        return;
+        return (0..0, 1 + equal_count..len);
     }
 
     // We know here that there is at least one item before the pivot, so we move the minimum to the
@@ -249,11 +283,8 @@ pub(crate) fn do_single_sort<R, F, Internal>(
         }
     }
 
-    // Now we have partitioned both sides correctly, we just have to recurse now
-    do_single_sort(&mut less_focus, rng, comparator);
-    if !greater_focus.is_empty() {
-        do_single_sort(&mut greater_focus, rng, comparator);
-    }
+    // Now we have partitioned both sides correctly, the minimum is already in front of the lesser zone
+    (1..1 + less_count, 1 + less_count + equal_count..len)
 }
 
 pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
@@ -270,12 +301,53 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
     Internal1: InternalTrait,
     Internal2: InternalTrait,
 {
-    if focus.len() <= 1 {
-        return;
+    // The range of the foci that is still to be sorted, see do_single_sort.
+    let mut unsorted = 0..focus.len();
+    while unsorted.len() > 1 {
+        let (mut head_focus, _) = focus.split_at(unsorted.end);
+        let (_, mut current_focus) = head_focus.split_at(unsorted.start);
+        let (mut head_dual, _) = dual.split_at(unsorted.end);
+        let (_, mut current_dual) = head_dual.split_at(unsorted.start);
+        let (less, greater) =
+            partition_dual(&mut current_focus, &mut current_dual, rng, comparator);
+        let start = unsorted.start;
+        if less.len() < greater.len() {
+            let (mut less_focus, _) = current_focus.split_at(less.end);
+            let (_, mut less_focus) = less_focus.split_at(less.start);
+            let (mut less_dual, _) = current_dual.split_at(less.end);
+            let (_, mut less_dual) = less_dual.split_at(less.start);
+            do_dual_sort(&mut less_focus, &mut less_dual, rng, comparator);
+            unsorted = start + greater.start..start + greater.end;
+        } else {
+            let (_, mut greater_focus) = current_focus.split_at(greater.start);
+            let (_, mut greater_dual) = current_dual.split_at(greater.start);
+            do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
+            unsorted = start + less.start..start + less.end;
+        }
     }
+}
+
+/// Partitions a focus of at least two elements around a random pivot and applies the same
+/// rearrangement to the dual, see partition_single.
+fn partition_dual<R, F, Internal1, Internal2>(
+    focus: &mut FocusMut<Internal1>,
+    dual: &mut FocusMut<Internal2>,
+    rng: &mut R,
+    comparator: &F,
+) -> (Range<usize>, Range<usize>)
+where
+    R: RngCore,
+    F: Fn(
+        &<Internal1::Leaf as LeafTrait>::Item,
+        &<Internal1::Leaf as LeafTrait>::Item,
+    ) -> cmp::Ordering,
+    Internal1: InternalTrait,
+    Internal2: InternalTrait,
+{
+    let len = focus.len();
 
     // We know there are at least 2 elements here
-    let pivot_index = rng.next_u64() as usize % focus.len();
+    let pivot_index = rng.next_u64() as usize % len;
     let (mut first_focus, mut rest_focus) = focus.split_at(1); //, |first_focus, rest_focus| {
     let (mut first_dual, mut rest_dual) = dual.split_at(1);
     // dual.split_at_fn(1, |first_dual, rest_dual| {
@@ -299,7 +371,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
         }
     }
     // If by accident we picked the minimum element as a pivot, we gather the items equal to it behind
-    // it and sort the remaining, strictly greater, items. Recursing on the equal items as well would
+    // it, only the remaining, strictly greater, items are left. Leaving the equal items as well would
     // place them one at a time.
     if less_count == 0 {
         let (mut equal_focus, mut greater_focus) = rest_focus.split_at(equal_count);
@@ -329,8 +401,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
                 greater_dual.index(greater_position),
             );
         }
-        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
-        return;
+        return (0..0, 1 + equal_count..len);
     }
 
     // We know here that there is at least one item before the pivot, so we move the minimum to the
@@ -481,11 +552,8 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
         }
     }
 
-    // Now we have partitioned both sides correctly, we just have to recurse now
-    do_dual_sort(&mut less_focus, &mut less_dual, rng, comparator);
-    if !greater_focus.is_empty() {
-        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
-    }
+    // Now we have partitioned both sides correctly, the minimum is already in front of the lesser zone
+    (1..1 + less_count, 1 + less_count + equal_count..len)
     //     });
     // });
     // });
-- 
2.43.0


From a41945a2754dd394916bec671f7a12fe8b692ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:08 +0000
Subject: [PATCH 12/14] verif hooks: wrappers of the ring buffer and the size
 table behind librrb_verif_ring and librrb_verif_sizes

---
 src/lib.rs         |   4 ++
 src/verif_ring.rs  | 131 +++++++++++++++++++++++++++++++++++++++++++++
 src/verif_sizes.rs |  43 +++++++++++++++
 3 files changed, 178 insertions(+)
 create mode 100644 src/verif_ring.rs
 create mode 100644 src/verif_sizes.rs

diff --git a/src/lib.rs b/src/lib.rs
index f3d27fa..1f6d213 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,10 @@ pub mod focus;
 
 #[cfg(librrb_verif_tree)]
 pub mod verif;
+#[cfg(librrb_verif_ring)]
+pub mod verif_ring;
+#[cfg(librrb_verif_sizes)]
+pub mod verif_sizes;
 
 #[doc(inline)]
 pub use vector::{InternalVector, Iter, IterMut};
diff --git a/src/verif_ring.rs b/src/verif_ring.rs
new file mode 100644
index 0000000..d992212
--- /dev/null
+++ b/src/verif_ring.rs
@@ -0,0 +1,131 @@
+//! Access to the crate-private ring buffer for the verification builds. Compiled only with the
+//! `librrb_verif_ring` cfg.
+use crate::circular::{BorrowedBuffer, CircularBuffer};
+use crate::Side;
+use std::fmt::Debug;
+
+/// The ring buffer.
+#[derive(Clone, Debug)]
+pub struct Ring<A: Debug>(CircularBuffer<A>);
+
+/// A borrowed view of a part of a ring buffer.
+#[derive(Debug)]
+pub struct View<A: Debug>(BorrowedBuffer<A>);
+
+#[allow(missing_docs)]
+impl<A: Debug> Ring<A> {
+    pub fn new() -> Self {
+        Ring(CircularBuffer::new())
+    }
+    pub fn with_item(item: A) -> Self {
+        Ring(CircularBuffer::with_item(item))
+    }
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn is_full(&self) -> bool {
+        self.0.is_full()
+    }
+    pub fn free_space(&self) -> usize {
+        self.0.free_space()
+    }
+    pub fn try_push_back(&mut self, item: A) -> bool {
+        self.0.try_push_back(item).is_some()
+    }
+    pub fn try_push_front(&mut self, item: A) -> bool {
+        self.0.try_push_front(item).is_some()
+    }
+    pub fn push(&mut self, side: Side, item: A) {
+        self.0.push(side, item)
+    }
+    pub fn push_back(&mut self, item: A) {
+        self.0.push_back(item)
+    }
+    pub fn push_front(&mut self, item: A) {
+        self.0.push_front(item)
+    }
+    pub fn try_pop_back(&mut self) -> Option<A> {
+        self.0.try_pop_back()
+    }
+    pub fn try_pop_front(&mut self) -> Option<A> {
+        self.0.try_pop_front()
+    }
+    pub fn try_pop(&mut self, side: Side) -> Option<A> {
+        self.0.try_pop(side)
+    }
+    pub fn pop(&mut self, side: Side) -> A {
+        self.0.pop(side)
+    }
+    pub fn pop_back(&mut self) -> A {
+        self.0.pop_back()
+    }
+    pub fn pop_front(&mut self) -> A {
+        self.0.pop_front()
+    }
+    pub fn get(&self, idx: usize) -> Option<&A> {
+        self.0.get(idx)
+    }
+    pub fn get_mut(&mut self, idx: usize) -> Option<&mut A> {
+        self.0.get_mut(idx)
+    }
+    pub fn at(&self, idx: usize) -> &A {
+        &self.0[idx]
+    }
+    pub fn at_mut(&mut self, idx: usize) -> &mut A {
+        &mut self.0[idx]
+    }
+    pub fn back(&self) -> Option<&A> {
+        self.0.back()
+    }
+    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &A> + ExactSizeIterator {
+        self.0.iter()
+    }
+    pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut A> + ExactSizeIterator {
+        self.0.iter_mut()
+    }
+    pub fn into_iter(self) -> impl DoubleEndedIterator<Item = A> + ExactSizeIterator {
+        self.0.into_iter()
+    }
+    pub fn pair_mut(&mut self, first: usize, second: usize) -> (&mut A, &mut A) {
+        self.0.pair_mut(first, second)
+    }
+    pub fn decant_into(&mut self, destination: &mut Self, side: Side, len: usize) -> usize {
+        self.0.decant_into(&mut destination.0, side, len)
+    }
+    /// The view must not outlive the buffer.
+    pub unsafe fn view(&mut self) -> View<A> {
+        View(self.0.mutable_view())
+    }
+}
+
+#[allow(missing_docs)]
+impl<A: Debug> View<A> {
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn get(&self, idx: usize) -> Option<&A> {
+        self.0.get(idx)
+    }
+    pub fn get_mut(&mut self, idx: usize) -> Option<&mut A> {
+        self.0.get_mut(idx)
+    }
+    pub fn at(&self, idx: usize) -> &A {
+        &self.0[idx]
+    }
+    pub fn at_mut(&mut self, idx: usize) -> &mut A {
+        &mut self.0[idx]
+    }
+    pub fn split_at(&mut self, idx: usize) -> (Self, Self) {
+        let (left, right) = self.0.split_at(idx);
+        (View(left), View(right))
+    }
+    pub fn iter(&self) -> impl Iterator<Item = &A> {
+        self.0.iter()
+    }
+}
diff --git a/src/verif_sizes.rs b/src/verif_sizes.rs
new file mode 100644
index 0000000..3c8652a
--- /dev/null
+++ b/src/verif_sizes.rs
@@ -0,0 +1,43 @@
+//! Access to the crate-private size table for the verification builds. Compiled only with the
+//! `librrb_verif_sizes` cfg.
+use crate::size_table::SizeTable;
+use crate::Side;
+use std::ops::Range;
+
+/// The size table of a node.
+#[derive(Clone, Debug)]
+pub struct Sizes(SizeTable);
+
+#[allow(missing_docs)]
+impl Sizes {
+    pub fn new(level: usize) -> Self {
+        Sizes(SizeTable::new(level))
+    }
+    pub fn level(&self) -> usize {
+        self.0.level()
+    }
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn total(&self) -> usize {
+        self.0.cumulative_size()
+    }
+    pub fn up_to(&self, idx: usize) -> Option<usize> {
+        self.0.get_cumulative_child_size(idx).copied()
+    }
+    pub fn size(&self, idx: usize) -> Option<usize> {
+        self.0.get_child_size(idx)
+    }
+    pub fn range(&self, idx: usize) -> Option<Range<usize>> {
+        self.0.get_child_range(idx)
+    }
+    pub fn find(&self, position: usize) -> Option<(usize, usize)> {
+        self.0.position_info_for(position)
+    }
+    pub fn push(&mut self, side: Side, size: usize) {
+        self.0.push_child(side, size)
+    }
+    pub fn pop(&mut self, side: Side) -> usize {
+        self.0.pop_child(side)
+    }
+}
-- 
2.43.0


From 331f0245066e20c8b0f0390fec88e707ed950a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:29 +0000
Subject: [PATCH 13/14] fix: splitting a node walked both whole subtrees
 checking invariants in release builds

The invariant check is linear in the number of nodes, while slicing and
concatenating are documented as O(MH); vectors of many elements sharing
their nodes could not be split at all.
---
 src/node_impls/basic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index c32ff5d..4f970a2 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -865,8 +865,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
             result.push_child(Side::Front, subresult);
         }
 
-        self.debug_check_invariants(original_position, self.level());
-        result.debug_check_invariants(original_len - original_position, result.level());
+        // This walks the whole of both trees, so it is only done in debug builds.
+        if cfg!(debug_assertions) {
+            self.debug_check_invariants(original_position, self.level());
+            result.debug_check_invariants(original_len - original_position, result.level());
+        }
         result
     }
 
-- 
2.43.0


From db25999b5578505b8a658a10955e085c277a7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 14/14] fix: repeating an element 2^63 times or more never
 ended

The last doubling of the accumulator is not needed; past 2^62 elements its
length overflowed, which panicked in debug builds and looped for ever in
release builds.
---
 src/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index a2f7ea2..0c43cc0 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -456,6 +456,10 @@ where
             if len & accumulator.len() != 0 {
                 store.append(accumulator.clone());
             }
+            if accumulator.len() > len / 2 {
+                // Doubling once more would go past the length, which might not even fit a usize
+                break;
+            }
             accumulator.append(accumulator.clone());
         }
         store
-- 
2.43.0

