From 69023a595282e868ba09ded6290cc808e8f44df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:49 +0000
Subject: [PATCH 01/10] fix: do not iterate over elements of empty expressions

---
 src/expr/iter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..ec6a978 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,7 +20,7 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let mut inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
@@ -31,6 +31,15 @@ impl<E: Expression> Iter<E> {
                 expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
         }
 
+        // If the expression is empty, set all limits to zero so that no element is visited.
+        if expr.is_empty() {
+            inner_limit = 0;
+
+            if outer_rank > 0 {
+                outer_limit = Dims::new(expr.rank());
+            }
+        }
+
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
     }
 
-- 
2.43.0


From 9f889022d30eb166b00b92d78471fec679f909a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 02/10] fix: keep returning None from an exhausted iterator

---
 src/expr/iter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index ec6a978..c788ee0 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -46,6 +46,12 @@ impl<E: Expression> Iter<E> {
     unsafe fn step_outer(&mut self) -> bool {
         let outer_rank = self.expr.rank().saturating_sub(self.expr.inner_rank());
 
+        // Keep the position at the end, to ensure that following calls return false.
+        if (0..outer_rank).all(|i| self.outer_index.as_ref()[i] + 1 >= self.outer_limit.as_ref()[i])
+        {
+            return false;
+        }
+
         unsafe {
             // If the inner rank is >0, reset the last dimension when stepping outer dimensions.
             // This is needed in the FromFn implementation.
@@ -66,8 +72,6 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
-
         false
     }
 }
-- 
2.43.0


From 440cb017d033b1ecaf0cf64b32669a8c55a4164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:07 +0000
Subject: [PATCH 03/10] fix: apply outer offset when iterating over lanes

---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From de3c582ab791331d90064bed915919cfa5c23a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 04/10] fix: support dynamic rank in the from_fn expression

---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..b9f5844 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = S::Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From 0d9aa83137a9d9eb3991f16be527115b09638363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:30 +0000
Subject: [PATCH 05/10] fix: drop old elements in clone_from of consuming
 expressions

---
 src/expr/into_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..3075667 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -51,7 +51,7 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     fn clone_from(&mut self, source: &Self) {
         assert!(self.index == 0 && source.index == 0, "expression in use");
 
-        self.buffer.clone_from(&source.buffer);
+        *self = source.clone(); // The old elements must be dropped.
     }
 }
 
-- 
2.43.0


From 61aeb31735ea900e18b20147acc4412442686eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:48 +0000
Subject: [PATCH 06/10] fix: do not leak an element when the right-hand
 expression panics

---
 src/tensor.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 2f28ced..b422ca4 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -431,34 +431,35 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
         struct DropGuard<T, S: Shape, A: Allocator> {
             tensor: ManuallyDrop<Tensor<T, S, A>>,
             index: usize,
+            tail: usize,
         }
 
         impl<T, S: Shape, A: Allocator> Drop for DropGuard<T, S, A> {
             fn drop(&mut self) {
                 let ptr = self.tensor.as_mut_ptr();
-                let tail = self.tensor.len() - self.index;
+                let len = self.tensor.len();
 
-                // Drop all elements except the current one, which is read but not written back.
+                // Drop all elements except the current one if it is read but not written back.
                 unsafe {
                     let mut vec = ManuallyDrop::take(&mut self.tensor).into_vec();
 
                     vec.set_len(0);
 
-                    if self.index > 1 {
-                        ptr::slice_from_raw_parts_mut(ptr, self.index - 1).drop_in_place();
-                    }
-
-                    ptr::slice_from_raw_parts_mut(ptr.add(self.index), tail).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr, self.index).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr.add(len - self.tail), self.tail)
+                        .drop_in_place();
                 }
             }
         }
 
-        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0 };
+        let tail = self.len();
+        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0, tail };
         let expr = guard.tensor.expr_mut().zip(expr);
 
         expr.for_each(|(x, y)| unsafe {
-            guard.index += 1;
+            guard.tail -= 1;
             ptr::write(x, f((ptr::read(x), y)));
+            guard.index += 1;
         });
 
         let tensor = unsafe { ManuallyDrop::take(&mut guard.tensor) };
-- 
2.43.0


From 893df96cbc80c82ebbcf8f189e7e5a64d857da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:56 +0000
Subject: [PATCH 07/10] fix: validate the new shape before resizing a tensor

---
 src/raw_tensor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raw_tensor.rs b/src/raw_tensor.rs
index 9e279d1..9f9395d 100644
--- a/src/raw_tensor.rs
+++ b/src/raw_tensor.rs
@@ -114,6 +114,8 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
     {
         assert!(new_dims.len() == self.slice.mapping().rank(), "invalid rank");
 
+        _ = S::from_dims(new_dims); // Ensure that the shape is valid before any change.
+
         if !new_dims.is_empty() {
             let new_len = new_dims.iter().try_fold(1usize, |acc, &x| acc.checked_mul(x));
             let new_len = new_len.expect("invalid length");
-- 
2.43.0


From 61cdb2f0d77870497a939fd3fcec0434ed510297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 08/10] fix: validate permutations of any rank

The bit mask that detects repeated dimensions overflows for rank 64 and above:
valid permutations panic and invalid ones can be accepted.
---
 src/mapping.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index d996750..a96c7a7 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -324,16 +324,11 @@ impl<S: Shape> Mapping for StridedMapping<S> {
     fn permute<M: Mapping>(mapping: &M, perm: &[usize]) -> Self {
         assert!(perm.len() == mapping.rank(), "invalid permutation");
 
-        let mut index_mask = 0;
-
         for i in 0..mapping.rank() {
             assert!(perm[i] < mapping.rank(), "invalid permutation");
-
-            index_mask |= 1 << perm[i];
+            assert!(!perm[..i].contains(&perm[i]), "invalid permutation");
         }
 
-        assert!(index_mask == !(usize::MAX << mapping.rank()), "invalid permutation");
-
         let mut shape = S::new(mapping.rank());
         let mut strides = S::Dims::new(mapping.rank());
 
-- 
2.43.0


From b9c4bbdf65a84e6ecacccec6c8425fc6323bbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 09/10] fix: avoid stride overflow for large steps

The stride of a stepped range with at most one element is not used, but
computing it panics with overflow checks if the step is large.
---
 src/index/view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index/view.rs b/src/index/view.rs
index db9dead..772c1ba 100644
--- a/src/index/view.rs
+++ b/src/index/view.rs
@@ -156,7 +156,10 @@ impl<R: RangeBounds<usize>> DimIndex for StepRange<R, isize> {
 
         let delta = if self.step < 0 && !range.is_empty() { range.end - 1 } else { range.start };
 
-        (offset + stride * delta as isize, Mapping::prepend_dim(&inner, len, stride * self.step))
+        // If there is at most one element, the stride is not used and the product could overflow.
+        let new_stride = if len > 1 { stride * self.step } else { stride };
+
+        (offset + stride * delta as isize, Mapping::prepend_dim(&inner, len, new_stride))
     }
 }
 
-- 
2.43.0


From d12384c1ebc7872ea365010aad8de59c5d0c2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:19 +0000
Subject: [PATCH 10/10] fix: limit preallocation in deserialization, since size
 hints are untrusted

---
 src/serde.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index ef5e30d..c6d48ff 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -36,7 +36,8 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
         let mut shape = S::default();
         let mut size = 0;
 
-        let size_hint = seq.size_hint().unwrap_or(0);
+        // The size hint may come from untrusted input, so limit the preallocation.
+        let size_hint = seq.size_hint().unwrap_or(0).min(4096);
 
         if S::RANK == Some(1) {
             vec.reserve(size_hint);
-- 
2.43.0

