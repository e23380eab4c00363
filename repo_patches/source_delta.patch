From 56d16723eeb7f53592722e15b924de1ea0b2438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:42 +0000
Subject: [PATCH 01/25] fix: NdIterator carried into the next axis one step too
 late

---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..4d09200 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 < self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From 7c9be65067d36ffe2178620e5bbfe077041c1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 02/25] fix: broadcast views were treated as uniformly strided,
 contiguous memory

---
 src/ndarray/iterator/collapse_contiguous.rs | 12 ++++++++++--
 src/ndarray/slice.rs                        |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..ed27e4f 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,13 +81,21 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
+    let mut last_shape = shape[0];
+    let mut last_stride = stride[0];
+
+    // every dimension must collapse into the previous ones (see `collapse_to_uniform_stride`)
     for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
+        let can_collapse = last_stride == shape[i] * stride[i] || (last_stride == 0 && last_shape == 1);
+        if !can_collapse {
             return None;
         }
+
+        last_shape *= shape[i];
+        last_stride = stride[i];
     }
 
-    Some(stride[ndims - 1])
+    Some(last_stride)
 }
 
 #[cfg(test)]
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..307324c 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // elements repeated with a stride of 0 are not stored contiguously
+            if stride == 1 || (stride == 0 && shape.iter().product::<usize>() <= 1) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From 65ce3d61e410026404b5f4b283eeddc3a230ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:04 +0000
Subject: [PATCH 03/25] fix: [] indexing checks every axis against the shape

---
 src/ndarray/index_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..3d05561 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -8,24 +8,25 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
     fn index(&self, index: [usize; D]) -> &Self::Output {
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
+
         let i: usize = index.iter().zip(self.stride.iter())
             .map(|(idx, stride)| idx * stride)
             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
+        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
 
         let i: usize = index.iter().zip(self.stride.iter())
                             .map(|(idx, stride)| idx * stride)
                             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From 3c0e84cacdc1f860388d25ca422dd6873b1549e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:16 +0000
Subject: [PATCH 04/25] fix: fill, zero and [] assignment reject readonly views

---
 src/ndarray/fill.rs       | 2 ++
 src/ndarray/index_impl.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..eef2ca1 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -16,6 +17,7 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 3d05561..92b66ab 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -20,6 +21,7 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
         assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
 
-- 
2.43.0


From 3d2755ae879cddca3b7a512b1120a5c90561adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:51 +0000
Subject: [PATCH 05/25] fix: slicing checks that the selected elements lie
 inside the array

---
 src/ndarray/slice.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 307324c..cb7efd6 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -38,6 +38,15 @@ fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
          .sum::<usize>() + 1
 }
 
+// returns the first index and the number of elements selected along an axis
+fn checked_bounds<S: Indexer>(index: &S, axis_length: usize) -> (usize, usize) {
+    let first = index.index_of_first_element();
+    let length = index.indexed_length(axis_length);
+
+    assert!(length <= axis_length && first <= axis_length - length, "slice index out of bounds");
+    (first, length)
+}
+
 
 impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
@@ -47,14 +56,16 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
 
+        let (first, new_length) = checked_bounds(&index, self.shape[axis]);
+
         if index.collapse_dimension() {
             new_shape.remove(axis);
             new_stride.remove(axis);
         } else {
-            new_shape[axis] = index.indexed_length(new_shape[axis]);
+            new_shape[axis] = new_length;
         }
 
-        let offset = self.stride[axis] * index.index_of_first_element();
+        let offset = self.stride[axis] * first;
 
         let len = calculate_strided_buffer_length(&new_shape, &new_stride);
         
@@ -88,13 +99,14 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            let (first, new_length) = checked_bounds(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
-                let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
                 new_stride.push(self.stride[axis]);
             }
 
-            offset += self.stride[axis] * idx.index_of_first_element();
+            offset += self.stride[axis] * first;
             axis += 1;
         }
 
-- 
2.43.0


From 17b07b7955d7ddd4043cba243f1aa297f9ddcc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:12 +0000
Subject: [PATCH 06/25] fix: in-place operators on strided views update the
 elements of the view

---
 src/ndarray/assign_ops.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..a8591e0 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -9,6 +9,21 @@ use crate::{NdArray, StridedMemory};
 use paste::paste;
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
+/// Calls `kernel` with a destination for the elements of `array` stored in row-major order.
+/// If `array` is not contiguous, its elements are updated from a temporary buffer.
+fn assign_elements<T: RawDataType>(array: &NdArray<'_, T>, kernel: impl FnOnce(*mut T)) {
+    if array.is_contiguous() {
+        return kernel(unsafe { array.mut_ptr() });
+    }
+
+    let mut buffer = vec![T::default(); array.size()];
+    kernel(buffer.as_mut_ptr());
+
+    for (dst, value) in array.flatiter_ptr().zip(buffer) {
+        unsafe { *dst = value; }
+    }
+}
+
 
 macro_rules! define_binary_iop {
     ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
@@ -26,22 +41,22 @@ macro_rules! define_binary_iop {
                     }
                     
                     if rhs.shape() == self.shape() {
-                        unsafe {
+                        assign_elements(self, |dst| unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
                                                              rhs.ptr(), &rhs.stride(),
-                                                             self.mut_ptr(), self.shape());
-                        }
+                                                             dst, self.shape());
+                        });
                     }
                     
                     // right-hand term needs broadcasting
                     else {
                         let rhs = rhs.broadcast_to(&self.shape);
                         
-                        unsafe {
-                        <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
-                                                         rhs.ptr(), &rhs.stride(),
-                                                         self.mut_ptr(), self.shape());
-                        }
+                        assign_elements(self, |dst| unsafe {
+                            <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
+                                                             rhs.ptr(), &rhs.stride(),
+                                                             dst, self.shape());
+                        });
                     }
                 }
             }
@@ -52,10 +67,10 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
-                    unsafe {
+                    assign_elements(self, |dst| unsafe {
                         <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
-                                                                     rhs, self.mut_ptr());
-                    }
+                                                                     rhs, dst);
+                    });
                 }
             }
         }
-- 
2.43.0


From 5ba9a7fb8df29e0cc146d29c4a389e3a4425618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:23 +0000
Subject: [PATCH 07/25] fix: consuming reshape kept ownership of the buffer but
 lost its capacity

---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 4ce2f72cb3f13db3296b0e31052abf76606c8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 08/25] fix: a consumed view keeps its lifetime when reshaped

---
 src/ndarray/reshape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index b41ebc7..1c0aff6 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From 55ff9fb79cf664a6eec84ca01c0b573048595919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 09/25] fix: data_slice does not outlive the array it borrows

---
 src/ndarray/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/methods.rs b/src/ndarray/methods.rs
index 4c8b941..4875f6d 100644
--- a/src/ndarray/methods.rs
+++ b/src/ndarray/methods.rs
@@ -38,7 +38,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// let data = ndarray.data_slice();
     /// assert_eq!(data, &[50, 60, -5, -10]);
     /// ```
-    pub fn data_slice(&self) -> &'a [T] {
+    pub fn data_slice(&self) -> &[T] {
         assert!(self.is_contiguous(), "cannot get data slice of non-contiguous tensor");
         unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
     }
-- 
2.43.0


From b0f7f8a55447074bef6ce9b4a2af709a2b382937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:21 +0000
Subject: [PATCH 10/25] fix: flatiter borrows the array it reads from

---
 src/ndarray/iterator/flat_iterator.rs | 11 +++++++----
 src/ndarray/iterator/iterators.rs     |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ndarray/iterator/flat_iterator.rs b/src/ndarray/iterator/flat_iterator.rs
index e94ec40..e2a4eb3 100644
--- a/src/ndarray/iterator/flat_iterator.rs
+++ b/src/ndarray/iterator/flat_iterator.rs
@@ -1,20 +1,23 @@
 use crate::buffer_iterator::BufferIterator;
 use crate::dtype::RawDataType;
 use crate::NdArray;
+use std::marker::PhantomData;
 
-pub struct FlatIterator<T: RawDataType> {
+pub struct FlatIterator<'a, T: RawDataType> {
     buffer_iterator: BufferIterator<T>,
+    _marker: PhantomData<&'a T>,
 }
 
-impl<T: RawDataType> FlatIterator<T> {
-    pub(super) fn from(tensor: &NdArray<T>) -> Self {
+impl<'a, T: RawDataType> FlatIterator<'a, T> {
+    pub(super) fn from(tensor: &'a NdArray<T>) -> Self {
         Self {
             buffer_iterator: BufferIterator::from(tensor),
+            _marker: PhantomData,
         }
     }
 }
 
-impl<T: RawDataType> Iterator for FlatIterator<T> {
+impl<T: RawDataType> Iterator for FlatIterator<'_, T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
diff --git a/src/ndarray/iterator/iterators.rs b/src/ndarray/iterator/iterators.rs
index 10e7658..d1b8cad 100644
--- a/src/ndarray/iterator/iterators.rs
+++ b/src/ndarray/iterator/iterators.rs
@@ -6,7 +6,7 @@ use crate::axis::{AxesType, AxisType};
 use crate::buffer_iterator::BufferIterator;
 
 impl<T: RawDataType> NdArray<'_, T> {
-    pub fn flatiter(&self) -> FlatIterator<T> {
+    pub fn flatiter(&self) -> FlatIterator<'_, T> {
         FlatIterator::from(self)
     }
 
-- 
2.43.0


From ad7ec1e0f1e41f75b49dbcc0c57b4721f53725c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:01 +0000
Subject: [PATCH 11/25] fix: reshaping a tensor whose buffer is shared kept its
 elements in order

---
 src/tensor/reshape.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..8c19472 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -1,3 +1,4 @@
+use std::rc::Rc;
 use crate::none_backwards::NoneBackwards;
 use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
@@ -100,7 +101,11 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        // `shape` and `stride` describe this tensor's buffer: when it is shared, copy the view of it
+        let result = match Rc::try_unwrap(self.array) {
+            Ok(array) => array.reshaped_view(shape, stride),
+            Err(array) => array.as_ref().reshaped_view(shape, stride).clone(),
+        };
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From b4706116768b663217d541295049ae0d2cfc3f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:00 +0000
Subject: [PATCH 12/25] fix: 'static arrays taken from a tensor view no longer
 point into the viewed tensor

---
 src/tensor/methods.rs | 10 ++++++++++
 src/tensor/reshape.rs |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..b55dd5a 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -33,12 +33,22 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
     }
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
+    ///
+    /// If the tensor is a view, this is a copy because the result may outlive the viewed data.
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        if self.array.is_view() {
+            return Rc::new(self.array.as_ref().clone());
+        }
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
+    ///
+    /// If the tensor is a view, this is a copy because the result may outlive the viewed data.
     pub fn into_ndarray(self) -> NdArray<'static, T> {
+        if self.array.is_view() {
+            return self.array.as_ref().clone();
+        }
         match Rc::try_unwrap(self.array) {
             Ok(result) => { result }
             Err(rc) => { (*rc).clone() }
diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 8c19472..90c649f 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -103,7 +103,8 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
 
         // `shape` and `stride` describe this tensor's buffer: when it is shared, copy the view of it
         let result = match Rc::try_unwrap(self.array) {
-            Ok(array) => array.reshaped_view(shape, stride),
+            Ok(array) if !array.is_view() => array.reshaped_view(shape, stride),
+            Ok(array) => (&array).reshaped_view(shape, stride).clone(),
             Err(array) => array.as_ref().reshaped_view(shape, stride).clone(),
         };
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
-- 
2.43.0


From dc42d09e1f470e3b5ec6f75593ff8de299259a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:36 +0000
Subject: [PATCH 13/25] fix: randint never returns its exclusive upper bound

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..bf0a461 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -107,7 +107,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From db3691bced534ea094ad3b762163b1e9f37a5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:17 +0000
Subject: [PATCH 14/25] fix: arange and randint bounds of wide types were
 rounded through f32

---
 src/util/dtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..e2640d6 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -50,7 +50,7 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     type AsFloatType: FloatDataType;
 
     fn to_float(&self) -> Self::AsFloatType {
-        self.to_f32().unwrap().into()
+        <Self::AsFloatType as NumCast>::from(*self).unwrap()
     }
 
     fn ceil(&self) -> Self {
-- 
2.43.0


From 0410293d7e1cbeb9fd03215e7b727bf2d80199a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 15/25] fix: linspace returns exactly num values

---
 src/common/constructors.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..34305ec 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -222,8 +222,9 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
 
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -257,6 +258,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 }
-- 
2.43.0


From 4043beb70156ba8bf35c3067532d8a4694e79a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:18 +0000
Subject: [PATCH 16/25] fix: scalars can be reshaped

---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From 289eb435e9466bd538bcc72321c04eca955c1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:38 +0000
Subject: [PATCH 17/25] fix: the gradient of a reshape accepts strided
 gradients

---
 src/autograd/reshape_backwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..ae2f60c 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -11,7 +11,7 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
+        call_next_backward!(grad.clone().reshape(&self.shape),
                             self.next_function);
     }
 }
-- 
2.43.0


From 09144d5baff8b9c690373f9cc9ff3fda0ff31ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:08 +0000
Subject: [PATCH 18/25] fix: rand could return 1 for f32, outside its half-open
 range

---
 src/common/random.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index bf0a461..05eec7d 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -51,9 +51,10 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(0.0, 1.0);
+        // sampled in `T`: rounding a wider sample to `T` can give 1, which is outside the range
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
+            .map(|_| uniform.sample(&mut rng))
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From cfd2e3e19c0657febd0313651b008048033dd545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:51 +0000
Subject: [PATCH 19/25] fix: arange and randint lost elements and bounds of
 32-bit integers above 2^24

---
 src/util/dtype.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index e2640d6..862bb79 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -71,7 +71,7 @@ impl NumericDataType for u16 {
 }
 
 impl NumericDataType for u32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for u64 {
@@ -95,7 +95,7 @@ impl NumericDataType for i16 {
 }
 
 impl NumericDataType for i32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for i64 {
-- 
2.43.0


From e402f7cccdc99f1745d93ca5e459e9206bdde745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:02 +0000
Subject: [PATCH 20/25] fix: inhomogeneous nested data is rejected at every
 depth

Vectors only compared the shapes of their direct children, and the shape of a
child is read off its first element, so raggedness two levels down was missed
and the array could read past its buffer. Arrays of vectors were not checked.
---
 src/util/homogenous.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From 2898ab639ba2f0847899fec45a7bb48fbcf450d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:41 +0000
Subject: [PATCH 21/25] fix: arrays of vectors are flattened by value

The array impl of Flatten copied the memory of its items, so an array of vectors
gave the bytes of the vectors' headers as elements.
---
 src/util/flatten.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
-- 
2.43.0


From b5babf375566047d371946523eeeaae3a331d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:37 +0000
Subject: [PATCH 22/25] fix: einsum labels after an ellipsis take the length of
 their own axis

---
 src/linalg/einsum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..0c4dc3d 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -63,7 +63,7 @@ fn parse_operand_subscripts<A: StridedMemory>(subscripts: &str,
             }
 
             if first_occurrence[label as usize] == (MAX_DIMS + 3) as i8 {
-                first_occurrence[label as usize] = i as i8;
+                first_occurrence[label as usize] = axis as i8;
 
                 result[axis] = label as i8;
             } else {
@@ -72,8 +72,8 @@ fn parse_operand_subscripts<A: StridedMemory>(subscripts: &str,
 
             label_counts[label as usize] += 1;
             if label_counts[label as usize] == 1 {
-                label_dims[label as usize] = operand.shape()[i];
-            } else if label_dims[label as usize] != operand.shape()[i] {
+                label_dims[label as usize] = operand.shape()[axis];
+            } else if label_dims[label as usize] != operand.shape()[axis] {
                 panic!("the dimensions of axes corresponding to the same einsum label must match");
             }
         } else if label == b'.' {
-- 
2.43.0


From 4932d4d34fbc8471b5007f59307c438e1de3af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:37 +0000
Subject: [PATCH 23/25] fix: einsum rejects a number of subscripts that differs
 from the number of operands

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 0c4dc3d..f7b4aab 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires exactly one subscripts string per operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From 17f4a00672da9d14a70524a198c2cc880feda4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:37 +0000
Subject: [PATCH 24/25] fix: einsum no longer ignores the axes covered by an
 ellipsis

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index f7b4aab..e55b935 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -332,6 +332,10 @@ where
         max_broadcast_dims = max_broadcast_dims.max(broadcast_dims);
     }
 
+    if max_broadcast_dims != 0 {
+        panic!("broadcasting in einsum is currently unsupported");
+    }
+
     let output_dims = parse_output_subscripts(subscripts.1, &mut output_labels, max_broadcast_dims, &label_counts);
 
     *iter_ndims = output_dims;
-- 
2.43.0


From 66ad145832266d1bbe6fa4466d585646dd68dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:26 +0000
Subject: [PATCH 25/25] fix: einsum rejects output subscripts that end in an
 incomplete ellipsis

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index e55b935..f7a9cee 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -157,6 +157,10 @@ fn parse_output_subscripts(subscripts: &str,
         }
     }
 
+    if check_ellipsis {
+        panic!("einsum subscripts string contains '.' that is not part of an ellipsis ('..')");
+    }
+
     let ndims = subscripts.len();
     if found_ellipsis { (ndims - 2) + broadcast_dims } else { ndims }
 }
-- 
2.43.0

