From 8d768e10d30354708d056086451ba9a313a95f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 01/62] fix: dim_narrow follows python slice bounds for
 negative steps and empty slices

---
 rstsr-common/src/layout/indexer.rs | 71 +++++++-----------------------
 1 file changed, 17 insertions(+), 54 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index fdb4ef9..78a06d2 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -142,60 +142,23 @@ where
             return Ok(self.clone());
         }
 
-        if step > 0 {
-            // default start = 0 and stop = len_prev
-            let mut start = slice.start().unwrap_or(0);
-            let mut stop = slice.stop().unwrap_or(len_prev);
-
-            // handle negative slice
-            if start < 0 {
-                start = (len_prev + start).max(0);
-            }
-            if stop < 0 {
-                stop = (len_prev + stop).max(0);
-            }
-
-            if start > len_prev || start > stop {
-                // zero size slice caused by inproper start and stop
-                start = 0;
-                stop = 0;
-            } else if stop > len_prev {
-                // stop is out of bound, set it to len_prev
-                stop = len_prev;
-            }
-
-            let offset = (self.offset() as isize + stride[axis] * start) as usize;
-            shape[axis] = ((stop - start + step - 1) / step).max(0) as usize;
-            stride[axis] *= step;
-            return Self::new(shape, stride, offset);
-        } else {
-            // step < 0
-            // default start = len_prev - 1 and stop = -1
-            let mut start = slice.start().unwrap_or(len_prev - 1);
-            let mut stop = slice.stop().unwrap_or(-1);
-
-            // handle negative slice
-            if start < 0 {
-                start = (len_prev + start).max(0);
-            }
-            if stop < -1 {
-                stop = (len_prev + stop).max(-1);
-            }
-
-            if stop > len_prev - 1 || stop > start {
-                // zero size slice caused by inproper start and stop
-                start = 0;
-                stop = 0;
-            } else if start > len_prev - 1 {
-                // start is out of bound, set it to len_prev
-                start = len_prev - 1;
-            }
-
-            let offset = (self.offset() as isize + stride[axis] * start) as usize;
-            shape[axis] = ((stop - start + step + 1) / step).max(0) as usize;
-            stride[axis] *= step;
-            return Self::new(shape, stride, offset);
-        }
+        // bounds that start and stop are clipped to (convention of python's `slice.indices`)
+        let (lower, upper) = if step > 0 { (0, len_prev) } else { (-1, len_prev - 1) };
+        let clip = |v: isize| if v < 0 { (v + len_prev).max(lower) } else { v.min(upper) };
+        let (start_default, stop_default) = if step > 0 { (lower, upper) } else { (upper, lower) };
+        let start = slice.start().map_or(start_default, clip);
+        let stop = slice.stop().map_or(stop_default, clip);
+
+        // number of elements; zero size slice keeps the offset of the original layout
+        let len = match step > 0 {
+            true if start < stop => (stop - start - 1) / step + 1,
+            false if start > stop => (start - stop - 1) / -step + 1,
+            _ => 0,
+        };
+        let offset = if len == 0 { self.offset() } else { (self.offset() as isize + stride[axis] * start) as usize };
+        shape[axis] = len as usize;
+        stride[axis] *= step;
+        return Self::new(shape, stride, offset);
     }
 }
 
-- 
2.43.0


From 10cff32a1b87a805d356ab551fafda2a0d2006e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 02/62] fix: diagonal bounds a positive offset by the column
 count and rejects equal axes

---
 rstsr-common/src/layout/layoutbase.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 9f82be2..0b3e276 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -336,6 +336,7 @@ where
         let axis2 = axis2.unwrap_or(1);
         let axis1 = rstsr_check_axis!(axis1, self.ndim())?;
         let axis2 = rstsr_check_axis!(axis2, self.ndim())?;
+        rstsr_assert!(axis1 != axis2, InvalidValue, "Diagonal requires two different axes.")?;
 
         // shape and strides of last two dimensions
         let d1 = self.shape()[axis1] as isize;
@@ -354,7 +355,7 @@ where
             let offset_diag = (self.offset() as isize + t1 * offset) as usize;
             let d_diag = (d1 - offset).min(d2) as usize;
             (offset_diag, d_diag)
-        } else if (0..d1).contains(&offset) {
+        } else if (0..d2).contains(&offset) {
             let offset_diag = (self.offset() as isize + t2 * offset) as usize;
             let d_diag = (d2 - offset).min(d1) as usize;
             (offset_diag, d_diag)
-- 
2.43.0


From acc0a57d0f2240abb15dad8c1a8ff995754c57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 03/62] fix: reshape with a zero dimension and -1 is an error,
 not a division by zero

---
 rstsr-common/src/layout/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 525ac4f..903b801 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -140,7 +140,7 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
         let size_in = size_in as isize;
         let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
         rstsr_assert!(
-            size_in % size_neg == 0,
+            size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
             "Shape '-1' in {:?} could not be determined to original tensor size {:?}",
             shape,
-- 
2.43.0


From 520d611330285e559974f7d94de5d40244a4b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 04/62] fix: squeeze rejects any axis that is too negative

---
 rstsr-core/src/tensor/manipulation/squeeze.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/squeeze.rs b/rstsr-core/src/tensor/manipulation/squeeze.rs
index 52478fb..5edfe74 100644
--- a/rstsr-core/src/tensor/manipulation/squeeze.rs
+++ b/rstsr-core/src/tensor/manipulation/squeeze.rs
@@ -29,7 +29,7 @@ where
         _ => {
             let mut axes: Vec<isize> = axes.as_ref().iter().map(|&v| if v >= 0 { v } else { v + ndim }).collect();
             axes.sort_by(|a, b| b.cmp(a));
-            if axes.first().is_some_and(|&v| v < 0) {
+            if axes.last().is_some_and(|&v| v < 0) {
                 return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
             }
             // check no two axis are the same
-- 
2.43.0


From d1e564a72c9759c94a5f3dc08c50ed6370792386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 05/62] fix: indexed iterators yield the index of the back
 element in next_back

---
 rstsr-core/src/tensor/iterator_axes.rs | 24 ++++++++++++------------
 rstsr-core/src/tensor/iterator_elem.rs | 18 ++++++++++--------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index abe8825..7bc0ed7 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -355,14 +355,14 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        // index of the back element is available after stepping back
+        let offset = self.axes_iter.next_back()?;
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            (index, unsafe { transmute(self.view.view()) })
-        })
+        self.update_offset(offset);
+        Some((index, unsafe { transmute(self.view.view()) }))
     }
 }
 
@@ -533,14 +533,14 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        // index of the back element is available after stepping back
+        let offset = self.axes_iter.next_back()?;
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            unsafe { transmute((index, self.view.view_mut())) }
-        })
+        self.update_offset(offset);
+        Some(unsafe { transmute((index, self.view.view_mut())) })
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index c8703fb..1f4580d 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -209,11 +209,13 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        // index of the back element is available after stepping back
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, &self.view[offset]))
+        Some((index, &self.view[offset]))
     }
 }
 
@@ -309,13 +311,13 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        // index of the back element is available after stepping back
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter
-            .next_back()
-            .map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
+        Some((index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
     }
 }
 
-- 
2.43.0


From 203df6ce75ce699d03c69d9c2c77dfab9c18bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 06/62] fix: axes iterators report out-of-range axes as errors
 and accept an empty axis list

---
 rstsr-core/src/tensor/iterator_axes.rs | 32 +++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 7bc0ed7..91a480c 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -92,11 +92,11 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
+        // check no two axis are the same, and no index out of range
+        if axes_check.iter().any(|&v| v < 0 || v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some axis is out of range."));
         }
-        for i in 0..axes_check.len() - 1 {
+        for i in 0..axes_check.len().saturating_sub(1) {
             rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
@@ -247,11 +247,11 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
+        // check no two axis are the same, and no index out of range
+        if axes_check.iter().any(|&v| v < 0 || v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some axis is out of range."));
         }
-        for i in 0..axes_check.len() - 1 {
+        for i in 0..axes_check.len().saturating_sub(1) {
             rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
@@ -420,11 +420,11 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
+        // check no two axis are the same, and no index out of range
+        if axes_check.iter().any(|&v| v < 0 || v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some axis is out of range."));
         }
-        for i in 0..axes_check.len() - 1 {
+        for i in 0..axes_check.len().saturating_sub(1) {
             rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
@@ -592,11 +592,11 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
+        // check no two axis are the same, and no index out of range
+        if axes_check.iter().any(|&v| v < 0 || v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some axis is out of range."));
         }
-        for i in 0..axes_check.len() - 1 {
+        for i in 0..axes_check.len().saturating_sub(1) {
             rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
-- 
2.43.0


From ca01e3af3937939fe5ca52bfbcc362b3eff2679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 07/62] fix: index_select with no indices is valid on a
 zero-length axis

---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  | 2 +-
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 117084d..6df4237 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -24,7 +24,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index b0dd57d..526fb4c 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -29,7 +29,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
-- 
2.43.0


From 598c914cfe45f16d6a9c79916c31b99fd191f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 08/62] fix: reductions over or beside broadcast axes use the
 right extents and output offset

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 4 ++--
 rstsr-native-impl/src/cpu_serial/reduction.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 3182a57..c5b5624 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -159,7 +159,7 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -290,7 +290,7 @@ where
 
             it_o0.for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
-                    let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                    let idx_o0 = idx_o0 + idx_ocd - lo.offset(); // double-counted offset
 
                     // Safety: the c/d part without broadcast should have been initialized by reduced value
                     let val = unsafe { out[idx_ocd].assume_init_read().clone() };
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 3c5b6ee..0bb1ff9 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -223,7 +223,7 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -339,7 +339,7 @@ where
 
         it_o0.for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
-                let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                let idx_o0 = idx_o0 + idx_ocd - lo.offset(); // double-counted offset
 
                 // Safety: the c/d part without broadcast should have been initialized by reduced value
                 let val = unsafe { out[idx_ocd].assume_init_read().clone() };
-- 
2.43.0


From 77539d6c7085a476ac0385ea8c0e2ad996b8c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 09/62] fix: threaded arg-reduction over several axes keeps the
 axis order of the request

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index c5b5624..70b2bcf 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -531,7 +531,6 @@ where
 
     // split the layout into axes (to be summed) and the rest
     let (layout_axes, layout_rest) = la.dim_split_axes(axes)?;
-    let layout_axes = translate_to_col_major_unary(&layout_axes, TensorIterOrder::default())?;
 
     // generate layout for result (from layout_rest)
     let layout_out = layout_for_array_copy(&layout_rest, TensorIterOrder::default())?;
@@ -568,8 +567,7 @@ where
     };
     let out = unsafe { transmute::<Vec<MaybeUninit<IxD>>, Vec<IxD>>(out) };
     // returns (indices, layout_axes, layout_out): each index in `out` is an
-    // unraveled position within `layout_axes` (the reduced-axes space, possibly
-    // greedy-reordered by `translate_to_col_major_unary`), *not* within
+    // unraveled position within `layout_axes` (the reduced-axes space), *not* within
     // `layout_out`. Callers that ravel the indices must use `layout_axes.shape()`.
     Ok((out, layout_axes, layout_out))
 }
-- 
2.43.0


From 51e7b9639ae7f203fa3e430b60bdb7b2473c9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 10/62] fix: views of an empty tensor keep an offset inside the
 storage

---
 rstsr-common/src/layout/indexer.rs    | 10 +++++++---
 rstsr-common/src/layout/layoutbase.rs |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index 78a06d2..f325c64 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -149,13 +149,14 @@ where
         let start = slice.start().map_or(start_default, clip);
         let stop = slice.stop().map_or(stop_default, clip);
 
-        // number of elements; zero size slice keeps the offset of the original layout
+        // number of elements; zero size layout keeps the offset of the original layout
         let len = match step > 0 {
             true if start < stop => (stop - start - 1) / step + 1,
             false if start > stop => (start - stop - 1) / -step + 1,
             _ => 0,
         };
-        let offset = if len == 0 { self.offset() } else { (self.offset() as isize + stride[axis] * start) as usize };
+        let empty = len == 0 || self.size() == 0;
+        let offset = if empty { self.offset() } else { (self.offset() as isize + stride[axis] * start) as usize };
         shape[axis] = len as usize;
         stride[axis] *= step;
         return Self::new(shape, stride, offset);
@@ -203,7 +204,10 @@ where
                 // dimension to be selected
                 let idx = if index < 0 { d as isize + index } else { index };
                 rstsr_pattern!(idx, 0..d as isize, IndexError)?;
-                offset += s * idx;
+                // zero size layout keeps the offset, which may otherwise go out of the storage
+                if self.size() != 0 {
+                    offset += s * idx;
+                }
             } else {
                 // other dimensions
                 shape_new.push(d);
diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 0b3e276..2770490 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -362,6 +362,8 @@ where
         } else {
             (self.offset(), 0)
         };
+        // zero size layout keeps the offset, which may otherwise go out of the storage
+        let offset_diag = if self.size() == 0 { self.offset() } else { offset_diag };
 
         // build new layout
         let t_diag = t1 + t2;
-- 
2.43.0


From 3f31b087c05222aae98188892dc0ef5b67f42bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 11/62] fix: assign rejects a source that does not broadcast to
 the target

---
 rstsr-core/src/tensor/assignment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-core/src/tensor/assignment.rs b/rstsr-core/src/tensor/assignment.rs
index ec1ddd1..e6521c7 100644
--- a/rstsr-core/src/tensor/assignment.rs
+++ b/rstsr-core/src/tensor/assignment.rs
@@ -44,6 +44,7 @@ where
         let lb = b.layout().to_dim::<IxD>()?;
         let default_order = a.device().default_order();
         let (la_b, lb_b) = broadcast_layout_to_first(&la, &lb, default_order)?;
+        rstsr_assert_eq!(la_b, la, InvalidLayout)?;
         let la_b = la_b.into_dim::<DA>()?;
         let lb_b = lb_b.into_dim::<DA>()?;
         // assign
-- 
2.43.0


From 709ff8db9994a30d9c2f0d314062624766735ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 12/62] fix: reshape with copy=true checks the number of
 elements

---
 rstsr-core/src/tensor/manipulation/reshape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index bb09a10..8acff2e 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -124,10 +124,12 @@ where
     let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
     let ReshapeArgs { order, copy } = args.into();
     let order = order.unwrap_or(tensor.device().default_order());
+    // also checks that the new shape has the same number of elements
+    let layout_viewable = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)?;
 
     // rust 2021 does not allow chain if let
     if copy.is_none() || copy == Some(false) {
-        if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
+        if let Some(layout_new) = layout_viewable {
             // shape does not need to be changed
             let (storage, _) = tensor.into_raw_parts();
             let layout = layout_new.into_dim::<IxD>()?;
-- 
2.43.0


From eb48698b754ccb2067528df36ba0c0a6f19254bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 13/62] fix: taking ownership of shared data clones it instead
 of panicking

---
 rstsr-core/src/storage/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/storage/data.rs b/rstsr-core/src/storage/data.rs
index c68650e..77cfa40 100644
--- a/rstsr-core/src/storage/data.rs
+++ b/rstsr-core/src/storage/data.rs
@@ -348,7 +348,7 @@ where
 {
     #[inline]
     fn into_owned(self) -> DataOwned<Self::Data> {
-        DataOwned::from(Arc::try_unwrap(self.raw).ok().unwrap())
+        DataOwned::from(Arc::try_unwrap(self.raw).unwrap_or_else(|raw| (*raw).clone()))
     }
 
     #[inline]
-- 
2.43.0


From 9268d8c974f8e563cee2cb7ecfa16967fdbd097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 14/62] fix: signbit reports whether the sign bit is set

---
 rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs | 2 +-
 rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 5bf2e0d..255d365 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 5712062..3241689 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
-- 
2.43.0


From 4f13de78c5c9b017eb68830ba45d17ba195885bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 15/62] fix: splitting the iterator of a zero-size layout does
 not divide by zero

---
 rstsr-common/src/layout/iterator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1329ac6..7d5d851 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -90,7 +90,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_f(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_f(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
@@ -413,7 +416,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_c(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_c(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
-- 
2.43.0


From 288a0b86659d26ba19ff100ad115304fb18a521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 16/62] fix: IndexedIterLayout::next_back returns the index of
 the element it yields

---
 rstsr-common/src/layout/iterator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 7d5d851..28774a8 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -807,11 +807,13 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        // the end index is exclusive, so step back before reading it
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start.clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start.clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end.clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end.clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, offset))
+        Some((index, offset))
     }
 }
 
-- 
2.43.0


From 1e43d773b279c03ac62a794a76dd81b818926640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 17/62] fix: indexed_axes_iter_mut rejects orders without a
 well-defined index, as its siblings do

---
 rstsr-core/src/tensor/iterator_axes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 91a480c..c9c5d7a 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -581,6 +581,12 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
+        use TensorIterOrder::*;
+        // this function only accepts c/f iter order currently
+        match order {
+            C | F => (),
+            _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
+        };
         // convert axis to negative indexes and sort
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
         let axes: Vec<isize> = axes
-- 
2.43.0


From e7c73c2f5ee7a8897883c50402d859de004f839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 18/62] fix: reducing axes of a zero-size tensor neither panics
 nor reads a wrong element

---
 rstsr-native-impl/src/cpu_serial/reduction.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 0bb1ff9..5aba4f6 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -215,6 +215,13 @@ where
 
     // create output layout
     let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+
+    // no element to be reduced: every output (if any) is the reduction of the empty sequence
+    if la.size() == 0 {
+        let out = (0..lo.size()).map(|_| f_out(init())).collect();
+        return Ok((out, lo));
+    }
+
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
-- 
2.43.0


From 26dcef8db77044248ca26530a5af8a4b16d3637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 19/62] fix: reduction over broadcast remaining axes does not
 drop values it still holds

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 2 +-
 rstsr-native-impl/src/cpu_serial/reduction.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 70b2bcf..23e22fc 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -293,7 +293,7 @@ where
                     let idx_o0 = idx_o0 + idx_ocd - lo.offset(); // double-counted offset
 
                     // Safety: the c/d part without broadcast should have been initialized by reduced value
-                    let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                    let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                     out[idx_o0].write(val);
                 });
             });
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 5aba4f6..48e3ed6 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -349,7 +349,7 @@ where
                 let idx_o0 = idx_o0 + idx_ocd - lo.offset(); // double-counted offset
 
                 // Safety: the c/d part without broadcast should have been initialized by reduced value
-                let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                 out[idx_o0].write(val);
             });
         });
-- 
2.43.0


From 443a2c05bfcac9af06f0729adc165965547a2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 20/62] fix: reductions that keep broadcast axes next to
 contiguous ones succeed

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 17 ++++++-----------
 rstsr-native-impl/src/cpu_serial/reduction.rs | 17 ++++++-----------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 23e22fc..da280f8 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -164,6 +164,10 @@ where
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
 
+    // the contiguous part of input is contiguous in output, unless broadcast axes got in between
+    let amc_isize = amc.iter().map(|&i| i as isize).collect_vec();
+    let out_contig = lo.dim_split_axes(&amc_isize)?.0.f_contig();
+
     let mut task = || -> Result<()> {
         if size_sc > 1 {
             // contiguous parts to be summed, call unrolled_reduce for inner reduce
@@ -196,7 +200,7 @@ where
                     (*ptr_out_ocd).write(f_out(acc));
                 }
             });
-        } else if size_mc > 1 {
+        } else if size_mc > 1 && out_contig {
             // contiguous parts to be remains, but other parts to be summed
             let ascd = asc.iter().chain(asd.iter()).map(|&i| i as isize).collect_vec();
             let (lscd, _) = ls.dim_split_axes(&ascd)?;
@@ -208,15 +212,6 @@ where
             let it_md = IterLayoutColMajor::new(&lmd)?;
             let it_od = IterLayoutColMajor::new(&lod)?;
 
-            // double check the contigous of output layout
-            let amc = amc.iter().map(|&i| i as isize).collect_vec();
-            let (loc, _) = lo.dim_split_axes(&amc)?;
-            rstsr_assert!(
-                loc.f_contig(),
-                RuntimeError,
-                "probably internal bug: the contiguous part of input must be the same applied to output"
-            )?;
-
             // iterate the discontiguous remain parts
             it_md.into_par_iter().zip(it_od).for_each(|(i_md, i_od)| {
                 // initialize sequential parts
@@ -248,7 +243,7 @@ where
             });
         } else {
             // no contiguous part, just iterate the whole layout with simple fold
-            let amd = amd.iter().map(|&i| i as isize).collect_vec();
+            let amd = amc.iter().chain(amd.iter()).map(|&i| i as isize).collect_vec();
             let (lmd, _) = lm.dim_split_axes(&amd)?;
             let (lod, _) = lo.dim_split_axes(&amd)?;
             let it_md = IterLayoutColMajor::new(&lmd)?;
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 48e3ed6..eca094d 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -235,6 +235,10 @@ where
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
 
+    // the contiguous part of input is contiguous in output, unless broadcast axes got in between
+    let amc_isize = amc.iter().map(|&i| i as isize).collect_vec();
+    let out_contig = lo.dim_split_axes(&amc_isize)?.0.f_contig();
+
     if size_sc > 1 {
         // contiguous parts to be summed, call unrolled_reduce for inner reduce
         let amcd = amc.iter().chain(amd.iter()).map(|&i| i as isize).collect_vec();
@@ -261,7 +265,7 @@ where
             }
             out[i_ocd].write(f_out(acc));
         });
-    } else if size_mc > 1 {
+    } else if size_mc > 1 && out_contig {
         // contiguous parts to be remains, but other parts to be summed
         let ascd = asc.iter().chain(asd.iter()).map(|&i| i as isize).collect_vec();
         let (lscd, _) = ls.dim_split_axes(&ascd)?;
@@ -273,15 +277,6 @@ where
         let it_md = IterLayoutColMajor::new(&lmd)?;
         let it_od = IterLayoutColMajor::new(&lod)?;
 
-        // double check the contigous of output layout
-        let amc = amc.iter().map(|&i| i as isize).collect_vec();
-        let (loc, _) = lo.dim_split_axes(&amc)?;
-        rstsr_assert!(
-            loc.f_contig(),
-            RuntimeError,
-            "probably internal bug: the contiguous part of input must be the same applied to output"
-        )?;
-
         // iterate the discontiguous remain parts
         it_md.zip(it_od).for_each(|(i_md, i_od)| {
             // initialize sequential parts
@@ -311,7 +306,7 @@ where
         });
     } else {
         // no contiguous part, just iterate the whole layout with simple fold
-        let amd = amd.iter().map(|&i| i as isize).collect_vec();
+        let amd = amc.iter().chain(amd.iter()).map(|&i| i as isize).collect_vec();
         let (lmd, _) = lm.dim_split_axes(&amd)?;
         let (lod, _) = lo.dim_split_axes(&amd)?;
         let it_md = IterLayoutColMajor::new(&lmd)?;
-- 
2.43.0


From b17e89a9ad0914e3bcd533adaf08cefd5a2d03bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:17 +0000
Subject: [PATCH 21/62] fix: vecdot over zero-size contracted axes gives zeros
 instead of panicking

---
 rstsr-native-impl/src/cpu_rayon/vecdot.rs  | 4 ++--
 rstsr-native-impl/src/cpu_serial/vecdot.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index b158a00..62c0184 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -60,7 +60,7 @@ where
             break;
         }
     }
-    let flag_contig_s = !asc.is_empty();
+    let flag_contig_s = !asc.is_empty() && las.size() != 0 && lc.size() != 0;
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
     let (_, _, amc_a, _) = get_axes_composition(&lam);
@@ -73,7 +73,7 @@ where
             break;
         }
     }
-    let flag_contig_m = !amc.is_empty();
+    let flag_contig_m = !amc.is_empty() && las.size() != 0 && lc.size() != 0;
 
     // offset of layouts
     let offset_a = la.offset();
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index c5b8a34..ad5d38c 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -52,7 +52,7 @@ where
             break;
         }
     }
-    let flag_contig_s = !asc.is_empty();
+    let flag_contig_s = !asc.is_empty() && las.size() != 0 && lc.size() != 0;
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
     let (_, _, amc_a, _) = get_axes_composition(&lam);
@@ -65,7 +65,7 @@ where
             break;
         }
     }
-    let flag_contig_m = !amc.is_empty();
+    let flag_contig_m = !amc.is_empty() && las.size() != 0 && lc.size() != 0;
 
     // offset of layouts
     let offset_a = la.offset();
-- 
2.43.0


From 062848fdc8a7df8796adea7e4adfe5dedbf0539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:17 +0000
Subject: [PATCH 22/62] fix: threaded vecdot with a broadcast output does not
 race on shared elements

---
 rstsr-native-impl/src/cpu_rayon/vecdot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index 62c0184..e4dca3b 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -28,7 +28,8 @@ where
     TA: Mul<TB, Output = TC>,
     TA: ExtNum,
 {
-    if la.size().max(lb.size()) < PARALLEL_SWITCH || pool.is_none() {
+    // broadcast output (stride 0) maps several tasks to the same memory, which must not be written in parallel
+    if la.size().max(lb.size()) < PARALLEL_SWITCH || pool.is_none() || lc.is_broadcasted() {
         return vecdot_naive_cpu_serial(c, lc, a, la, b, lb, axes_a, axes_b, order);
     }
 
-- 
2.43.0


From 66ddc145e167f328517d7321bf68b58400cd01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 23/62] fix: naive matmul does not read the output when beta is
 zero

---
 .../src/device_cpu_serial/linalg/matmul.rs    |  3 +-
 .../src/cpu_rayon/matmul_naive.rs             |  4 +--
 .../src/cpu_serial/matmul_naive.rs            | 34 ++++++++++++++-----
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
index 40e4e0a..4ece3e5 100644
--- a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
+++ b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
@@ -5,12 +5,13 @@
 use core::ops::{Add, Mul};
 
 use crate::prelude_dev::*;
+use num::Zero;
 
 impl<TA, TB, TC, DA, DB, DC> DeviceMatMulAPI<TA, TB, TC, DA, DB, DC> for DeviceCpuSerial
 where
     TA: Clone,
     TB: Clone,
-    TC: Clone,
+    TC: Clone + Zero,
     DA: DimAPI,
     DB: DimAPI,
     DC: DimAPI,
diff --git a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
index 828661a..56cfc0b 100644
--- a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
@@ -39,7 +39,7 @@ where
         (0..n).into_par_iter().for_each(|j| {
             (0..m).into_par_iter().for_each(|i| unsafe {
                 let ptr_c = c.as_ptr().offset(lc.index_uncheck(&[i, j])) as *mut TC;
-                *ptr_c = (*ptr_c).clone() * beta.clone()
+                *ptr_c = scale_by_beta(&beta, &*ptr_c)
                     + (0..k).fold(TC::zero(), |acc, p| {
                         let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
                         let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
@@ -88,6 +88,6 @@ where
             .unwrap_or(TC::zero())
     };
     let c_innerdot = pool.map_or_else(task, |pool| pool.install(task));
-    *c = c_innerdot * alpha + c.clone() * beta;
+    *c = c_innerdot * alpha + scale_by_beta(&beta, c);
     Ok(())
 }
diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index 95e805c..b5afc05 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -4,6 +4,22 @@
 
 use crate::prelude_dev::*;
 use core::ops::{Add, Mul};
+use num::Zero;
+
+/// Scales `c` by `beta`.
+///
+/// `c` may be uninitialized or contain non-finite values if `beta` is zero (BLAS convention), so its
+/// value must not be used in that case.
+pub(crate) fn scale_by_beta<TC>(beta: &TC, c: &TC) -> TC
+where
+    TC: Clone + Zero + Mul<TC, Output = TC>,
+{
+    if beta.is_zero() {
+        TC::zero()
+    } else {
+        beta.clone() * c.clone()
+    }
+}
 
 #[allow(clippy::too_many_arguments)]
 pub fn matmul_naive_cpu_serial<TA, TB, TC, DA, DB, DC>(
@@ -19,7 +35,7 @@ pub fn matmul_naive_cpu_serial<TA, TB, TC, DA, DB, DC>(
 where
     TA: Clone,
     TB: Clone,
-    TC: Clone,
+    TC: Clone + Zero,
     DA: DimAPI,
     DB: DimAPI,
     DC: DimAPI,
@@ -88,7 +104,7 @@ pub fn gemm_naive_cpu_serial<TA, TB, TC>(
 where
     TA: Clone,
     TB: Clone,
-    TC: Clone,
+    TC: Clone + Zero,
     TA: Mul<TB, Output = TC>,
     TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
 {
@@ -106,7 +122,7 @@ where
         for i_m in 0..m {
             for i_n in 0..n {
                 let idx_c = lc.index_uncheck(&[i_m, i_n]) as usize;
-                c[idx_c] = beta.clone() * c[idx_c].clone();
+                c[idx_c] = scale_by_beta(&beta, &c[idx_c]);
             }
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_m, i_k]) as usize;
@@ -135,7 +151,7 @@ pub fn gemv_naive_cpu_serial<TA, TB, TC>(
 where
     TA: Clone,
     TB: Clone,
-    TC: Clone,
+    TC: Clone + Zero,
     TA: Mul<TB, Output = TC>,
     TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
 {
@@ -151,7 +167,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = scale_by_beta(&beta, &c[idx_c]);
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_n, i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k]) as usize;
@@ -176,7 +192,7 @@ pub fn gevm_naive_cpu_serial<TA, TB, TC>(
 where
     TA: Clone,
     TB: Clone,
-    TC: Clone,
+    TC: Clone + Zero,
     TA: Mul<TB, Output = TC>,
     TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
 {
@@ -192,7 +208,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = scale_by_beta(&beta, &c[idx_c]);
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k, i_n]) as usize;
@@ -217,7 +233,7 @@ pub fn inner_dot_naive_cpu_serial<TA, TB, TC>(
 where
     TA: Clone,
     TB: Clone,
-    TC: Clone,
+    TC: Clone + Zero,
     TA: Mul<TB, Output = TC>,
     TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
 {
@@ -230,7 +246,7 @@ where
     // naive iteration
     unsafe {
         let idx_c = lc.index_uncheck(&[]) as usize;
-        let mut sum = beta * c[idx_c].clone();
+        let mut sum = scale_by_beta(&beta, &c[idx_c]);
         for i in 0..n {
             let idx_a = la.index_uncheck(&[i]) as usize;
             let idx_b = lb.index_uncheck(&[i]) as usize;
-- 
2.43.0


From af91cf48e58995a2737e71bb94f9b3e887558846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 24/62] fix: naive inner dot writes to the offset of its output

---
 rstsr-native-impl/src/cpu_serial/matmul_naive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index b5afc05..614836e 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -252,7 +252,7 @@ where
             let idx_b = lb.index_uncheck(&[i]) as usize;
             sum = sum + alpha.clone() * (a[idx_a].clone() * b[idx_b].clone());
         }
-        c[0] = sum;
+        c[idx_c] = sum;
     }
     Ok(())
 }
-- 
2.43.0


From 34b8e12759b209b53bbdf8a695577830c9a760c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:31 +0000
Subject: [PATCH 25/62] fix: matmul into an output of another batch shape does
 not silently compute a part of it

---
 rstsr-common/src/layout/matmul.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9731e12..9575c1f 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -330,11 +330,12 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
             let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
+            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEVM,
                 lc: lc.clone(),
                 la_rest: Some(la_rest),
-                lb_rest: Some(lb_r),
+                lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m.dim_insert(0)?,
                 lb_matmul: lb_m,
@@ -347,11 +348,12 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-1)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
+            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
             let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMV,
                 lc: lc.clone(),
-                la_rest: Some(la_r),
+                la_rest: Some(la_rest),
                 lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m,
@@ -366,11 +368,12 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
             let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
+            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMM2X,
                 lc: lc.clone(),
                 la_rest: Some(la_rest),
-                lb_rest: Some(lb_r),
+                lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m,
                 lb_matmul: lb_m,
@@ -383,11 +386,12 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
+            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
             let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMMX2,
                 lc: lc.clone(),
-                la_rest: Some(la_r),
+                la_rest: Some(la_rest),
                 lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m,
-- 
2.43.0


From d15abe1e36c43f4d8b4f8b650fff57b4e2600c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:31 +0000
Subject: [PATCH 26/62] fix: batched matmul broadcasts operands with different
 numbers of batch axes

---
 rstsr-common/src/layout/matmul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9575c1f..1a27a33 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -401,8 +401,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
         },
         (3.., 3..) => {
             // rule 7: | `..., M, K` | `..., K, N` | `..., M, N` |
-            rstsr_assert_eq!(na, nc, InvalidLayout)?;
-            rstsr_assert_eq!(nb, nc, InvalidLayout)?;
+            // (number of batch dims may differ, it is broadcasted)
+            rstsr_assert_eq!(na.max(nb), nc, InvalidLayout)?;
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-- 
2.43.0


From 2042b51762cc7937cc51c300cf2300a97264f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 27/62] fix: matmul refuses an output whose batch axes are
 shorter than the operands'

---
 rstsr-common/src/layout/matmul.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 1a27a33..3f40c23 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -271,6 +271,15 @@ fn layout_matmul_dyn_row_major(la: &Layout<IxD>, lb: &Layout<IxD>) -> Result<Lay
     }
 }
 
+/// Broadcast the batch (`rest`) layout of an operand to that of the output.
+///
+/// The output is never broadcasted itself: its batch shape must be able to hold the operand's.
+fn broadcast_rest_to_lc(lc_rest: &Layout<IxD>, rest: &Layout<IxD>) -> Result<Layout<IxD>> {
+    let (lc_rest_b, rest_b) = broadcast_layout_to_first(lc_rest, rest, RowMajor)?;
+    rstsr_assert_eq!(lc_rest_b.shape(), lc_rest.shape(), InvalidLayout, "batch shape of output is not large enough")?;
+    Ok(rest_b)
+}
+
 /// Resolve matmul layouts against a caller-provided `lc`.
 ///
 /// Unlike [`layout_matmul_dyn_row_major`], which *constructs* `lc` from `la`
@@ -329,8 +338,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-1)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEVM,
                 lc: lc.clone(),
@@ -348,8 +357,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-1)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMV,
                 lc: lc.clone(),
@@ -367,8 +376,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMM2X,
                 lc: lc.clone(),
@@ -386,8 +395,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMMX2,
                 lc: lc.clone(),
@@ -407,8 +416,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
             // both A and B batch dims broadcast against C's batch dims
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMMXX,
                 lc: lc.clone(),
-- 
2.43.0


From 4ef73ef1df25cc96474659d913f27d80662e0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 28/62] fix: concat and diag of elements that own memory do not
 drop uninitialised values

---
 rstsr-core/src/tensor/creation_from_tensor.rs | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 1f98fc5..49c0a57 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -69,10 +69,11 @@ where
             let layout_diag = layout.diagonal(Some(offset), Some(0), Some(1))?;
             let size = layout_diag.size();
             let device = tensor.device();
-            let mut result = unsafe { empty_f(([size], device))? };
-            let layout_result = result.layout().to_dim()?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
-            return Ok(result);
+            let mut storage = device.uninit_impl(size)?;
+            let layout_result = [size].c();
+            device.assign_uninit(storage.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
+            let storage = unsafe { B::assume_init_impl(storage)? };
+            return Tensor::new_f(storage, layout_result.into_dim()?);
         } else {
             return rstsr_raise!(InvalidLayout, "diag only support 1-D or 2-D tensor.");
         }
@@ -369,20 +370,22 @@ where
         shape_other.insert(axis, new_axis_size);
         let new_shape = shape_other;
 
-        // create the result tensor
-        let mut result = unsafe { empty_f((new_shape, &device))? };
+        // create the result storage
+        let layout = new_shape.new_contig(None, device.default_order());
+        let mut storage = device.uninit_impl(layout.size())?;
 
-        // assign each tensor to the result tensor
+        // assign each tensor to its part of the result storage
         let mut offset = 0;
         for tensor in tensors {
-            let layout = tensor.layout().to_dim::<IxD>()?;
+            let layout_tensor = tensor.layout().to_dim::<IxD>()?;
             let axis_size = tensor.shape()[axis];
-            let layout_result = result.layout().dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout)?;
+            let layout_result = layout.dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
+            device.assign_uninit(storage.raw_mut(), &layout_result, tensor.raw(), &layout_tensor)?;
             offset += axis_size;
         }
 
-        Ok(result)
+        let storage = unsafe { B::assume_init_impl(storage)? };
+        Tensor::new_f(storage, layout)
     }
 }
 
-- 
2.43.0


From 647c2f94bcdca693f180ac3dea3683f6801cba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:19 +0000
Subject: [PATCH 29/62] fix: triu with tall matrices and large diagonals

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index ec46cfe..beb0fa1 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -541,7 +541,7 @@ where
 {
     let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_start = (i as isize + k + 1).max(0) as usize;
+        let j_start = (i as isize + 1).saturating_add(k).max(0) as usize;
         for j in j_start..ncol {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
@@ -573,9 +573,9 @@ pub fn triu_ix2_cpu_serial<T>(raw: &mut [T], layout: &Layout<Ix2>, k: isize) ->
 where
     T: Num + Clone,
 {
-    let [nrow, _] = *layout.shape();
+    let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = (i as isize + k).max(0) as usize;
+        let j_end = ((i as isize).saturating_add(k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From 26717142e00cf18a7814f6d8b5fa204e204be31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:19 +0000
Subject: [PATCH 30/62] fix: unpack_tri without symmetry fills the other
 triangle with zeros

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index beb0fa1..a8cd299 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -210,6 +210,9 @@ pub fn inner_unpack_tril_c_contig<T>(
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
                 }
+                for j in (i + 1)..n {
+                    a[i * n + j].write(T::zero());
+                }
             }
         },
     }
@@ -290,6 +293,10 @@ pub fn inner_unpack_tril_general<T>(
                     a[loc_a_ij].write(b[loc_b]);
                     idx_b += 1;
                 }
+                for j in (i + 1)..n {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
             }
         },
     }
@@ -352,6 +359,9 @@ pub fn inner_unpack_triu_c_contig<T>(
         },
         FlagSymm::N => {
             for i in 0..n {
+                for j in 0..i {
+                    a[i * n + j].write(T::zero());
+                }
                 for j in i..n {
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
@@ -430,6 +440,10 @@ pub fn inner_unpack_triu_general<T>(
         },
         FlagSymm::N => {
             for i in 0..n {
+                for j in 0..i {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
                 for j in i..n {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                     let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
-- 
2.43.0


From 3ee137b6d3265ed483a839a72e67d77d45639dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:47 +0000
Subject: [PATCH 31/62] fix: unpack_tri of anti-hermitian matrices keeps the
 imaginary diagonal

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 24 +++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index a8cd299..7adc611 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -1,6 +1,6 @@
 use crate::prelude_dev::*;
 use num::complex::ComplexFloat;
-use num::Num;
+use num::{Num, Zero};
 
 /* #region pack tri */
 
@@ -149,6 +149,18 @@ where
 
 /* #region unpack tri */
 
+/// Diagonal of anti-hermitian matrix, which keeps only the imaginary part.
+#[inline]
+fn anti_hermitian_diag<T>(v: T) -> T
+where
+    T: ComplexFloat,
+{
+    match v.im().is_zero() {
+        true => T::zero(),
+        false => (v - v.conj()) / (T::one() + T::one()),
+    }
+}
+
 #[inline]
 pub fn inner_unpack_tril_c_contig<T>(
     a: &mut [MaybeUninit<T>],
@@ -200,7 +212,7 @@ pub fn inner_unpack_tril_c_contig<T>(
                     a[j * n + i].write(-b[idx_b].conj());
                     idx_b += 1;
                 }
-                a[i * n + i].write(T::zero());
+                a[i * n + i].write(anti_hermitian_diag(b[idx_b]));
                 idx_b += 1;
             }
         },
@@ -280,8 +292,9 @@ pub fn inner_unpack_tril_general<T>(
                     a[loc_a_ji].write(-b[loc_b].conj());
                     idx_b += 1;
                 }
+                let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                 let loc_a_ii = unsafe { la.index_uncheck(&[i, i]) } as usize;
-                a[loc_a_ii].write(T::zero());
+                a[loc_a_ii].write(anti_hermitian_diag(b[loc_b]));
                 idx_b += 1;
             }
         },
@@ -348,7 +361,7 @@ pub fn inner_unpack_triu_c_contig<T>(
         },
         FlagSymm::Ah => {
             for i in 0..n {
-                a[i * n + i].write(T::zero());
+                a[i * n + i].write(anti_hermitian_diag(b[idx_b]));
                 idx_b += 1;
                 for j in (i + 1)..n {
                     a[i * n + j].write(b[idx_b]);
@@ -425,8 +438,9 @@ pub fn inner_unpack_triu_general<T>(
         },
         FlagSymm::Ah => {
             for i in 0..n {
+                let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                 let loc_a_ii = unsafe { la.index_uncheck(&[i, i]) } as usize;
-                a[loc_a_ii].write(T::zero());
+                a[loc_a_ii].write(anti_hermitian_diag(b[loc_b]));
                 idx_b += 1;
                 for j in (i + 1)..n {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
-- 
2.43.0


From 211a5e90ee80c4892a8632ed2b0e823b063e24ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:47 +0000
Subject: [PATCH 32/62] fix: pack_tri and unpack_tri of zero-size tensors

---
 rstsr-core/src/tensor/operators/op_tri.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/operators/op_tri.rs b/rstsr-core/src/tensor/operators/op_tri.rs
index 1c9fb63..ec11e87 100644
--- a/rstsr-core/src/tensor/operators/op_tri.rs
+++ b/rstsr-core/src/tensor/operators/op_tri.rs
@@ -65,7 +65,9 @@ where
         // device alloc and compute
         let device = self.device();
         let mut storage_a = device.uninit_impl(la.bounds_index()?.1)?;
-        device.pack_tri(storage_a.raw_mut(), &la, self.raw(), &lb, uplo)?;
+        if la.size() > 0 {
+            device.pack_tri(storage_a.raw_mut(), &la, self.raw(), &lb, uplo)?;
+        }
         let storage_a = unsafe { B::assume_init_impl(storage_a)? };
         Tensor::new_f(storage_a, la.into_dim()?)
     }
@@ -156,7 +158,9 @@ where
         // device alloc and compute
         let device = self.device();
         let mut storage_a = device.uninit_impl(la.bounds_index()?.1)?;
-        device.unpack_tri(storage_a.raw_mut(), &la, self.raw(), &lb, uplo, symm)?;
+        if la.size() > 0 {
+            device.unpack_tri(storage_a.raw_mut(), &la, self.raw(), &lb, uplo, symm)?;
+        }
         let storage_a = unsafe { B::assume_init_impl(storage_a)? };
         Tensor::new_f(storage_a, la.into_dim()?)
     }
-- 
2.43.0


From 0e6278c316d6cfd79c979f8fa23a261b31f76157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:39 +0000
Subject: [PATCH 33/62] fix: tril and triu of owned tensors whose elements
 share memory

---
 rstsr-core/src/tensor/creation.rs | 42 ++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index d14de47..716398c 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -1541,12 +1541,23 @@ impl<T, D, B> TrilAPI<()> for (Tensor<T, B, D>, isize)
 where
     T: Num + Clone,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationTriAPI<T> + DeviceCreationAnyAPI<T>,
+    B: DeviceAPI<T>
+        + DeviceRawAPI<MaybeUninit<T>>
+        + DeviceCreationTriAPI<T>
+        + DeviceCreationAnyAPI<T>
+        + OpAssignArbitaryAPI<T, D, D>
+        + OpAssignAPI<T, D>,
+    <B as DeviceRawAPI<T>>::Raw: Clone,
 {
     type Out = Tensor<T, B, D>;
 
     fn tril_f(self) -> Result<Self::Out> {
         let (mut x, k) = self;
+        if x.layout().is_broadcasted() {
+            // elements that share memory can not be zeroed one by one
+            let default_order = x.device().default_order();
+            x = x.into_contig_f(default_order)?;
+        }
         let device = x.device().clone();
         let layout = x.layout().clone();
         device.tril_impl(x.raw_mut(), &layout, k)?;
@@ -1558,7 +1569,13 @@ impl<T, D, B> TrilAPI<()> for Tensor<T, B, D>
 where
     T: Num + Clone,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationTriAPI<T> + DeviceCreationAnyAPI<T>,
+    B: DeviceAPI<T>
+        + DeviceRawAPI<MaybeUninit<T>>
+        + DeviceCreationTriAPI<T>
+        + DeviceCreationAnyAPI<T>
+        + OpAssignArbitaryAPI<T, D, D>
+        + OpAssignAPI<T, D>,
+    <B as DeviceRawAPI<T>>::Raw: Clone,
 {
     type Out = Tensor<T, B, D>;
 
@@ -1730,12 +1747,23 @@ impl<T, D, B> TriuAPI<()> for (Tensor<T, B, D>, isize)
 where
     T: Num + Clone,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationTriAPI<T> + DeviceCreationAnyAPI<T>,
+    B: DeviceAPI<T>
+        + DeviceRawAPI<MaybeUninit<T>>
+        + DeviceCreationTriAPI<T>
+        + DeviceCreationAnyAPI<T>
+        + OpAssignArbitaryAPI<T, D, D>
+        + OpAssignAPI<T, D>,
+    <B as DeviceRawAPI<T>>::Raw: Clone,
 {
     type Out = Tensor<T, B, D>;
 
     fn triu_f(self) -> Result<Self::Out> {
         let (mut x, k) = self;
+        if x.layout().is_broadcasted() {
+            // elements that share memory can not be zeroed one by one
+            let default_order = x.device().default_order();
+            x = x.into_contig_f(default_order)?;
+        }
         let device = x.device().clone();
         let layout = x.layout().clone();
         device.triu_impl(x.raw_mut(), &layout, k)?;
@@ -1747,7 +1775,13 @@ impl<T, D, B> TriuAPI<()> for Tensor<T, B, D>
 where
     T: Num + Clone,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationTriAPI<T> + DeviceCreationAnyAPI<T>,
+    B: DeviceAPI<T>
+        + DeviceRawAPI<MaybeUninit<T>>
+        + DeviceCreationTriAPI<T>
+        + DeviceCreationAnyAPI<T>
+        + OpAssignArbitaryAPI<T, D, D>
+        + OpAssignAPI<T, D>,
+    <B as DeviceRawAPI<T>>::Raw: Clone,
 {
     type Out = Tensor<T, B, D>;
 
-- 
2.43.0


From 63d6cf6b46b46e2625a6d21e0d623cccc1709e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 34/62] fix: matmul into an empty batch did not check the
 contracted axes

---
 rstsr-common/src/layout/matmul.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 3f40c23..20391cf 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -301,6 +301,11 @@ pub fn layout_matmul_dyn_row_major_with_lc(
     let na = la.ndim();
     let nb = lb.ndim();
     let nc = lc.ndim();
+    // contracted axes must match, also when there is nothing to compute
+    if na > 0 && nb > 0 {
+        let axis_b = if nb == 1 { 0 } else { nb - 2 };
+        rstsr_assert_eq!(la.shape()[na - 1], lb.shape()[axis_b], InvalidLayout)?;
+    }
     match (na, nb) {
         (1, 1) => {
             // rule 1: vector inner dot
-- 
2.43.0


From 00ac587fb33fcba393901e96d01acf0a76ac57eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 35/62] fix: arange against the direction of its step did not
 end, small integers overflowed or ignored negative steps

---
 rstsr-native-impl/src/cpu_rayon/creation.rs  |  2 +-
 rstsr-native-impl/src/cpu_serial/creation.rs | 22 ++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 159e7d6..6170381 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -96,7 +96,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 1663436..4227e8c 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -11,9 +11,23 @@ where
     // This is serial implementation and low performance
     let mut result = Vec::new();
     let mut current = start;
-    while current < end {
-        result.push(current.clone());
-        current = current + step.clone();
+    if current < end {
+        // step in the wrong direction gives an empty interval
+        if !(current.clone() + step.clone() > current) {
+            return result;
+        }
+        while current < end {
+            result.push(current.clone());
+            current = current + step.clone();
+        }
+    } else if current > end {
+        if !(current.clone() + step.clone() < current) {
+            return result;
+        }
+        while current > end {
+            result.push(current.clone());
+            current = current + step.clone();
+        }
     }
     result
 }
@@ -101,7 +115,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
-- 
2.43.0


From 06532cd9090c42896b81acfc5a8956ba5e296c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 36/62] fix: full with a layout that is not contiguous or has
 an offset allocated too few elements

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index 716398c..03140fd 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -543,7 +543,7 @@ where
 
     fn full_f(self) -> Result<Self::Out> {
         let (layout, fill, device) = self;
-        let idx_max = layout.size();
+        let (_, idx_max) = layout.bounds_index()?;
         let storage = device.full_impl(idx_max, fill)?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
     }
-- 
2.43.0


From 195e0fdb01e2e5c75148a6b758fc0d43bcbd1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 37/62] fix: eye in column-major order swapped the numbers of
 rows and columns

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index 03140fd..f88c991 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -417,7 +417,7 @@ where
         let (n_rows, n_cols, k, order, device) = self;
         let layout = match order {
             RowMajor => [n_rows, n_cols].c(),
-            ColMajor => [n_cols, n_rows].f(),
+            ColMajor => [n_rows, n_cols].f(),
         };
         let mut storage = device.zeros_impl(layout.size())?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
-- 
2.43.0


From 827d2d0bbaa3c83f36f156c94e4a3d86c453e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:07 +0000
Subject: [PATCH 38/62] fix: weighted correlation distance takes weighted means

---
 rstsr-sci-traits/src/distance/metric.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/metric.rs b/rstsr-sci-traits/src/distance/metric.rs
index 8868505..9d060b2 100644
--- a/rstsr-sci-traits/src/distance/metric.rs
+++ b/rstsr-sci-traits/src/distance/metric.rs
@@ -770,11 +770,13 @@ where
         let mut means_u = vec![T::zero(); m];
         let mut means_v = vec![T::zero(); n];
 
+        let weights_sum = weights.iter().fold(T::zero(), |acc, &w| acc + w);
+
         means_u.iter_mut().zip(norms_u.iter_mut()).enumerate().for_each(|(i, (mean_u, norm_u))| {
             *mean_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_u) * (val - *mean_u)
@@ -785,8 +787,8 @@ where
         means_v.iter_mut().zip(norms_v.iter_mut()).enumerate().for_each(|(i, (mean_v, norm_v))| {
             *mean_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_v) * (val - *mean_v)
-- 
2.43.0


From f8457c460c982808898df955b969a45ca873c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:07 +0000
Subject: [PATCH 39/62] fix: pairwise distances of rows without columns

---
 rstsr-sci-traits/src/distance/native_impl.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index 551ccaf..55ebaf4 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -34,9 +34,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements must not be sliced: their offset may be out of range
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -105,9 +106,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements must not be sliced: their offset may be out of range
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
@@ -192,9 +194,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements must not be sliced: their offset may be out of range
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -276,9 +279,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements must not be sliced: their offset may be out of range
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
-- 
2.43.0


From 50e8dca322bb67d1820db4e36feca46f690fd497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:07 +0000
Subject: [PATCH 40/62] fix: pairwise distances refuse weights of another
 length than the rows

---
 rstsr-sci-traits/src/distance/native_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index 55ebaf4..c5f917f 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -97,6 +97,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights must match the number of columns.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -270,6 +271,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights must match the number of columns.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
-- 
2.43.0


From da6ba2897eb07f56f0d4662ca521a67a8bb43f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:24 +0000
Subject: [PATCH 41/62] fix: gesvd driver with row-major matrices

The workspace query passed row-major leading dimensions, and the results
were transposed back with the routine for the other direction.
---
 .../driver_impl/lapack/svd/gesvd.rs           | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
index c727412..994d601 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
@@ -41,12 +41,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a,
-            &(lda as _),
+            &(m.max(n).max(1) as _),
             s,
             u,
-            &(ldu as _),
+            &(m.max(n).max(1) as _),
             vt,
-            &(ldvt as _),
+            &(m.max(n).max(1) as _),
             &mut work_query,
             &lwork,
             &mut info,
@@ -153,20 +153,20 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
@@ -220,12 +220,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a as *mut _,
-            &(lda as _),
+            &(m.max(n).max(1) as _),
             s as *mut _,
             u as *mut _,
-            &(ldu as _),
+            &(m.max(n).max(1) as _),
             vt as *mut _,
-            &(ldvt as _),
+            &(m.max(n).max(1) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             rwork.as_mut_ptr() as *mut _,
@@ -335,20 +335,20 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
-- 
2.43.0


From 9a82359db395babaa5f8b536ee331e19a8c5aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:24 +0000
Subject: [PATCH 42/62] fix: LAPACK drivers give at least one element of
 workspace

LAPACK stores the optimal size in the first element of the workspace even
when the matrix is empty; with an empty workspace it wrote out of bounds.
---
 rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs   | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs   | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/solve/getri.rs | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs   | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs   | 8 ++++----
 rstsr-blas-traits/src/lapack_svd/gesvd.rs           | 2 +-
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
index 4d40cf5..9e7b783 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
@@ -32,7 +32,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -132,7 +132,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
index 8801f88..c8c9051 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
@@ -46,7 +46,7 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
         let liwork = iwork_query as usize;
 
         // Allocate memory for temporary array(s)
@@ -155,7 +155,7 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
         let lrwork = rwork_query as usize;
         let liwork = iwork_query as usize;
 
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
index c565098..2131be6 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
@@ -48,7 +48,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -170,7 +170,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
index c33b793..95df8e7 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
@@ -52,7 +52,7 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
         let liwork = iwork_query as usize;
 
         // Allocate memory for temporary array(s)
@@ -183,7 +183,7 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
         let lrwork = rwork_query as usize;
         let liwork = iwork_query as usize;
 
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs b/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs
index a854e66..02f7ef6 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs
@@ -24,7 +24,7 @@ impl GETRIDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -78,7 +78,7 @@ impl GETRIDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query.re as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
index 5092db4..52603ee 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
@@ -46,7 +46,7 @@ impl<const HERMI: bool> SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -158,7 +158,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
index 4c7d66e..6490e0e 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
@@ -59,7 +59,7 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -233,7 +233,7 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query.re as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
index 994d601..98c8792 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
@@ -54,7 +54,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work array
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -172,7 +172,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
 
         // Backup superb data
         let min_mn = m.min(n);
-        for i in 0..min_mn - 1 {
+        for i in 0..min_mn.saturating_sub(1) {
             superb.add(i).write(work[i + 1]);
         }
 
@@ -234,7 +234,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query.re() as usize;
+        let lwork = (work_query.re() as usize).max(1);
 
         // Allocate memory for work array
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -354,7 +354,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
 
         // Backup superb data
         #[allow(clippy::needless_range_loop)]
-        for i in 0..min_mn - 1 {
+        for i in 0..min_mn.saturating_sub(1) {
             superb.add(i).write(rwork[i]);
         }
 
diff --git a/rstsr-blas-traits/src/lapack_svd/gesvd.rs b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
index 1a2ffa8..03d9b26 100644
--- a/rstsr-blas-traits/src/lapack_svd/gesvd.rs
+++ b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
@@ -77,7 +77,7 @@ where
         let mut u = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
         let mut vt = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
         let mut s = unsafe { empty_f(([minmn], &device))?.into_dim::<Ix1>() };
-        let mut superb = unsafe { empty_f(([minmn - 1], &device))?.into_dim::<Ix1>() };
+        let mut superb = unsafe { empty_f(([minmn.saturating_sub(1)], &device))?.into_dim::<Ix1>() };
 
         let ldu = u.view().ld(order).unwrap();
         let ldvt = vt.view().ld(order).unwrap();
-- 
2.43.0


From fb15d8ae1f684ccd50c94b77dc0df0ff9fd6eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:47 +0000
Subject: [PATCH 43/62] fix: BLAS-3 builders honour offsets, leading dimensions
 and sides

Pointers were taken at the start of the buffer instead of the first element,
outputs were written with the leading dimension of a dense matrix, the
output order option was inverted, and symmetric products read the other
triangle or took the width of the wrong operand.
---
 rstsr-blas-traits/src/blas3/gemm.rs   | 13 +++++++------
 rstsr-blas-traits/src/blas3/syhemm.rs | 25 ++++++++++---------------
 rstsr-blas-traits/src/blas3/trsm.rs   | 11 ++++++-----
 3 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/rstsr-blas-traits/src/blas3/gemm.rs b/rstsr-blas-traits/src/blas3/gemm.rs
index 7f8101e..40c23ca 100644
--- a/rstsr-blas-traits/src/blas3/gemm.rs
+++ b/rstsr-blas-traits/src/blas3/gemm.rs
@@ -55,8 +55,8 @@ where
         // determine preferred layout
         let order_c = c.as_ref().map(|c| (c.c_prefer(), c.f_prefer()));
         let order = order.map(|order| match order {
-            ColMajor => (true, false),
-            RowMajor => (false, true),
+            ColMajor => (false, true),
+            RowMajor => (true, false),
         });
 
         let default_order = a.device().default_order();
@@ -134,12 +134,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/syhemm.rs b/rstsr-blas-traits/src/blas3/syhemm.rs
index 5487f7c..0047255 100644
--- a/rstsr-blas-traits/src/blas3/syhemm.rs
+++ b/rstsr-blas-traits/src/blas3/syhemm.rs
@@ -56,25 +56,19 @@ where
         // determine preferred layout
         let order_c = c.as_ref().map(|c| (c.c_prefer(), c.f_prefer()));
         let order = order.map(|order| match order {
-            ColMajor => (true, false),
-            RowMajor => (false, true),
+            ColMajor => (false, true),
+            RowMajor => (true, false),
         });
 
         let default_order = a.device().default_order();
         let order = get_output_order(&[order, order_c], &[], default_order);
         if order == ColMajor {
-            let (uplo, a_cow) = match (HERMI, a.f_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(ColMajor)?),
-                _ => (uplo, a.to_contig_f(ColMajor)?),
-            };
+            let a_cow = a.to_contig_f(ColMajor)?;
             let b_cow = b.to_contig_f(ColMajor)?;
             let obj = SYHEMM_ { a: a_cow.view(), b: b_cow.view(), c, alpha, beta, side, uplo, order: Some(ColMajor) };
             obj.internal_run()
         } else {
-            let (uplo, a_cow) = match (HERMI, a.c_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(RowMajor)?),
-                _ => (uplo, a.to_contig_f(RowMajor)?),
-            };
+            let a_cow = a.to_contig_f(RowMajor)?;
             let b_cow = b.to_contig_f(RowMajor)?;
             let obj = SYHEMM_ {
                 a: a_cow.t(),
@@ -103,7 +97,7 @@ where
 
         // initialize intent(hide)
         let m = b.nrow();
-        let n = a.ncol();
+        let n = b.ncol();
         let lda = a.ld_col().unwrap();
         let ldb = b.ld_col().unwrap();
 
@@ -128,12 +122,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/trsm.rs b/rstsr-blas-traits/src/blas3/trsm.rs
index 63acc13..f9102ca 100644
--- a/rstsr-blas-traits/src/blas3/trsm.rs
+++ b/rstsr-blas-traits/src/blas3/trsm.rs
@@ -60,8 +60,8 @@ where
         // determine preferred layout
         let order_b = (b.c_prefer(), b.f_prefer());
         let order = order.map(|order| match order {
-            ColMajor => (true, false),
-            RowMajor => (false, true),
+            ColMajor => (false, true),
+            RowMajor => (true, false),
         });
 
         let default_order = b.device().default_order();
@@ -123,10 +123,11 @@ where
         let mut b = overwritable_convert_with_order(b, ColMajor)?;
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ldb = b.view().ld_col().unwrap();
+        let ptr_b = b.view_mut().as_mut_ptr();
 
-        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, m) };
+        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, ldb) };
 
         Ok(b.clone_to_mut())
     }
-- 
2.43.0


From e878dbb803d66217e25916d2df7b455b5f2e989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:47 +0000
Subject: [PATCH 44/62] fix: leading dimensions of matrices without elements

---
 rstsr-core/src/tensor/tensor2_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rstsr-core/src/tensor/tensor2_impl.rs b/rstsr-core/src/tensor/tensor2_impl.rs
index 2ab80ac..5fc85dd 100644
--- a/rstsr-core/src/tensor/tensor2_impl.rs
+++ b/rstsr-core/src/tensor/tensor2_impl.rs
@@ -16,9 +16,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.c_prefer() {
             // leading dimension is only defined if not c-prefer
             return None;
-        } else if self.shape()[0] == 1 {
+        } else if self.shape()[0] <= 1 || self.shape()[1] == 0 {
             // col-vector, leading dimension must be larger than dimension of col
-            return Some(self.shape()[1]);
+            return Some(self.shape()[1].max(1));
         } else {
             // usual definition that leading dimension is stride of row
             return Some(self.stride()[0] as usize);
@@ -33,9 +33,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.f_prefer() {
             // leading dimension is only defined if not f-prefer
             return None;
-        } else if self.shape()[1] == 1 {
+        } else if self.shape()[1] <= 1 || self.shape()[0] == 0 {
             // row-vector, leading dimension must be larger than dimension of row
-            return Some(self.shape()[0]);
+            return Some(self.shape()[0].max(1));
         } else {
             // usual definition that leading dimension is stride of col
             return Some(self.stride()[1] as usize);
-- 
2.43.0


From a87e34215b801cd71178959b4fd1b43f1a19bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:47 +0000
Subject: [PATCH 45/62] fix: determinants of singular matrices are zero, of
 rectangular ones refused

LAPACK reports an exactly singular factor with a positive info although the
factorization is complete; this was taken for an error.
---
 rstsr-blas-traits/src/lapack_solve/getrf.rs | 5 +++--
 rstsr-linalg-traits/src/ref_impl_blas.rs    | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-blas-traits/src/lapack_solve/getrf.rs b/rstsr-blas-traits/src/lapack_solve/getrf.rs
index e4afa56..060b7af 100644
--- a/rstsr-blas-traits/src/lapack_solve/getrf.rs
+++ b/rstsr-blas-traits/src/lapack_solve/getrf.rs
@@ -37,14 +37,15 @@ where
 
         let [m, n] = *a.view().shape();
         let lda = a.view().ld(order).unwrap();
-        let mut ipiv = unsafe { empty_f(([n].c(), &device))?.into_dim::<Ix1>() };
+        let mut ipiv = unsafe { empty_f(([m.min(n)].c(), &device))?.into_dim::<Ix1>() };
         let ptr_a = a.view_mut().as_mut_ptr();
         let ptr_ipiv = ipiv.as_mut_ptr();
 
         // run driver
         let info = unsafe { B::driver_getrf(order, m, n, ptr_a, lda, ptr_ipiv) };
         let info = info as i32;
-        if info != 0 {
+        // positive info: factorization is completed, but U is exactly singular
+        if info < 0 {
             rstsr_errcode!(info, "Lapack GETRF")?;
         }
 
diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index 711e8fa..ed2b2df 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -229,6 +229,7 @@ where
     B: LapackDriverAPI<T>,
 {
     let device = a.device().clone();
+    rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
     let task = || {
         let (a, piv) = GETRF::default().a(a).build()?.run()?;
-- 
2.43.0


From e5644457162757f39646cb646f2e1c75becffdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:47 +0000
Subject: [PATCH 46/62] fix: complex singular value decomposition returns the
 adjoint of V

---
 rstsr-linalg-traits/src/faer_impl/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/svd.rs b/rstsr-linalg-traits/src/faer_impl/svd.rs
index b5869b5..bb575e0 100644
--- a/rstsr-linalg-traits/src/faer_impl/svd.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svd.rs
@@ -36,7 +36,7 @@ where
     let result = SVDResult {
         u: u.into_contig(device.default_order()),
         s: s.mapv(|v| T::real_part_impl(&v)).into_contig(device.default_order()),
-        vt: v.into_reverse_axes().into_contig(device.default_order()),
+        vt: v.into_reverse_axes().mapv(|x| T::conj_impl(&x)).into_contig(device.default_order()),
     };
 
     // restore parallel mode
-- 
2.43.0


From 2bfcfcfb38a113ec5bb0009a0478dbac3b96a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:19 +0000
Subject: [PATCH 47/62] fix: faer linear algebra refuses rectangular and
 mismatched operands, singular determinants are zero

---
 rstsr-linalg-traits/src/faer_impl/cholesky.rs |  2 ++
 rstsr-linalg-traits/src/faer_impl/det.rs      | 28 ++++++++++++++++++-
 rstsr-linalg-traits/src/faer_impl/eigh.rs     |  3 ++
 rstsr-linalg-traits/src/faer_impl/eigvalsh.rs |  2 ++
 rstsr-linalg-traits/src/faer_impl/inv.rs      |  2 ++
 .../src/faer_impl/solve_general.rs            |  4 +++
 .../src/faer_impl/solve_triangular.rs         |  4 +++
 7 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/cholesky.rs b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
index 4667221..946d064 100644
--- a/rstsr-linalg-traits/src/faer_impl/cholesky.rs
+++ b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
@@ -11,6 +11,8 @@ pub fn faer_impl_cholesky_f<T>(
 where
     T: ComplexField,
 {
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/det.rs b/rstsr-linalg-traits/src/faer_impl/det.rs
index 25d4769..1260a38 100644
--- a/rstsr-linalg-traits/src/faer_impl/det.rs
+++ b/rstsr-linalg-traits/src/faer_impl/det.rs
@@ -1,5 +1,6 @@
 use crate::traits_def::DetAPI;
 use faer::prelude::*;
+use faer::traits::math_utils::{mul, neg, one, zero};
 use faer::traits::ComplexField;
 use faer_ext::IntoFaer;
 use rstsr_core::prelude_dev::*;
@@ -8,6 +9,8 @@ pub fn faer_impl_det_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<T>
 where
     T: ComplexField,
 {
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
@@ -19,7 +22,30 @@ where
     let faer_a = a.into_faer();
 
     // det computation
-    let result = faer_a.determinant();
+    // The product stops at the first zero pivot: elements of U after that are not meaningful.
+    let lu = faer_a.partial_piv_lu();
+    let mut result = one::<T>();
+    for i in 0..lu.U().nrows() {
+        let pivot = &lu.U()[(i, i)];
+        result = mul(&result, pivot);
+        if *pivot == zero::<T>() {
+            break;
+        }
+    }
+    // every cycle of even length in the permutation changes sign
+    let perm = lu.P().arrays().0;
+    let mut visited = vec![false; perm.len()];
+    for start in 0..perm.len() {
+        let (mut i, mut len) = (start, 0);
+        while !visited[i] {
+            visited[i] = true;
+            i = perm[i];
+            len += 1;
+        }
+        if len > 0 && len % 2 == 0 {
+            result = neg(&result);
+        }
+    }
 
     // restore parallel mode
     if pool.is_some() {
diff --git a/rstsr-linalg-traits/src/faer_impl/eigh.rs b/rstsr-linalg-traits/src/faer_impl/eigh.rs
index 92e247d..2ce3e39 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigh.rs
@@ -15,6 +15,8 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
@@ -64,6 +66,7 @@ where
     rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
     rstsr_pattern!(itype, 1..=3, InvalidValue, "itype in generalized eigen must be 1, 2 or 3")?;
     rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.shape(), b.shape(), InvalidLayout, "Matrix b must have the same shape as a.")?;
 
     // set parallel mode
     let device = a.device().clone();
diff --git a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
index b1fb0ab..8049cfb 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
@@ -14,6 +14,8 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/inv.rs b/rstsr-linalg-traits/src/faer_impl/inv.rs
index ae8bfd4..2550112 100644
--- a/rstsr-linalg-traits/src/faer_impl/inv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/inv.rs
@@ -9,6 +9,8 @@ pub fn faer_impl_inv_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<Tenso
 where
     T: ComplexField,
 {
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_general.rs b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
index 12ef1b2..36291c8 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_general.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
@@ -12,6 +12,10 @@ pub fn faer_impl_solve_general_f<'b, T>(
 where
     T: ComplexField,
 {
+    rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
+    rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.view().nrow(), b.view().nrow(), InvalidLayout, "Matrix b must have as many rows as a.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
index 76613ac..e14a594 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
@@ -13,6 +13,10 @@ pub fn faer_impl_solve_triangular_f<'b, T>(
 where
     T: ComplexField,
 {
+    rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
+    rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.view().nrow(), b.view().nrow(), InvalidLayout, "Matrix b must have as many rows as a.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-- 
2.43.0


From 031ef3f739e3c32a0532c622a710842e6c9d6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 48/62] fix: getrf driver returns row-major factors of singular
 matrices

---
 rstsr-blas-traits/driver_impl/lapack/solve/getrf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/getrf.rs b/rstsr-blas-traits/driver_impl/lapack/solve/getrf.rs
index 3b5683f..234f342 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/getrf.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/getrf.rs
@@ -27,7 +27,7 @@ impl GETRFDriverAPI<T> for DeviceBLAS {
         if order == ColMajor {
             // Call LAPACK function and adjust info
             func_(&(m as _), &(n as _), a, &(lda as _), ipiv, &mut info);
-            if info != 0 {
+            if info < 0 {
                 return info;
             }
         } else {
@@ -43,7 +43,7 @@ impl GETRFDriverAPI<T> for DeviceBLAS {
             orderchange_out_r2c_ix2_cpu_serial(&mut a_t, &la_t, a_slice, &la).unwrap();
             // Call LAPACK function and adjust info
             func_(&(m as _), &(n as _), a_t.as_mut_ptr(), &(lda_t as _), ipiv, &mut info);
-            if info != 0 {
+            if info < 0 {
                 return info;
             }
             // Transpose output matrices
@@ -74,7 +74,7 @@ impl GETRFDriverAPI<T> for DeviceBLAS {
         if order == ColMajor {
             // Call LAPACK function and adjust info
             func_(&(m as _), &(n as _), a as *mut _, &(lda as _), ipiv, &mut info);
-            if info != 0 {
+            if info < 0 {
                 return info;
             }
         } else {
@@ -90,7 +90,7 @@ impl GETRFDriverAPI<T> for DeviceBLAS {
             orderchange_out_r2c_ix2_cpu_serial(&mut a_t, &la_t, a_slice, &la).unwrap();
             // Call LAPACK function and adjust info
             func_(&(m as _), &(n as _), a_t.as_mut_ptr() as *mut _, &(lda_t as _), ipiv, &mut info);
-            if info != 0 {
+            if info < 0 {
                 return info;
             }
             // Transpose output matrices
-- 
2.43.0


From c04b65cb4692eadabcb1b521561f116b0464c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 49/62] fix: linear algebra refuses to overwrite broadcast
 operands instead of panicking

---
 rstsr-blas-traits/src/blas3/gemm.rs       | 1 +
 rstsr-blas-traits/src/blas3/syhemm.rs     | 1 +
 rstsr-blas-traits/src/util/util_tensor.rs | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/rstsr-blas-traits/src/blas3/gemm.rs b/rstsr-blas-traits/src/blas3/gemm.rs
index 40c23ca..a9f1106 100644
--- a/rstsr-blas-traits/src/blas3/gemm.rs
+++ b/rstsr-blas-traits/src/blas3/gemm.rs
@@ -126,6 +126,7 @@ where
             if c.f_prefer() {
                 TensorMutable::Mut(c)
             } else {
+                rstsr_assert!(!c.layout().is_broadcasted(), InvalidLayout, "Cannot overwrite a broadcasted tensor.")?;
                 let c_buffer = c.to_contig_f(ColMajor)?.into_owned();
                 TensorMutable::ToBeCloned(c, c_buffer)
             }
diff --git a/rstsr-blas-traits/src/blas3/syhemm.rs b/rstsr-blas-traits/src/blas3/syhemm.rs
index 0047255..03f4fb0 100644
--- a/rstsr-blas-traits/src/blas3/syhemm.rs
+++ b/rstsr-blas-traits/src/blas3/syhemm.rs
@@ -114,6 +114,7 @@ where
             if c.f_prefer() {
                 TensorMutable::Mut(c)
             } else {
+                rstsr_assert!(!c.layout().is_broadcasted(), InvalidLayout, "Cannot overwrite a broadcasted tensor.")?;
                 let c_buffer = c.to_contig_f(ColMajor)?.into_owned();
                 TensorMutable::ToBeCloned(c, c_buffer)
             }
diff --git a/rstsr-blas-traits/src/util/util_tensor.rs b/rstsr-blas-traits/src/util/util_tensor.rs
index 695996a..a871f20 100644
--- a/rstsr-blas-traits/src/util/util_tensor.rs
+++ b/rstsr-blas-traits/src/util/util_tensor.rs
@@ -24,6 +24,7 @@ where
         if a.f_prefer() || a.c_prefer() {
             TensorMutable::Mut(a)
         } else {
+            rstsr_assert!(!a.layout().is_broadcasted(), InvalidLayout, "Cannot overwrite a broadcasted tensor.")?;
             let a_buffer = a.to_contig_f(order)?.into_owned();
             TensorMutable::ToBeCloned(a, a_buffer)
         }
@@ -47,6 +48,7 @@ where
         if (order == ColMajor && a.f_prefer()) || (order == RowMajor && a.c_prefer()) {
             TensorMutable::Mut(a)
         } else {
+            rstsr_assert!(!a.layout().is_broadcasted(), InvalidLayout, "Cannot overwrite a broadcasted tensor.")?;
             let a_buffer = a.to_contig_f(order)?.into_owned();
             TensorMutable::ToBeCloned(a, a_buffer)
         }
-- 
2.43.0


From 07cb1ce4aa87cfce346f9c0531abb458873338ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 50/62] fix: workspace queries of complex LAPACK drivers use
 the element type

---
 rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs  |  6 +++---
 rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs | 12 ++++++------
 rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs  |  6 +++---
 rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs | 12 ++++++------
 rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs |  4 ++--
 rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs  |  4 ++--
 6 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
index 9e7b783..e7ae413 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
@@ -107,7 +107,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         use lapack_ffi::lapack::func_;
 
         // Allocate memory for working array(s)
-        let rwork_len = (3 * n - 2).max(1);
+        let rwork_len = (3 * n).saturating_sub(2).max(1);
         let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(rwork_len) {
             Ok(rwork) => rwork,
             Err(_) => return -1010,
@@ -116,7 +116,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &(jobz as _),
             &uplo.into(),
@@ -132,7 +132,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = (work_query as usize).max(1);
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
index c8c9051..915dbee 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
@@ -47,7 +47,7 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
             return info;
         }
         let lwork = (work_query as usize).max(1);
-        let liwork = iwork_query as usize;
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -134,8 +134,8 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = num::zero();
         let mut iwork_query = 0;
         func_(
             &(jobz as _),
@@ -155,9 +155,9 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = (work_query as usize).max(1);
-        let lrwork = rwork_query as usize;
-        let liwork = iwork_query as usize;
+        let lwork = (work_query.re as usize).max(1);
+        let lrwork = (rwork_query as usize).max(1);
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
index 2131be6..561d553 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
@@ -142,7 +142,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         use lapack_ffi::lapack::func_;
 
         // Allocate memory for working array(s)
-        let rwork_len = (3 * n - 2).max(1);
+        let rwork_len = (3 * n).saturating_sub(2).max(1);
         let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(rwork_len) {
             Ok(rwork) => rwork,
             Err(_) => return -1010,
@@ -151,7 +151,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &itype,
             &(jobz as _),
@@ -170,7 +170,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = (work_query as usize).max(1);
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
index 95df8e7..b7b252c 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
@@ -53,7 +53,7 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
             return info;
         }
         let lwork = (work_query as usize).max(1);
-        let liwork = iwork_query as usize;
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -159,8 +159,8 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = num::zero();
         let mut iwork_query = 0;
         func_(
             &itype,
@@ -183,9 +183,9 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = (work_query as usize).max(1);
-        let lrwork = rwork_query as usize;
-        let liwork = iwork_query as usize;
+        let lwork = (work_query.re as usize).max(1);
+        let lrwork = (rwork_query as usize).max(1);
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
index 52603ee..613ee0c 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
@@ -141,7 +141,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &uplo.into(),
             &(n as _),
@@ -158,7 +158,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = (work_query as usize).max(1);
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
index 6490e0e..d610787 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
@@ -211,8 +211,8 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork =
             if jobz == 'N' { 7 * m.min(n) } else { m.min(n) * (5 * m.min(n) + 7).max(2 * m.max(n) + 2 * m.min(n) + 1) };
-        let mut work_query = Complex::new(0.0, 0.0);
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = num::zero();
         func_(
             &(jobz as _),
             &(m as _),
-- 
2.43.0


From d9a04417563533de4f8e6df9454e2b1e63e49e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:15 +0000
Subject: [PATCH 51/62] fix: linear algebra of matrices without elements does
 not panic

---
 rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs |  8 ++++----
 rstsr-linalg-traits/src/faer_impl/eigh.rs          | 14 ++++++++++++++
 rstsr-linalg-traits/src/faer_impl/pinv.rs          |  2 +-
 rstsr-linalg-traits/src/ref_impl_blas.rs           |  2 +-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
index 613ee0c..01a304a 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
@@ -35,10 +35,10 @@ impl<const HERMI: bool> SYSVDriverAPI<T, HERMI> for DeviceBLAS {
             &(n as _),
             &(nrhs as _),
             a,
-            &(n as _),
+            &(n.max(1) as _),
             ipiv,
             b,
-            &(n as _),
+            &(n.max(1) as _),
             &mut work_query,
             &lwork,
             &mut info,
@@ -147,10 +147,10 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
             &(n as _),
             &(nrhs as _),
             a as *mut _,
-            &(n as _),
+            &(n.max(1) as _),
             ipiv,
             b as *mut _,
-            &(n as _),
+            &(n.max(1) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             &mut info,
diff --git a/rstsr-linalg-traits/src/faer_impl/eigh.rs b/rstsr-linalg-traits/src/faer_impl/eigh.rs
index 2ce3e39..c9a4919 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigh.rs
@@ -17,6 +17,13 @@ where
 
     rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
 
+    // nothing to compute (and nothing faer accepts) for empty matrix
+    if a.nrow() == 0 {
+        let order = a.device().default_order();
+        let e = a.mapv(|v| T::real_part_impl(&v)).into_shape([0]).into_dim::<Ix1>();
+        return Ok((e, a.into_contig(order)));
+    }
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
@@ -68,6 +75,13 @@ where
     rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
     rstsr_assert_eq!(a.shape(), b.shape(), InvalidLayout, "Matrix b must have the same shape as a.")?;
 
+    // nothing to compute (and nothing faer accepts) for empty matrix
+    if a.nrow() == 0 {
+        let order = a.device().default_order();
+        let e = a.mapv(|v| T::real_part_impl(&v)).into_shape([0]).into_dim::<Ix1>();
+        return Ok((e, a.into_contig(order)));
+    }
+
     // set parallel mode
     let device = a.device().clone();
 
diff --git a/rstsr-linalg-traits/src/faer_impl/pinv.rs b/rstsr-linalg-traits/src/faer_impl/pinv.rs
index 901e7cf..634e379 100644
--- a/rstsr-linalg-traits/src/faer_impl/pinv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/pinv.rs
@@ -44,7 +44,7 @@ where
 
     // compute pinv
     let s = s.mapv(|x| T::real_part_impl(&x));
-    let maxs = *s.raw().iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap();
+    let maxs = s.raw().iter().fold(T::Real::zero(), |m, &x| if x > m { x } else { m });
     let val = atol + rtol * maxs;
     let rank = s.raw().iter().take_while(|&&x| x > val).count();
     let mut u = u.into_slice((.., ..rank));
diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index ed2b2df..a92b2a7 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -126,7 +126,7 @@ where
             mnmax * T::Real::epsilon()
         });
         if let (s, Some(u), Some(vt)) = GESDD::default().a(a).full_matrices(false).build()?.run()? {
-            let maxs = s.max_all();
+            let maxs = s.raw().iter().fold(T::Real::zero(), |m, &x| if x > m { x } else { m });
             let val = atol + rtol * maxs;
             let rank = s.raw().iter().take_while(|&&x| x > val).count();
             let mut u = u.into_slice((.., ..rank));
-- 
2.43.0


From 01562e09b84986889ee3115d89330c1931ab93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:33 +0000
Subject: [PATCH 52/62] fix: trsm builder refuses the conjugate-only flag
 instead of panicking

---
 rstsr-blas-traits/src/blas3/trsm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rstsr-blas-traits/src/blas3/trsm.rs b/rstsr-blas-traits/src/blas3/trsm.rs
index f9102ca..82e2035 100644
--- a/rstsr-blas-traits/src/blas3/trsm.rs
+++ b/rstsr-blas-traits/src/blas3/trsm.rs
@@ -114,6 +114,10 @@ where
         let lda = a.ld(ColMajor).unwrap();
 
         // perform check
+        match transa {
+            FlagTrans::N | FlagTrans::T | FlagTrans::C => (),
+            _ => rstsr_invalid!(transa)?,
+        }
         match side {
             Left => rstsr_assert_eq!(a.shape(), &[m, m], InvalidLayout)?,
             Right => rstsr_assert_eq!(a.shape(), &[n, n], InvalidLayout)?,
-- 
2.43.0


From f766be52acb2077a0d12ef9dccd141b3a12f937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:48 +0000
Subject: [PATCH 53/62] fix: requests for part of the spectrum are refused
 instead of ignored

---
 rstsr-linalg-traits/src/ref_impl_blas.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index a92b2a7..27da6dd 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -40,7 +40,10 @@ where
     T: BlasFloat,
     B: LapackDriverAPI<T>,
 {
-    let EighArgs_ { a, b, uplo, eigvals_only, eig_type, subset_by_index: _, subset_by_value: _, driver } = eigh_args;
+    let EighArgs_ { a, b, uplo, eigvals_only, eig_type, subset_by_index, subset_by_value, driver } = eigh_args;
+    // drivers supported here always give the whole spectrum
+    rstsr_assert!(subset_by_index.is_none(), InvalidValue, "Subset of eigenvalues by index is not supported.")?;
+    rstsr_assert!(subset_by_value.is_none(), InvalidValue, "Subset of eigenvalues by value is not supported.")?;
     let device = a.device().clone();
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
 
-- 
2.43.0


From 501d2d01bc07907c3d8fb00b3793ae7ffff0783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:11 +0000
Subject: [PATCH 54/62] fix: i8 promotes and casts to i16

---
 rstsr-dtype-traits/src/promotion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-dtype-traits/src/promotion.rs b/rstsr-dtype-traits/src/promotion.rs
index 5705bbf..9472f87 100644
--- a/rstsr-dtype-traits/src/promotion.rs
+++ b/rstsr-dtype-traits/src/promotion.rs
@@ -228,7 +228,8 @@ macro_rules! impl_promotion_asable {
     };
 }
 
-// internal typeimpl_promotion_asable!(i8, i16, false, true, i16);
+// internal type
+impl_promotion_asable!(i8, i16, false, true, i16);
 impl_promotion_asable!(i8, i32, false, true, i32);
 impl_promotion_asable!(i8, i64, false, true, i64);
 impl_promotion_asable!(i8, u8, false, false, i16);
-- 
2.43.0


From 36be7adb3e49bbefe34d9a301742d2bf2fec043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:11 +0000
Subject: [PATCH 55/62] fix: packing refuses strides that are no multiples of
 the array length

---
 rstsr-core/src/tensor/pack_array.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rstsr-core/src/tensor/pack_array.rs b/rstsr-core/src/tensor/pack_array.rs
index ba3daa1..3ad20bc 100644
--- a/rstsr-core/src/tensor/pack_array.rs
+++ b/rstsr-core/src/tensor/pack_array.rs
@@ -137,7 +137,15 @@ where
         let axis = rstsr_check_axis!(axis, self.ndim())?;
         rstsr_assert_eq!(self.layout().stride()[axis], 1, InvalidLayout, "The axis must be contiguous")?;
         rstsr_assert_eq!(self.layout().shape()[axis], N, InvalidLayout, "The axis length must be a exactly {N}")?;
+        rstsr_assert!(N > 0, InvalidLayout, "The axis length must not be zero")?;
         rstsr_assert!(self.layout().offset() % N == 0, InvalidLayout, "The offset must be a multiple of {N}")?;
+        for (i, (&d, &s)) in self.layout().shape().as_ref().iter().zip(self.layout().stride().as_ref()).enumerate() {
+            rstsr_assert!(
+                i == axis || d <= 1 || s % (N as isize) == 0,
+                InvalidLayout,
+                "The strides of the other axes must be multiples of {N}"
+            )?;
+        }
 
         let (storage, layout) = self.into_raw_parts();
         let (data, device) = storage.into_raw_parts();
-- 
2.43.0


From 1445b8f4acdeefc15be0be23a94c5703868b5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:28 +0000
Subject: [PATCH 56/62] fix: faer views with negative strides become tensors

---
 rstsr-core/src/device_faer/conversion.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/rstsr-core/src/device_faer/conversion.rs b/rstsr-core/src/device_faer/conversion.rs
index e5cf124..db89e15 100644
--- a/rstsr-core/src/device_faer/conversion.rs
+++ b/rstsr-core/src/device_faer/conversion.rs
@@ -37,6 +37,15 @@ where
     }
 }
 
+/// Distance from the first element in memory to the element at the origin of a faer object, whose
+/// strides may be negative.
+fn origin_offset(shape: &[usize], stride: &[isize]) -> usize {
+    if shape.contains(&0) {
+        return 0;
+    }
+    shape.iter().zip(stride).filter(|(_, &s)| s < 0).map(|(&d, &s)| (d - 1) * s.unsigned_abs()).sum()
+}
+
 impl<'a, T> IntoRSTSR for MatRef<'a, T> {
     type RSTSR = TensorView<'a, T, DeviceFaer, Ix2>;
 
@@ -45,9 +54,10 @@ impl<'a, T> IntoRSTSR for MatRef<'a, T> {
         let ncols = self.ncols();
         let row_stride = self.row_stride();
         let col_stride = self.col_stride();
-        let ptr = self.as_ptr();
+        let offset = origin_offset(&[nrows, ncols], &[row_stride, col_stride]);
+        let ptr = self.as_ptr().wrapping_sub(offset);
 
-        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], 0).unwrap();
+        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], offset).unwrap();
         let (_, upper_bound) = layout.bounds_index().unwrap();
         let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
         let data = DataRef::from_manually_drop(ManuallyDrop::new(raw));
@@ -84,9 +94,10 @@ impl<'a, T> IntoRSTSR for ColRef<'a, T> {
     fn into_rstsr(self) -> Self::RSTSR {
         let nrows = self.nrows();
         let stride = self.row_stride();
-        let ptr = self.as_ptr();
+        let offset = origin_offset(&[nrows], &[stride]);
+        let ptr = self.as_ptr().wrapping_sub(offset);
 
-        let layout = Layout::new([nrows], [stride], 0).unwrap();
+        let layout = Layout::new([nrows], [stride], offset).unwrap();
         let (_, upper_bound) = layout.bounds_index().unwrap();
         let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
         let data = DataRef::from_manually_drop(ManuallyDrop::new(raw));
@@ -104,9 +115,10 @@ impl<'a, T> IntoRSTSR for MatMut<'a, T> {
         let ncols = self.ncols();
         let row_stride = self.row_stride();
         let col_stride = self.col_stride();
-        let ptr = self.as_ptr();
+        let offset = origin_offset(&[nrows, ncols], &[row_stride, col_stride]);
+        let ptr = self.as_ptr().wrapping_sub(offset);
 
-        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], 0).unwrap();
+        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], offset).unwrap();
         let (_, upper_bound) = layout.bounds_index().unwrap();
         let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
         let data = DataMut::from_manually_drop(ManuallyDrop::new(raw));
-- 
2.43.0


From ed320a97a31b7c71761b2889966b95ee92427442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:36 +0000
Subject: [PATCH 57/62] fix: views of an empty tensor keep strides that stay
 inside the storage

---
 rstsr-common/src/layout/indexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index f325c64..216fb17 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -149,7 +149,8 @@ where
         let start = slice.start().map_or(start_default, clip);
         let stop = slice.stop().map_or(stop_default, clip);
 
-        // number of elements; zero size layout keeps the offset of the original layout
+        // number of elements; zero size layout keeps the offset of the original layout (and its strides, so
+        // that any part of the layout still starts within the storage)
         let len = match step > 0 {
             true if start < stop => (stop - start - 1) / step + 1,
             false if start > stop => (start - stop - 1) / -step + 1,
@@ -158,7 +159,9 @@ where
         let empty = len == 0 || self.size() == 0;
         let offset = if empty { self.offset() } else { (self.offset() as isize + stride[axis] * start) as usize };
         shape[axis] = len as usize;
-        stride[axis] *= step;
+        if !empty {
+            stride[axis] *= step;
+        }
         return Self::new(shape, stride, offset);
     }
 }
-- 
2.43.0


From cb7e51193fd5567ff68f8f3c293aad9014c15e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:24 +0000
Subject: [PATCH 58/62] fix: unsigned indices and axes beyond isize are out of
 range, not negative

---
 rstsr-common/src/axes_pair_index.rs           |  2 +-
 rstsr-common/src/layout/indexer.rs            |  3 ++-
 rstsr-common/src/layout/slice.rs              |  8 +++++---
 rstsr-core/src/tensor/creation_from_tensor.rs |  4 ++--
 rstsr-core/src/tensor/indexing.rs             | 12 ++++++++----
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/rstsr-common/src/axes_pair_index.rs b/rstsr-common/src/axes_pair_index.rs
index 0abfa2c..2fbdffd 100644
--- a/rstsr-common/src/axes_pair_index.rs
+++ b/rstsr-common/src/axes_pair_index.rs
@@ -25,7 +25,7 @@ where
 #[allow(clippy::unnecessary_cast)]
 impl From<IType> for AxesPairIndex<isize> {
     fn from(n: IType) -> Self {
-        AxesPairIndex::Val(n as isize)
+        AxesPairIndex::Val(isize::try_from(n).unwrap_or(isize::MAX))
     }
 }
 
diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index 216fb17..766fde3 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -43,7 +43,8 @@ macro_rules! impl_from_int_into_indexer {
         $(
             impl From<$t> for Indexer {
                 fn from(index: $t) -> Self {
-                    Self::Select(index as isize)
+                    // an unsigned index beyond isize is out of range anyway; do not wrap it to a negative one
+                    Self::Select(isize::try_from(index).unwrap_or(isize::MAX))
                 }
             }
         )*
diff --git a/rstsr-common/src/layout/slice.rs b/rstsr-common/src/layout/slice.rs
index 32c7feb..19c3a02 100644
--- a/rstsr-common/src/layout/slice.rs
+++ b/rstsr-common/src/layout/slice.rs
@@ -40,10 +40,12 @@ macro_rules! impl_from_slice {
         $(
             impl From<Slice<$t>> for Slice<isize> {
                 fn from(slice: Slice<$t>) -> Self {
+                    // bounds are clipped to the axis; unsigned ones beyond isize should not wrap to negative ones
+                    let cast = |v: $t| isize::try_from(v).unwrap_or(isize::MAX);
                     Self {
-                        start: slice.start.map(|v| v as isize),
-                        stop: slice.stop.map(|v| v as isize),
-                        step: slice.step.map(|v| v as isize),
+                        start: slice.start.map(cast),
+                        stop: slice.stop.map(cast),
+                        step: slice.step.map(cast),
                     }
                 }
             }
diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 49c0a57..1bda408 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -421,7 +421,7 @@ where
     fn concat_f(self) -> Result<Self::Out> {
         let (tensors, axis) = self;
         #[allow(clippy::unnecessary_cast)]
-        let axis = axis as isize;
+        let axis = isize::try_from(axis).unwrap_or(isize::MAX);
         let tensors = tensors.iter().map(|t| t.view()).collect::<Vec<_>>();
         ConcatAPI::concat_f((tensors, axis))
     }
@@ -714,7 +714,7 @@ where
     fn stack_f(self) -> Result<Self::Out> {
         let (tensors, axis) = self;
         #[allow(clippy::unnecessary_cast)]
-        let axis = axis as isize;
+        let axis = isize::try_from(axis).unwrap_or(isize::MAX);
         let tensors = tensors.iter().map(|t| t.view()).collect::<Vec<_>>();
         StackAPI::stack_f((tensors, axis))
     }
diff --git a/rstsr-core/src/tensor/indexing.rs b/rstsr-core/src/tensor/indexing.rs
index 90a4ddd..68162e0 100644
--- a/rstsr-core/src/tensor/indexing.rs
+++ b/rstsr-core/src/tensor/indexing.rs
@@ -175,7 +175,11 @@ pub struct DiagonalArgs {
 impl From<(S0, S1, S2)> for DiagonalArgs {
     fn from(args: (S0, S1, S2)) -> Self {
         let (offset, axis1, axis2) = args;
-        Self { offset: Some(offset as isize), axis1: Some(axis1 as isize), axis2: Some(axis2 as isize) }
+        Self {
+            offset: Some(isize::try_from(offset).unwrap_or(isize::MAX)),
+            axis1: Some(isize::try_from(axis1).unwrap_or(isize::MAX)),
+            axis2: Some(isize::try_from(axis2).unwrap_or(isize::MAX)),
+        }
     }
 }
 
@@ -183,7 +187,7 @@ impl From<(S0, S1, S2)> for DiagonalArgs {
 #[allow(clippy::unnecessary_cast)]
 impl From<S> for DiagonalArgs {
     fn from(offset: S) -> Self {
-        Self { offset: Some(offset as isize), axis1: None, axis2: None }
+        Self { offset: Some(isize::try_from(offset).unwrap_or(isize::MAX)), axis1: None, axis2: None }
     }
 }
 
@@ -385,7 +389,7 @@ where
 
     #[inline]
     fn index(&self, index: I) -> &Self::Output {
-        let index = index.as_ref().iter().map(|&v| v as isize).collect::<Vec<_>>();
+        let index = index.as_ref().iter().map(|&v| isize::try_from(v).unwrap_or(isize::MAX)).collect::<Vec<_>>();
         let i = self.layout().index(index.as_ref());
         let raw = self.raw();
         raw.index(i)
@@ -406,7 +410,7 @@ where
 {
     #[inline]
     fn index_mut(&mut self, index: I) -> &mut Self::Output {
-        let index = index.as_ref().iter().map(|&v| v as isize).collect::<Vec<_>>();
+        let index = index.as_ref().iter().map(|&v| isize::try_from(v).unwrap_or(isize::MAX)).collect::<Vec<_>>();
         let i = self.layout().index(index.as_ref());
         let raw = self.raw_mut();
         raw.index_mut(i)
-- 
2.43.0


From bf959c3b5a07f3a90dfdf08c487a36e1035fe94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:52 +0000
Subject: [PATCH 59/62] fix: fallible calls refuse missing and unrepresentable
 axes instead of panicking

---
 rstsr-common/src/axis_index.rs                | 119 ++++++++++--------
 rstsr-core/src/tensor/adv_indexing.rs         |   4 +-
 rstsr-core/src/tensor/indexing.rs             |   2 +-
 rstsr-core/src/tensor/iterator_axes.rs        |   8 +-
 .../src/tensor/manipulation/expand_dims.rs    |   2 +-
 .../manipulation/into_compatible_shape.rs     |   2 +-
 rstsr-core/src/tensor/manipulation/reshape.rs |   4 +-
 7 files changed, 77 insertions(+), 64 deletions(-)

diff --git a/rstsr-common/src/axis_index.rs b/rstsr-common/src/axis_index.rs
index 9a80206..702811f 100644
--- a/rstsr-common/src/axis_index.rs
+++ b/rstsr-common/src/axis_index.rs
@@ -18,6 +18,16 @@ impl<T> AsRef<[T]> for AxesIndex<T> {
     }
 }
 
+impl<T> AxesIndex<T> {
+    /// The listed values; an error if there is no list ([`AxesIndex::None`]).
+    pub fn as_slice_f(&self) -> Result<&[T]> {
+        match self {
+            AxesIndex::None => rstsr_raise!(InvalidValue, "Axes argument cannot be None for this operation."),
+            axes => Ok(axes.as_ref()),
+        }
+    }
+}
+
 /* #region AxesIndex self-type from */
 
 impl<T> From<T> for AxesIndex<T> {
@@ -186,7 +196,10 @@ macro_rules! impl_from_tuple_to_axes_index {
             type Error = Error;
 
             fn try_from(value: (F1, F2)) -> Result<Self> {
-                Ok(AxesIndex::Vec(vec![value.0.try_into().ok().unwrap(), value.1.try_into().ok().unwrap()]))
+                Ok(AxesIndex::Vec(vec![
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                ]))
             }
         }
 
@@ -198,9 +211,9 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -213,10 +226,10 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -229,11 +242,11 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -246,12 +259,12 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -264,13 +277,13 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -290,14 +303,14 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7, F8)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
-                    value.7.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.7.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -318,15 +331,15 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7, F8, F9)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
-                    value.7.try_into().ok().unwrap(),
-                    value.8.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.7.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.8.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -349,16 +362,16 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7, F8, F9, F10)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
-                    value.7.try_into().ok().unwrap(),
-                    value.8.try_into().ok().unwrap(),
-                    value.9.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.7.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.8.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.9.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
diff --git a/rstsr-core/src/tensor/adv_indexing.rs b/rstsr-core/src/tensor/adv_indexing.rs
index 1b7f13a..aa25a7a 100644
--- a/rstsr-core/src/tensor/adv_indexing.rs
+++ b/rstsr-core/src/tensor/adv_indexing.rs
@@ -24,7 +24,7 @@ where
     let nshape: usize = tensor_layout.shape()[axis];
     let indices = indices.try_into().map_err(Into::into)?;
     let indices = indices
-        .as_ref()
+        .as_slice_f()?
         .iter()
         .map(|&i| -> Result<usize> {
             let i = if i < 0 { nshape as isize + i } else { i };
@@ -154,7 +154,7 @@ where
     let indices = mask
         .try_into()
         .map_err(Into::into)?
-        .as_ref()
+        .as_slice_f()?
         .iter()
         .enumerate()
         .filter_map(|(i, &m)| m.then_some(i))
diff --git a/rstsr-core/src/tensor/indexing.rs b/rstsr-core/src/tensor/indexing.rs
index 68162e0..f560bae 100644
--- a/rstsr-core/src/tensor/indexing.rs
+++ b/rstsr-core/src/tensor/indexing.rs
@@ -13,7 +13,7 @@ where
 {
     let (data, layout) = tensor.into_raw_parts();
     let index = index.try_into().map_err(Into::into)?;
-    let layout = layout.dim_slice(index.as_ref())?;
+    let layout = layout.dim_slice(index.as_slice_f()?)?;
     return unsafe { Ok(TensorBase::new_unchecked(data, layout)) };
 }
 
diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index c9c5d7a..6622303 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -86,7 +86,7 @@ where
         let axes: Vec<isize> = axes
             .try_into()
             .map_err(Into::into)?
-            .as_ref()
+            .as_slice_f()?
             .iter()
             .map(|&v| if v >= 0 { v } else { v + ndim })
             .collect::<Vec<isize>>();
@@ -241,7 +241,7 @@ where
         let axes: Vec<isize> = axes
             .try_into()
             .map_err(Into::into)?
-            .as_ref()
+            .as_slice_f()?
             .iter()
             .map(|&v| if v >= 0 { v } else { v + ndim })
             .collect::<Vec<isize>>();
@@ -414,7 +414,7 @@ where
         let axes: Vec<isize> = axes
             .try_into()
             .map_err(Into::into)?
-            .as_ref()
+            .as_slice_f()?
             .iter()
             .map(|&v| if v >= 0 { v } else { v + ndim })
             .collect::<Vec<isize>>();
@@ -592,7 +592,7 @@ where
         let axes: Vec<isize> = axes
             .try_into()
             .map_err(Into::into)?
-            .as_ref()
+            .as_slice_f()?
             .iter()
             .map(|&v| if v >= 0 { v } else { v + ndim })
             .collect::<Vec<isize>>();
diff --git a/rstsr-core/src/tensor/manipulation/expand_dims.rs b/rstsr-core/src/tensor/manipulation/expand_dims.rs
index f847062..1813687 100644
--- a/rstsr-core/src/tensor/manipulation/expand_dims.rs
+++ b/rstsr-core/src/tensor/manipulation/expand_dims.rs
@@ -16,7 +16,7 @@ where
     let (storage, layout) = tensor.into_raw_parts();
     let mut layout = layout.into_dim::<IxD>()?;
     let axes = axes.try_into().map_err(Into::into)?;
-    let len_axes = axes.as_ref().len();
+    let len_axes = axes.as_slice_f()?.len();
     let axes = normalize_axes_index(axes, ndim + len_axes, false, true)?;
     for axis in axes {
         layout = layout.dim_insert(axis)?;
diff --git a/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs b/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
index c4370fe..3bd25c5 100644
--- a/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
+++ b/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
@@ -15,7 +15,7 @@ where
     B: DeviceAPI<T>,
     D: DimAPI,
 {
-    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
+    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_slice_f()?, tensor.size())?;
     let order = order.into().unwrap_or(tensor.device().default_order());
     if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
         let (storage, _) = tensor.into_raw_parts();
diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index 8acff2e..35a511b 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -78,7 +78,7 @@ where
     D: DimAPI,
     B: DeviceAPI<T>,
 {
-    let shape = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
+    let shape = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_slice_f()?, tensor.size())?;
     let order = order.unwrap_or_else(|| tensor.device().default_order());
     layout_reshapeable(&tensor.layout().to_dim()?, &shape, order)
 }
@@ -121,7 +121,7 @@ where
     B: DeviceAPI<T> + DeviceRawAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, IxD, D>,
 {
     // own shape, this is cheap operation
-    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
+    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_slice_f()?, tensor.size())?;
     let ReshapeArgs { order, copy } = args.into();
     let order = order.unwrap_or(tensor.device().default_order());
     // also checks that the new shape has the same number of elements
-- 
2.43.0


From 37c86429df5b95ccdc68faee8bddd0984027ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:13 +0000
Subject: [PATCH 60/62] fix: shapes that no memory holds are refused instead of
 overflowing

---
 rstsr-common/src/alloc_vec.rs                 |  4 +--
 rstsr-common/src/layout/indexer.rs            |  4 +--
 rstsr-common/src/layout/layoutbase.rs         | 28 ++++++++++---------
 rstsr-common/src/layout/reshape.rs            |  2 +-
 rstsr-common/src/layout/shape.rs              | 26 ++++++++++-------
 rstsr-core/src/device_cpu_serial/creation.rs  |  4 +++
 .../src/feature_rayon/auto_impl/creation.rs   |  1 +
 rstsr-core/src/tensor/creation_from_tensor.rs |  2 +-
 8 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/rstsr-common/src/alloc_vec.rs b/rstsr-common/src/alloc_vec.rs
index e6785a2..6b67700 100644
--- a/rstsr-common/src/alloc_vec.rs
+++ b/rstsr-common/src/alloc_vec.rs
@@ -87,8 +87,8 @@ pub unsafe fn aligned_uninitialized_vec<T, const N: usize>(size: usize, alignmen
     } else if size < N {
         return unaligned_uninitialized_vec(size);
     } else {
-        let sizeof = core::mem::size_of::<T>();
-        let pointer = aligned_alloc(size * sizeof, alignment)?;
+        let numbytes = alloc::alloc::Layout::array::<T>(size)?.size();
+        let pointer = aligned_alloc(numbytes, alignment)?;
         if let Some(pointer) = pointer {
             let mut v = Vec::from_raw_parts(pointer.as_ptr() as *mut T, size, size);
             unsafe { v.set_len(size) };
diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index 766fde3..086bd9b 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -154,14 +154,14 @@ where
         // that any part of the layout still starts within the storage)
         let len = match step > 0 {
             true if start < stop => (stop - start - 1) / step + 1,
-            false if start > stop => (start - stop - 1) / -step + 1,
+            false if start > stop => ((start - stop - 1) as usize / step.unsigned_abs()) as isize + 1,
             _ => 0,
         };
         let empty = len == 0 || self.size() == 0;
         let offset = if empty { self.offset() } else { (self.offset() as isize + stride[axis] * start) as usize };
         shape[axis] = len as usize;
         if !empty {
-            stride[axis] *= step;
+            stride[axis] = stride[axis].saturating_mul(step);
         }
         return Self::new(shape, stride, offset);
     }
diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 2770490..53b8647 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -65,7 +65,7 @@ where
     /// This function uses cached size, instead of evaluating from shape.
     #[inline]
     pub fn size(&self) -> usize {
-        self.shape().as_ref().iter().product()
+        self.shape().as_ref().iter().fold(1, |acc: usize, &d| acc.saturating_mul(d))
     }
 
     /// Manually set offset.
@@ -155,12 +155,12 @@ where
         }
         let stride = self.stride.as_ref();
         let shape = self.shape.as_ref();
-        let mut acc = 1;
+        let mut acc = 1isize;
         for (ndim, (&s, &d)) in stride.iter().zip(shape.iter()).enumerate() {
             if d != 1 && s != acc {
                 return ndim;
             }
-            acc *= d as isize;
+            acc = acc.saturating_mul(d as isize);
         }
         return self.ndim();
     }
@@ -175,12 +175,12 @@ where
         }
         let stride = self.stride.as_ref();
         let shape = self.shape.as_ref();
-        let mut acc = 1;
+        let mut acc = 1isize;
         for (ndim, (&s, &d)) in stride.iter().zip(shape.iter()).rev().enumerate() {
             if d != 1 && s != acc {
                 return ndim;
             }
-            acc *= d as isize;
+            acc = acc.saturating_mul(d as isize);
         }
         return self.ndim();
     }
@@ -244,17 +244,19 @@ where
             return Ok((offset, offset + 1));
         }
 
+        if shape.contains(&0) {
+            return Ok((offset, offset));
+        }
+
+        let overflow = || rstsr_error!(ValueOutOfRange, "Layout {:?} with stride {:?} is too large.", shape, stride);
         let mut min = offset as isize;
         let mut max = offset as isize;
 
         for i in 0..n {
-            if shape[i] == 0 {
-                return Ok((offset, offset));
-            }
-            if stride[i] > 0 {
-                max += stride[i] * (shape[i] as isize - 1);
-            } else {
-                min += stride[i] * (shape[i] as isize - 1);
+            if stride[i] != 0 {
+                let extent = isize::try_from(shape[i] - 1).ok().and_then(|d| stride[i].checked_mul(d));
+                let bound = if stride[i] > 0 { &mut max } else { &mut min };
+                *bound = extent.and_then(|e| bound.checked_add(e)).ok_or_else(overflow)?;
             }
         }
         rstsr_pattern!(min, 0.., ValueOutOfRange)?;
@@ -314,7 +316,7 @@ where
                 "Either stride be zero, or stride too small that elements in tensor can be overlapped."
             )?;
 
-            elem_cum += (shape_sorted[i] - 1) * stride_sorted[i];
+            elem_cum = usize::saturating_add(elem_cum, (shape_sorted[i] - 1).saturating_mul(stride_sorted[i]));
         }
         return Ok(());
     }
diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 903b801..af22391 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -138,7 +138,7 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
     // substitute negative index
     if let Some(idx_neg1) = idx_neg1 {
         let size_in = size_in as isize;
-        let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
+        let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { isize::saturating_mul(acc, v) });
         rstsr_assert!(
             size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
diff --git a/rstsr-common/src/layout/shape.rs b/rstsr-common/src/layout/shape.rs
index ed9b9c1..3e1bb42 100644
--- a/rstsr-common/src/layout/shape.rs
+++ b/rstsr-common/src/layout/shape.rs
@@ -69,26 +69,32 @@ pub trait DimShapeAPI: DimBaseAPI {
     unsafe fn unravel_index_c(&self, index: usize) -> Self;
 }
 
+/// Lengths beyond `isize` never fit into memory; strides saturate there instead of wrapping around,
+/// and [`Layout::bounds_index`] refuses such layouts.
+fn saturating_isize(d: usize) -> isize {
+    isize::try_from(d).unwrap_or(isize::MAX)
+}
+
 impl<const N: usize> DimShapeAPI for Ix<N> {
     fn shape_size(&self) -> usize {
-        self.iter().product()
+        self.iter().fold(1, |acc: usize, &d| acc.saturating_mul(d))
     }
 
     fn stride_f_contig(&self) -> [isize; N] {
-        let mut stride = [1; N];
+        let mut stride = [1isize; N];
         for i in 1..N {
-            stride[i] = stride[i - 1] * self[i - 1].max(1) as isize;
+            stride[i] = stride[i - 1].saturating_mul(saturating_isize(self[i - 1].max(1)));
         }
         stride
     }
 
     fn stride_c_contig(&self) -> [isize; N] {
-        let mut stride = [1; N];
+        let mut stride = [1isize; N];
         if N == 0 {
             return stride;
         }
         for i in (0..N - 1).rev() {
-            stride[i] = stride[i + 1] * self[i + 1].max(1) as isize;
+            stride[i] = stride[i + 1].saturating_mul(saturating_isize(self[i + 1].max(1)));
         }
         stride
     }
@@ -181,24 +187,24 @@ impl<const N: usize> DimShapeAPI for Ix<N> {
 
 impl DimShapeAPI for IxD {
     fn shape_size(&self) -> usize {
-        self.iter().product()
+        self.iter().fold(1, |acc: usize, &d| acc.saturating_mul(d))
     }
 
     fn stride_f_contig(&self) -> Vec<isize> {
-        let mut stride = vec![1; self.len()];
+        let mut stride = vec![1isize; self.len()];
         for i in 1..self.len() {
-            stride[i] = stride[i - 1] * self[i - 1] as isize;
+            stride[i] = stride[i - 1].saturating_mul(saturating_isize(self[i - 1]));
         }
         stride
     }
 
     fn stride_c_contig(&self) -> Vec<isize> {
-        let mut stride = vec![1; self.len()];
+        let mut stride = vec![1isize; self.len()];
         if self.is_empty() {
             return stride;
         }
         for i in (0..self.len() - 1).rev() {
-            stride[i] = stride[i + 1] * self[i + 1] as isize;
+            stride[i] = stride[i + 1].saturating_mul(saturating_isize(self[i + 1]));
         }
         stride
     }
diff --git a/rstsr-core/src/device_cpu_serial/creation.rs b/rstsr-core/src/device_cpu_serial/creation.rs
index df26666..5437583 100644
--- a/rstsr-core/src/device_cpu_serial/creation.rs
+++ b/rstsr-core/src/device_cpu_serial/creation.rs
@@ -14,6 +14,7 @@ where
     where
         T: Clone,
     {
+        core::alloc::Layout::array::<T>(len)?; // refuses what no memory holds
         let raw = vec![fill; len];
         Ok(Storage::new(raw.into(), self.clone()))
     }
@@ -58,11 +59,13 @@ where
     DeviceCpuSerial: DeviceRawAPI<T, Raw = Vec<T>>,
 {
     fn zeros_impl(&self, len: usize) -> Result<Storage<DataOwned<Vec<T>>, T, DeviceCpuSerial>> {
+        core::alloc::Layout::array::<T>(len)?; // refuses what no memory holds
         let raw = vec![T::zero(); len];
         Ok(Storage::new(raw.into(), self.clone()))
     }
 
     fn ones_impl(&self, len: usize) -> Result<Storage<DataOwned<Vec<T>>, T, DeviceCpuSerial>> {
+        core::alloc::Layout::array::<T>(len)?; // refuses what no memory holds
         let raw = vec![T::one(); len];
         Ok(Storage::new(raw.into(), self.clone()))
     }
@@ -99,6 +102,7 @@ where
             return Ok(Storage::new(vec![start].into(), self.clone()));
         }
 
+        core::alloc::Layout::array::<T>(n)?; // refuses what no memory holds
         let mut raw = Vec::with_capacity(n);
         let step = match endpoint {
             true => (end - start) / T::from(n - 1).unwrap(),
diff --git a/rstsr-core/src/feature_rayon/auto_impl/creation.rs b/rstsr-core/src/feature_rayon/auto_impl/creation.rs
index b11964e..7c14f09 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/creation.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/creation.rs
@@ -90,6 +90,7 @@ where
     Self: DeviceRawAPI<T, Raw = Vec<T>>,
 {
     fn linspace_impl(&self, start: T, end: T, n: usize, endpoint: bool) -> Result<Storage<DataOwned<Vec<T>>, T, Self>> {
+        core::alloc::Layout::array::<T>(n)?; // refuses what no memory holds
         let pool = self.get_current_pool();
         let raw = linspace_cpu_rayon(start, end, n, endpoint, pool).ok_or_else(|| {
             rstsr_error!(InvalidValue, "failed to create linspace parallel, probably due to too large `n`")
diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 1bda408..4d6a8a9 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -58,7 +58,7 @@ where
         let (tensor, offset) = self;
         if tensor.ndim() == 1 {
             let layout_diag = tensor.layout().to_dim::<Ix1>()?;
-            let n_row = tensor.size() + offset.unsigned_abs();
+            let n_row = tensor.size().saturating_add(offset.unsigned_abs());
             let mut result = full_f(([n_row, n_row], T::default(), tensor.device()))?;
             let layout_result = result.layout().diagonal(Some(offset), Some(0), Some(1))?;
             let device = tensor.device();
-- 
2.43.0


From d570f9056d57f6c3eabce911b15e610183c0a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:20 +0000
Subject: [PATCH 61/62] fix: sequential traversal of scalars and of layouts
 with negative strides

---
 rstsr-common/src/layout/rearrangement.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rstsr-common/src/layout/rearrangement.rs b/rstsr-common/src/layout/rearrangement.rs
index 0464e7f..cfc8dc2 100644
--- a/rstsr-common/src/layout/rearrangement.rs
+++ b/rstsr-common/src/layout/rearrangement.rs
@@ -178,13 +178,12 @@ where
         )?;
         let mut shape = l.new_shape();
         let mut stride = l.new_stride();
-        shape[0] = l.size();
-        stride[0] = 1;
-        for i in 1..l.ndim() {
-            shape[i] = 1;
-            stride[i] = l.size() as isize;
+        for i in 0..l.ndim() {
+            shape[i] = if i == 0 { l.size() } else { 1 };
+            stride[i] = if i == 0 { 1 } else { l.size() as isize };
         }
-        Ok(unsafe { Layout::new_unchecked(shape, stride, l.offset()) })
+        // with negative strides, the memory starts before the first element
+        Ok(unsafe { Layout::new_unchecked(shape, stride, bounds_min) })
     };
     match order {
         Order::C => fn_c(layout),
-- 
2.43.0


From 768f1a2309e0cbe1ba794f5bed1b85ffd2744238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:20 +0000
Subject: [PATCH 62/62] fix: shape and strides of different lengths are refused
 instead of panicking

---
 rstsr-common/src/layout/layoutbase.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 53b8647..dacdd7a 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -402,6 +402,12 @@ where
     where
         D: DimShapeAPI,
     {
+        rstsr_assert_eq!(
+            shape.as_ref().len(),
+            stride.as_ref().len(),
+            InvalidLayout,
+            "Shape and stride should have the same number of dimensions."
+        )?;
         let layout = unsafe { Layout::new_unchecked(shape, stride, offset) };
         layout.bounds_index()?;
         layout.check_strides(true)?;
-- 
2.43.0

