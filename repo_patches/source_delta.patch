From 3922da425c280fe9008163d52fcb76f57b121d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 01/13] fix: compute the end of the last row from the stride
 when checking buffer lengths

out_of_bounds() took the stride and the row width in swapped positions, so
padded images of three or more rows were accepted with buffers that end before
their last row, and were then read and written out of bounds.
---
 src/convert_image/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index fd09d25..bc34830 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -82,7 +82,7 @@ pub fn lower_multiple_of_pot(x: usize, p: usize) -> usize {
     x & !(p - 1)
 }
 
-pub fn out_of_bounds(size: usize, width: usize, height_minus_one: usize, stride: usize) -> bool {
+pub fn out_of_bounds(size: usize, stride: usize, height_minus_one: usize, width: usize) -> bool {
     width > size
         || (height_minus_one != 0
             && ((stride > usize::MAX / height_minus_one)
-- 
2.43.0


From 3015cac319997a9841fe76d1ea15f16791c93dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 02/13] fix: check the whole pixel row in the RGB to RGB buffer
 length tests

The length tests of rgb_bgra, bgra_rgb and bgr_rgb counted one byte per pixel
instead of three or four, so buffers shorter than the image were accepted and
overrun by up to (depth - 1) * width bytes in the last row.
---
 src/convert_image/avx2.rs | 12 ++++++------
 src/convert_image/neon.rs | 12 ++++++------
 src/convert_image/sse2.rs |  4 ++--
 src/convert_image/x86.rs  | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index b9503ba..7fcaf0a 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -2122,8 +2122,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2200,8 +2200,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2250,8 +2250,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 9d6c820..fb7d2a5 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -873,8 +873,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
@@ -950,8 +950,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1028,8 +1028,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 9a0bfba..7a4616d 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1613,8 +1613,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index e9f0d89..12ee5c4 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1462,8 +1462,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1511,8 +1511,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1559,8 +1559,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
-- 
2.43.0


From ae9deccc6c2752b7a06d841bc7e26b98ad8ffbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 03/13] fix: keep vector loads of 24-bit pixels inside the
 source row

The AVX2 and SSE2 bgr to yuv kernels load 32 and 16 bytes for every 24 and 12
they use. When the vector part reached the end of the row (or left less than
the excess), the last load of the last row read up to 8 bytes past the source
buffer.
---
 src/convert_image/avx2.rs | 12 +++++++++---
 src/convert_image/sse2.rs | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 7fcaf0a..1fa8c48 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1805,7 +1805,9 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Each load reads 8 bytes past the pixels it unpacks. Leave enough pixels to the
+        // scalar part for the last load not to cross the end of the row
+        (DEPTH * RGB_TO_YUV_WAVES) * (w.saturating_sub(3) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1895,7 +1897,9 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Each load reads 8 bytes past the pixels it unpacks. Leave enough pixels to the
+        // scalar part for the last load not to cross the end of the row
+        (DEPTH * RGB_TO_YUV_WAVES) * (w.saturating_sub(3) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1984,7 +1988,9 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Each load reads 8 bytes past the pixels it unpacks. Leave enough pixels to the
+        // scalar part for the last load not to cross the end of the row
+        (DEPTH * RGB_TO_YUV_WAVES) * (w.saturating_sub(3) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 7a4616d..3e708d3 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1252,7 +1252,9 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Each load reads 4 bytes past the pixels it unpacks. Leave enough pixels to the
+        // scalar part for the last load not to cross the end of the row
+        (DEPTH * RGB_TO_YUV_WAVES) * (w.saturating_sub(2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1342,7 +1344,9 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Each load reads 4 bytes past the pixels it unpacks. Leave enough pixels to the
+        // scalar part for the last load not to cross the end of the row
+        (DEPTH * RGB_TO_YUV_WAVES) * (w.saturating_sub(2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1431,7 +1435,9 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Each load reads 4 bytes past the pixels it unpacks. Leave enough pixels to the
+        // scalar part for the last load not to cross the end of the row
+        (DEPTH * RGB_TO_YUV_WAVES) * (w.saturating_sub(2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
-- 
2.43.0


From 1b88b655087189b7941eda45d81940538b438651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 04/13] fix: do not overflow on single-buffer NV12 images with
 huge strides

The size of the luma part was computed as stride * height before any bound was
checked, which panics in overflow-checked builds and wraps in the others.
Saturate the product: such a buffer can never be long enough.
---
 src/convert_image/avx2.rs | 4 ++--
 src/convert_image/neon.rs | 2 +-
 src/convert_image/sse2.rs | 4 ++--
 src/convert_image/x86.rs  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 1fa8c48..484bd75 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1498,7 +1498,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_buffers.0.len() < src_strides.0.saturating_mul(h) {
             return false;
         }
 
@@ -1784,7 +1784,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index fb7d2a5..5c25782 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -456,7 +456,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 3e708d3..4ac6419 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -953,7 +953,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_buffers.0.len() < src_strides.0.saturating_mul(h) {
             return false;
         }
 
@@ -1231,7 +1231,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 12ee5c4..ba34d56 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1018,7 +1018,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_buffers.0.len() < src_strides.0.saturating_mul(h) {
             return false;
         }
 
@@ -1328,7 +1328,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
-- 
2.43.0


From 4d36b8a97b6b5582d8aeab2e961074da6f0c6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 05/13] fix: accept rows that overlap in RGB to RGB conversions

The RGB to RGB kernels subtracted the row length from the stride, which
underflows (a panic in overflow-checked builds) when the stride is shorter than
a row, and made the scalar kernel read past the source in some of these cases.
Address each row from its stride like the other kernels do.
---
 src/convert_image/avx2.rs | 21 +++++++--------------
 src/convert_image/sse2.rs | 11 +++--------
 src/convert_image/x86.rs  | 20 ++++++--------------
 3 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 484bd75..8e3d47b 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1270,15 +1270,13 @@ unsafe fn bgra_to_rgb_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, LANE_COUNT);
     let limit = lower_multiple_of_pot(width, ITEMS_PER_ITERATION);
 
     for i in 0..height {
         let mut y = 0;
-        let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-        let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
         while y < limit_4x {
             let src_ptr: *const __m256i = src_group.add(src_offset).cast();
@@ -1354,8 +1352,8 @@ unsafe fn bgra_to_rgb_avx2(
                     *src_group.add((SRC_DEPTH * y) + src_offset);
             }
 
-            src_offset += (SRC_DEPTH * width) + src_stride_diff;
-            dst_offset += (DST_DEPTH * width) + dst_stride_diff;
+            src_offset += src_stride;
+            dst_offset += dst_stride;
         }
     }
 }
@@ -1382,12 +1380,10 @@ unsafe fn rgb_to_bgra_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for y in 0..height {
+        let mut src_offset = src_stride * y;
+        let mut dst_offset = dst_stride * y;
 
-    for _ in 0..height {
         _mm_prefetch(src_group.cast::<i8>(), _MM_HINT_NTA);
 
         for _ in (0..width).step_by(LANE_COUNT) {
@@ -1449,9 +1445,6 @@ unsafe fn rgb_to_bgra_avx2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 4ac6419..c26efee 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -857,12 +857,10 @@ unsafe fn rgb_to_bgra_sse2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for y in 0..height {
+        let mut src_offset = src_stride * y;
+        let mut dst_offset = dst_stride * y;
 
-    for _ in 0..height {
         for _ in (0..width).step_by(LANE_COUNT) {
             let src_ptr: *const __m128i = src_group.add(src_offset).cast();
             let dst_ptr: *mut __m128i = dst_group.add(dst_offset).cast();
@@ -904,9 +902,6 @@ unsafe fn rgb_to_bgra_sse2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index ba34d56..fbe8916 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -704,17 +704,17 @@ pub fn rgb_to_bgra(
     const DST_DEPTH: usize = 4;
     const ITEMS_PER_ITERATION: usize = 8;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
+    // Rows may overlap (stride shorter than a row), there is no padding in that case
+    let src_stride_diff = src_stride.saturating_sub(SRC_DEPTH * width);
 
     unsafe {
         let src_group = src_buffer.as_ptr();
         let dst_group = dst_buffer.as_mut_ptr();
-        let mut src_offset = 0;
-        let mut dst_offset = 0;
 
         for y in 0..height {
             let is_last_line = y == height - 1;
+            let mut src_offset = src_stride * y;
+            let mut dst_offset = dst_stride * y;
 
             // For single swap iteration, since the swap is done on 32 bits while the input is only
             // 24 bits (RGB), to avoid reading an extra byte of memory that could be outside the
@@ -806,13 +806,7 @@ pub fn rgb_to_bgra(
                 *dst_group.add(dst_offset + 1) = *src_group.add(src_offset + 1);
                 *dst_group.add(dst_offset + 2) = *src_group.add(src_offset);
                 *dst_group.add(dst_offset + 3) = 0xFF;
-
-                src_offset += SRC_DEPTH;
-                dst_offset += DST_DEPTH;
             }
-
-            src_offset += src_stride_diff;
-            dst_offset += dst_stride_diff;
         }
     }
 }
@@ -915,8 +909,6 @@ pub fn bgra_to_rgb(
     const HIGH_MASK: u64 = 0xFFFF_FF00_0000_0000;
     const LOW_MASK: u64 = 0x0000_00FF_FFFF_0000;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);
 
     unsafe {
@@ -925,8 +917,8 @@ pub fn bgra_to_rgb(
 
         for i in 0..height {
             let mut y = 0;
-            let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-            let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+            let mut src_offset = src_stride * i;
+            let mut dst_offset = dst_stride * i;
 
             while y < limit_4x {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-- 
2.43.0


From 378561375b6d9c16896f7f4b856763a452974338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 06/13] fix: center the full range inverse transform on 128

The offsets of the full range YUV to RGB conversions were computed around a
chroma midpoint of 127 (the integer half of 0 and 255), while the forward
transform and the formulas of the documentation are centered on 128. Greys
were decoded with a color cast of up to three units.
---
 genweights.py               |  2 +-
 src/convert_image/common.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/genweights.py b/genweights.py
index 6717b2a..3d56092 100644
--- a/genweights.py
+++ b/genweights.py
@@ -202,7 +202,7 @@ if __name__ == '__main__':
         SUFFIX = ""
 
     Y_RANGE = Y_MAX - Y_MIN
-    C_HALF = (C_MAX + C_MIN) >> 1
+    C_HALF = 128
     C_RANGE = C_MAX - C_MIN
     Y_SCALE = (Y_RANGE / FULL_RANGE)
     C_SCALE = (C_RANGE / FULL_RANGE)
diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index bc34830..7952cb3 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -152,9 +152,9 @@ pub const RCRM_601FR: i32 = 22970;
 pub const GCRM_601FR: i32 = 11700;
 pub const GCBM_601FR: i32 = 5638;
 pub const BCBM_601FR: i32 = 29032;
-pub const RN_601FR: i32 = 11363;
-pub const GP_601FR: i32 = 8633;
-pub const BN_601FR: i32 = 14370;
+pub const RN_601FR: i32 = 11453;
+pub const GP_601FR: i32 = 8701;
+pub const BN_601FR: i32 = 14484;
 
 // Coefficient table for 709 (full range)
 pub const XR_709FR: i32 = 13933;
@@ -169,9 +169,9 @@ pub const RCRM_709FR: i32 = 25802;
 pub const GCRM_709FR: i32 = 7670;
 pub const GCBM_709FR: i32 = 3069;
 pub const BCBM_709FR: i32 = 30402;
-pub const RN_709FR: i32 = 12768;
-pub const GP_709FR: i32 = 5359;
-pub const BN_709FR: i32 = 15050;
+pub const RN_709FR: i32 = 12869;
+pub const GP_709FR: i32 = 5401;
+pub const BN_709FR: i32 = 15169;
 
 // Other defines
 pub const Y_MIN: i32 = 16;
-- 
2.43.0


From 098ad42f5e6f119d8089031c20cf4b23580a1984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 07/13] fix: check C enumeration values before they are read as
 Rust enums

Reading an out of range number through a Rust enum is undefined behaviour, and
current compilers drop the range checks that came after it: unknown color
spaces were reported as an invalid operation and dcp_get_buffers_size indexed
past its tables (crashing) when given an unknown pixel format.
---
 src/lib.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d7071ab..c6c91f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1012,6 +1012,17 @@ pub mod c_api {
         self::Result::Err
     }
 
+    /// Returns pixel format and color space as plain numbers.
+    ///
+    /// An enum that does not hold one of its variants is undefined behaviour. Until the
+    /// numbers a C caller provided are known to be valid, no such enum may be read.
+    unsafe fn raw_format(format: *const ImageFormat) -> (u32, u32) {
+        (
+            ptr::addr_of!((*format).pixel_format).cast::<u32>().read(),
+            ptr::addr_of!((*format).color_space).cast::<u32>().read(),
+        )
+    }
+
     #[no_mangle]
     pub extern "C" fn dcp_describe_acceleration() -> *mut c_char {
         let acc = describe_acceleration();
@@ -1045,12 +1056,18 @@ pub mod c_api {
         }
 
         // C enums are untrusted in the sense you can cast any value to an enum type
-        let format = &*format;
-        let pixel_format = format.pixel_format as u32;
+        let (pixel_format, _) = raw_format(format);
         if !dispatcher::is_pixel_format_valid(pixel_format) {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        // The color space has no influence on the size and might not be a valid one
+        let format = &ImageFormat {
+            pixel_format: ptr::addr_of!((*format).pixel_format).read(),
+            color_space: ColorSpace::Rgb,
+            num_planes: ptr::addr_of!((*format).num_planes).read(),
+        };
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         let num_planes = format.num_planes as usize;
@@ -1094,18 +1111,19 @@ pub mod c_api {
         }
 
         // C enums are untrusted in the sense you can cast any value to an enum type
-        let src_format: &ImageFormat = &*src_format;
-        let dst_format: &ImageFormat = &*dst_format;
-        let src_pixel_format = src_format.pixel_format as u32;
-        let dst_pixel_format = dst_format.pixel_format as u32;
+        let (src_pixel_format, src_color_space) = raw_format(src_format);
+        let (dst_pixel_format, dst_color_space) = raw_format(dst_format);
         if !dispatcher::is_pixel_format_valid(src_pixel_format)
             || !dispatcher::is_pixel_format_valid(dst_pixel_format)
-            || !dispatcher::is_color_space_valid(src_format.color_space as u32)
-            || !dispatcher::is_color_space_valid(dst_format.color_space as u32)
+            || !dispatcher::is_color_space_valid(src_color_space)
+            || !dispatcher::is_color_space_valid(dst_color_space)
         {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        let src_format: &ImageFormat = &*src_format;
+        let dst_format: &ImageFormat = &*dst_format;
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         if !are_planes_compatible(src_pixel_format, src_format.num_planes)
-- 
2.43.0


From 39aec13bc25ae3203b30dfbd31be8235de3de9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 08/13] fix: give C stride arrays the length they have

A slice of isize::MAX strides exceeds the maximum size of an object: building
one is undefined behaviour, and it aborts when debug assertions are on.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c6c91f8..1cbc2d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1172,13 +1172,19 @@ pub mod c_api {
         let src_strides = if src_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(src_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                src_strides,
+                src_format.num_planes as usize,
+            ))
         };
 
         let dst_strides = if dst_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(dst_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                dst_strides,
+                dst_format.num_planes as usize,
+            ))
         };
 
         match convert_image(
-- 
2.43.0


From 40aebd74f232b1a99aed948783ed80827ac9d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 09/13] fix: report the size of single buffer images with
 custom strides

Images stored in one buffer share one stride, but the size query applied it to
the first part of the image only: it asked for too much memory for RGB images,
and for too little for NV12 ones, whose buffer was then refused by the
conversion functions.
---
 src/pixel_format.rs | 50 ++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index c88300d..97b6e4b 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -203,32 +203,44 @@ pub fn get_buffers_size(
         return false;
     }
 
-    let stride = &mut [0_usize; MAX_NUMBER_OF_PLANES];
+    let pixel_format_index = pixel_format as usize;
+    let stride_spec = STRIDE_SPECS[pixel_format_index];
+    let height_spec = HEIGHT_SPECS[pixel_format_index];
+    let get_packed_stride =
+        |i| get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i);
 
-    let pixel_format = pixel_format as usize;
-    let stride_spec = STRIDE_SPECS[pixel_format];
-    for i in 0..MAX_NUMBER_OF_PLANES {
-        stride[i] = if i >= strides.len() || strides[i] == STRIDE_AUTO {
-            get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i)
+    if last_plane == 0 {
+        // All the parts of the image are laid out in the same buffer, with the same stride
+        let (packed_stride, rows) = if pixel_format == (PixelFormat::Nv12 as u32) {
+            (
+                get_packed_stride(0),
+                get_plane_spec(height, height_spec, 0) + get_plane_spec(height, height_spec, 1),
+            )
         } else {
-            strides[i]
+            (
+                (0..MAX_NUMBER_OF_PLANES).map(get_packed_stride).sum(),
+                get_plane_spec(height, height_spec, 0),
+            )
         };
-    }
 
-    let height_spec = HEIGHT_SPECS[pixel_format];
-    if last_plane == 0 {
-        buffers_size[0] = ((stride[0] * get_plane_spec(height, height_spec, 0))
-            + (stride[1] * get_plane_spec(height, height_spec, 1)))
-            + ((stride[2] * get_plane_spec(height, height_spec, 2))
-                + (stride[3] * get_plane_spec(height, height_spec, 3)));
+        let stride = if strides[0] == STRIDE_AUTO {
+            packed_stride
+        } else {
+            strides[0]
+        };
+
+        buffers_size[0] = stride * rows;
     } else {
         let buffer_array = &mut buffers_size[..=last_plane];
-        let stride_array = &stride[..=last_plane];
 
-        for (buffer_size, (i, stride)) in
-            buffer_array.iter_mut().zip(stride_array.iter().enumerate())
-        {
-            *buffer_size = *stride * get_plane_spec(height, height_spec, i);
+        for (i, (buffer_size, &stride)) in buffer_array.iter_mut().zip(strides.iter()).enumerate() {
+            let stride = if stride == STRIDE_AUTO {
+                get_packed_stride(i)
+            } else {
+                stride
+            };
+
+            *buffer_size = stride * get_plane_spec(height, height_spec, i);
         }
     }
 
-- 
2.43.0


From 4ca1145f3223f971f83cafb3a47bc499ad8ddab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 10/13] fix: refuse buffer sizes that cannot be represented

The products of strides and heights wrapped around, so that huge images were
reported to need little memory, and panicked in overflow-checked builds.
---
 src/lib.rs          | 10 ++++------
 src/pixel_format.rs | 32 +++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1cbc2d9..8a63db0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -711,6 +711,8 @@ pub fn describe_acceleration() -> String {
 /// * [`InvalidValue`] if the image format has a number of planes which is not compatible
 ///   with its pixel format
 ///
+/// * [`InvalidValue`] if the number of bytes required is too large to be represented
+///
 /// * [`NotEnoughData`] if the strides array is not `None` and its length is less than the
 ///   image format number of planes
 ///
@@ -734,18 +736,14 @@ pub fn get_buffers_size(
         return Err(ErrorKind::InvalidValue);
     }
 
-    if pixel_format::get_buffers_size(
+    pixel_format::get_buffers_size(
         pixel_format,
         width,
         height,
         last_plane,
         strides.unwrap_or(&pixel_format::DEFAULT_STRIDES),
         buffers_size,
-    ) {
-        Ok(())
-    } else {
-        Err(ErrorKind::NotEnoughData)
-    }
+    )
 }
 
 /// Converts from a color space to another one, applying downsampling/upsampling
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index 97b6e4b..eda11d7 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -13,6 +13,8 @@
 // HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
 // OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 // SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+use crate::ErrorKind;
+
 pub const MAX_NUMBER_OF_PLANES: usize = 4;
 
 /// An enumeration of supported pixel formats.
@@ -187,6 +189,10 @@ pub fn is_compatible(pixel_format: u32, width: u32, height: u32, last_plane: u32
         == 0
 }
 
+fn checked_size(stride: usize, rows: usize) -> Result<usize, ErrorKind> {
+    stride.checked_mul(rows).ok_or(ErrorKind::InvalidValue)
+}
+
 pub fn get_buffers_size(
     pixel_format: u32,
     width: u32,
@@ -194,13 +200,13 @@ pub fn get_buffers_size(
     last_plane: u32,
     strides: &[usize],
     buffers_size: &mut [usize],
-) -> bool {
+) -> Result<(), ErrorKind> {
     let last_plane = last_plane as usize;
     if last_plane >= MAX_NUMBER_OF_PLANES
         || last_plane >= strides.len()
         || last_plane >= buffers_size.len()
     {
-        return false;
+        return Err(ErrorKind::NotEnoughData);
     }
 
     let pixel_format_index = pixel_format as usize;
@@ -214,11 +220,17 @@ pub fn get_buffers_size(
         let (packed_stride, rows) = if pixel_format == (PixelFormat::Nv12 as u32) {
             (
                 get_packed_stride(0),
-                get_plane_spec(height, height_spec, 0) + get_plane_spec(height, height_spec, 1),
+                get_plane_spec(height, height_spec, 0).saturating_add(get_plane_spec(
+                    height,
+                    height_spec,
+                    1,
+                )),
             )
         } else {
             (
-                (0..MAX_NUMBER_OF_PLANES).map(get_packed_stride).sum(),
+                (0..MAX_NUMBER_OF_PLANES)
+                    .map(get_packed_stride)
+                    .fold(0, usize::saturating_add),
                 get_plane_spec(height, height_spec, 0),
             )
         };
@@ -229,22 +241,24 @@ pub fn get_buffers_size(
             strides[0]
         };
 
-        buffers_size[0] = stride * rows;
+        buffers_size[0] = checked_size(stride, rows)?;
     } else {
-        let buffer_array = &mut buffers_size[..=last_plane];
+        let mut sizes = [0_usize; MAX_NUMBER_OF_PLANES];
 
-        for (i, (buffer_size, &stride)) in buffer_array.iter_mut().zip(strides.iter()).enumerate() {
+        for (i, (size, &stride)) in sizes[..=last_plane].iter_mut().zip(strides).enumerate() {
             let stride = if stride == STRIDE_AUTO {
                 get_packed_stride(i)
             } else {
                 stride
             };
 
-            *buffer_size = stride * get_plane_spec(height, height_spec, i);
+            *size = checked_size(stride, get_plane_spec(height, height_spec, i))?;
         }
+
+        buffers_size[..=last_plane].copy_from_slice(&sizes[..=last_plane]);
     }
 
-    true
+    Ok(())
 }
 
 #[cfg(not(feature = "test_instruction_sets"))]
-- 
2.43.0


From e19c9b7bc2a9f042092e3fc200e1020db2f5d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 11/13] fix: select avx2 only when the operating system
 supports it

CPUID leaf 7 was read without checking that it exists, and the state saving
support of the operating system was not checked at all: on systems that do not
enable the AVX state, conversions died with an illegal instruction.
---
 src/cpu_info.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index 0718968..9d02db5 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -19,6 +19,8 @@ use core::arch::x86::__cpuid;
 use core::arch::x86_64::__cpuid;
 #[cfg(target_arch = "aarch64")]
 use std::arch::is_aarch64_feature_detected;
+#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+use std::arch::is_x86_feature_detected;
 
 #[derive(Debug)]
 pub enum CpuManufacturer {
@@ -86,15 +88,13 @@ pub fn get() -> (CpuManufacturer, InstructionSet) {
             // On AMD cpus, all encode/decode using avx2 have worse performance than sse2 ones
             // For now, disable the avx2 path even if supported.
             // See https://en.wikipedia.org/wiki/CPUID for additional details
-            match manufacturer {
-                CpuManufacturer::Amd => features[1] = 0,
-                _ => cpuid(7, features),
-            }
+            let is_amd = matches!(manufacturer, CpuManufacturer::Amd);
 
-            set = if (features[1] & (1 << 5)) == 0 {
-                InstructionSet::Sse2
-            } else {
+            // Besides the CPU, the operating system has to support avx2 as well
+            set = if !is_amd && is_x86_feature_detected!("avx2") {
                 InstructionSet::Avx2
+            } else {
+                InstructionSet::Sse2
             };
         }
     }
-- 
2.43.0


From 8efe72f9dd13b3798a166e1b2b62342ae8215e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 12/13] fix: saturate the blue sum of the SSE2 and AVX2 YUV to
 RGB kernels

In limited range, luma and Cb near their maxima add up to more than 32767.
The sum wrapped around, so that the brightest blues became 0 instead of 255
(and differed from the scalar implementation).
---
 src/convert_image/avx2.rs | 66 +++++++++++++++++++--------------------
 src/convert_image/sse2.rs | 48 ++++++++++++++--------------
 2 files changed, 58 insertions(+), 56 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 8e3d47b..bfca02a 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -23,30 +23,30 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16, _mm256_or_si256,
-    _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256, _mm256_permute4x64_epi64,
-    _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
+    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
+    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8,
+    _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32,
+    _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32,
+    _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8,
+    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8,
+    _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
-    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
-    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16,
+    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
+    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
+    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32,
+    _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16,
+    _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16,
+    _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64,
+    _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -724,7 +724,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -739,7 +739,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -760,7 +760,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -775,7 +775,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -843,7 +843,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -858,7 +858,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -879,7 +879,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -894,7 +894,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -963,7 +963,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -978,7 +978,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -999,7 +999,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -1014,7 +1014,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -1102,7 +1102,7 @@ unsafe fn i444_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y_lo), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index c26efee..a320d5f 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -23,24 +23,26 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 const LANE_COUNT: usize = 16;
@@ -642,7 +644,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
@@ -650,7 +652,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -664,7 +666,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
@@ -672,7 +674,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -734,7 +736,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
@@ -742,7 +744,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -756,7 +758,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
@@ -764,7 +766,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -832,7 +834,7 @@ unsafe fn i444_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y_lo), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
-- 
2.43.0


From 2445184d4d6cf0c2e2d85b1dfd15c024357a0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 13/13] fix: include stddef.h in the C header, which uses
 size_t

---
 include/dcv_color_primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcv_color_primitives.h b/include/dcv_color_primitives.h
index 103f011..2060946 100644
--- a/include/dcv_color_primitives.h
+++ b/include/dcv_color_primitives.h
@@ -246,6 +246,7 @@
 extern "C" {
 #endif
 
+#include <stddef.h>
 #include <stdint.h>
 
 /**
-- 
2.43.0

