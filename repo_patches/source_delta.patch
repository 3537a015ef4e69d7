From a3a745b4efd07229c0ef14b6fead8b177a797a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 01/14] fix: read the second chroma row of 4:4:4 images with
 the chroma strides

---
 src/formats/i444/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/i444/read.rs b/src/formats/i444/read.rs
index e495f0d..944b2cc 100644
--- a/src/formats/i444/read.rs
+++ b/src/formats/i444/read.rs
@@ -45,10 +45,10 @@ impl<P: Primitive> I444Src for I444Reader<'_, P> {
         let y10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
 
         let u00_offset = (y * self.u_stride) + x * P::SIZE;
-        let u10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let u10_offset = ((y + 1) * self.u_stride) + x * P::SIZE;
 
         let v00_offset = (y * self.v_stride) + x * P::SIZE;
-        let v10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let v10_offset = ((y + 1) * self.v_stride) + x * P::SIZE;
 
         // Load Y pixels
         let y00 = P::load::<V>(&self.y[y00_offset..]);
-- 
2.43.0


From 3f2c34d5792f98ff68ea5e1fa8f8f9312a9dfe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 02/14] fix: BT.2020 luma coefficient of green is 0.6780

---
 src/color/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 286f6e6..a1038b1 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -290,7 +290,7 @@ macro_rules! make_matrices {
 make_matrices! {
     BT601_YUV_TO_RGB, BT601_RGB_TO_YUV: 0.299,  0.587,  0.114;
     BT709_YUV_TO_RGB, BT709_RGB_TO_YUV: 0.2126, 0.7152, 0.0722;
-    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.322, 0.0593;
+    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.6780, 0.0593;
 }
 
 type BT2100ConvertFn<V> = unsafe fn(ColorTransfer, &[[f32; 3]; 3], V, V, V) -> (V, V, V);
-- 
2.43.0


From 20f7c4565f7633cdcead2a81254c64d2aa1a6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 03/14] fix: use the same offset in both directions of the SDR
 transfer

---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 319602c..dacd52e 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -176,8 +176,8 @@ mod sdr {
         // a = i / 4.5
         let a = i.vdivf(4.5);
 
-        // b = ((i + 0.0993) / 1.099).powf(1.0 / 0.45)
-        let b = i.vaddf(0.0993).vdivf(1.099).vpowf(1.0 / 0.45);
+        // b = ((i + 0.099) / 1.099).powf(1.0 / 0.45)
+        let b = i.vaddf(0.099).vdivf(1.099).vpowf(1.0 / 0.45);
 
         V::select(a, b, mask)
     }
-- 
2.43.0


From 59033e72752221d9df1ad82c2dfb95323c907425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 04/14] fix: keep negative values from turning into NaN in the
 pure gamma transfers

---
 src/color/transfer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index dacd52e..4f03cf4 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -114,11 +114,17 @@ mod gamma {
 
     #[inline(always)]
     pub(super) unsafe fn linear_to_scaled<const GAMMA: u32, V: Vector>(i: V) -> V {
+        // Avoid producing NaN for negative numbers
+        let i = i.vmaxf(0.0);
+
         i.vpowf(1.0 / (GAMMA as f32 / 10.0))
     }
 
     #[inline(always)]
     pub(super) unsafe fn scaled_to_linear<const GAMMA: u32, V: Vector>(i: V) -> V {
+        // Avoid producing NaN for negative numbers
+        let i = i.vmaxf(0.0);
+
         i.vpowf(GAMMA as f32 / 10.0)
     }
 }
-- 
2.43.0


From ac74512c156406a9014170cc0f03ab8e9312f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 05/14] fix: average the chroma of all four pixels when
 subsampling ICtCp

---
 src/color/space.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index a1038b1..f92912e 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -337,11 +337,12 @@ unsafe fn bt2100_rgbx4_to_yx4_uv<V: Vector>(
     let yuv10 = f(transfer, rgb_to_xyz, r[2], g[2], b[2]);
     let yuv11 = f(transfer, rgb_to_xyz, r[3], g[3], b[3]);
 
-    let u = yuv00.1.vadd(yuv01.1).vadd(yuv00.1).vadd(yuv00.1);
-    let v = yuv00.2.vadd(yuv01.2).vadd(yuv00.2).vadd(yuv00.2);
+    // Add the upper and lower pixels, then the left and right ones of every 2x2 block
+    let (u_left, u_right) = yuv00.1.vadd(yuv10.1).unzip(yuv01.1.vadd(yuv11.1));
+    let (v_left, v_right) = yuv00.2.vadd(yuv10.2).unzip(yuv01.2.vadd(yuv11.2));
 
-    let u = u.vdivf(4.0);
-    let v = v.vdivf(4.0);
+    let u = u_left.vadd(u_right).vdivf(4.0);
+    let v = v_left.vadd(v_right).vdivf(4.0);
 
     ([yuv00.0, yuv01.0, yuv10.0, yuv11.0], u, v)
 }
-- 
2.43.0


From 4c80be08261b758f973bf3a59362159e7dcedc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 06/14] fix: crop at the right byte offset and accept windows
 ending in the last, unpadded row

---
 src/copy.rs         | 12 +++++++++---
 src/crop.rs         |  7 +++++--
 src/multi_thread.rs |  2 ++
 src/pixel_format.rs |  7 +++++--
 src/resize.rs       | 12 ++++++++----
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/copy.rs b/src/copy.rs
index de1a71a..aeb29cf 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -16,10 +16,16 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
     for (desc, ((src_plane, src_stride), (dst_plane, dst_stride))) in
         desc.iter().zip(planes.zip(planes_mut))
     {
-        let n = desc.width_op.op(src.width()) * desc.bytes_per_primitive;
+        let n = desc.packed_stride(src.width());
+        let rows = desc.height_op.op(src.height());
 
-        let src_rows = src_plane.chunks_exact(src_stride);
-        let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
+        if n == 0 {
+            continue;
+        }
+
+        // The last row doesn't have to be padded to the full stride, and there may be anything behind it
+        let src_rows = src_plane.chunks(src_stride).take(rows);
+        let dst_rows = dst_plane.chunks_mut(dst_stride).take(rows);
 
         for (src_row, dst_row) in src_rows.zip(dst_rows) {
             dst_row[..n].copy_from_slice(&src_row[..n]);
diff --git a/src/crop.rs b/src/crop.rs
index a43448b..2ce9463 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -93,11 +93,14 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = (y * stride + x) * plane_desc.bytes_per_primitive;
+                // (an empty window may start behind the last row, which doesn't have to be padded to the full stride)
+                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
+                let split_at = split_at.min(slice.slice_len());
                 let (_, slice) = slice.slice_split_at(split_at);
 
-                // Trim the bytes at the end of the window
+                // Trim the bytes at the end of the window, the last row might be cut short by the end of the plane
                 let split_at = plane_desc.height_op.op(window.height) * stride;
+                let split_at = split_at.min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
                 (slice, stride)
diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 91e9bcb..76be9c9 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -107,6 +107,8 @@ pub(crate) fn split_planes<S: AnySlice>(
 
         for (plane_desc, (slice, stride)) in plane_decs.iter().zip(&mut planes) {
             let split_at = stride.strict_mul_(plane_desc.height_op.op(h));
+            // The last row of the plane doesn't have to be padded to the full stride
+            let split_at = split_at.min(slice.slice_len());
 
             let (prev, rem) = take(slice).slice_split_at(split_at);
             *slice = rem;
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index e7203a2..4920f4c 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -112,8 +112,11 @@ impl PixelFormat {
                     });
                 }
 
-                // Ensure slice is large enough
-                let min_len = stride.strict_mul_(plane.height_op.op(height));
+                // Ensure slice is large enough, the last row doesn't have to be padded to the full stride
+                let min_len = match plane.height_op.op(height).checked_sub(1) {
+                    Some(full_rows) => stride.strict_mul_(full_rows).strict_add_(min_stride),
+                    None => 0,
+                };
 
                 if min_len > slice.len() {
                     return Err(BoundsCheckError::InvalidPlaneSize {
diff --git a/src/resize.rs b/src/resize.rs
index 624ce29..69c36fa 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -57,6 +57,8 @@ impl Resizer {
 
         let src_width = src.width();
         let dst_width = dst.width();
+        let src_height = src.height();
+        let dst_height = dst.height();
 
         let src_planes: Vec<(&[u8], usize)> = src.planes().collect();
         let dst_planes: Vec<(&mut [u8], usize)> = dst.planes_mut().collect();
@@ -78,8 +80,8 @@ impl Resizer {
                     let dst_fir_width = plane_desc.width_op.op(dst_width)
                         / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);
 
-                    let src_height = src_plane.len() / src_stride;
-                    let dst_height = dst_plane.len() / dst_stride;
+                    let src_height = plane_desc.height_op.op(src_height);
+                    let dst_height = plane_desc.height_op.op(dst_height);
 
                     let src = FirAdapterIntoImageView {
                         pixel_type: plane_desc.pixel_type,
@@ -209,7 +211,8 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
     fn iter_rows(&self, start_row: u32) -> impl Iterator<Item = &[Self::Pixel]> {
         self.plane
             .as_ref()
-            .chunks_exact(self.stride)
+            .chunks(self.stride.max(1))
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &row[..self.width * P::pixel_type().size()];
@@ -231,7 +234,8 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
     fn iter_rows_mut(&mut self, start_row: u32) -> impl Iterator<Item = &mut [Self::Pixel]> {
         self.plane
             .as_mut()
-            .chunks_exact_mut(self.stride)
+            .chunks_mut(self.stride.max(1))
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &mut row[..self.width * P::pixel_type().size()];
-- 
2.43.0


From c6403171f68e670c63e2530d9853279bfb7df034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 07/14] fix: saturate instead of wrapping around when writing
 planes with AVX-512

---
 src/vector/avx512.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 24ee33b..99fbd11 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -294,13 +294,23 @@ unsafe fn deinterleave_4x(
     (r, g, b, a)
 }
 
+#[inline(always)]
+unsafe fn saturate_i32x16_to_u8x16(v: __m512i) -> __m128i {
+    _mm512_cvtusepi32_epi8(_mm512_max_epi32(v, _mm512_setzero_si512()))
+}
+
+#[inline(always)]
+unsafe fn saturate_i32x16_to_u16x16(v: __m512i) -> __m256i {
+    _mm512_cvtusepi32_epi16(_mm512_max_epi32(v, _mm512_setzero_si512()))
+}
+
 #[inline(always)]
 pub(crate) unsafe fn f32x16x2_to_u8x32(l: __m512, h: __m512) -> [u8; 32] {
     let l = _mm512_cvtps_epi32(l);
     let h = _mm512_cvtps_epi32(h);
 
-    let l = _mm512_cvtepi32_epi8(l);
-    let h = _mm512_cvtepi32_epi8(h);
+    let l = saturate_i32x16_to_u8x16(l);
+    let h = saturate_i32x16_to_u8x16(h);
 
     transmute([l, h])
 }
@@ -310,20 +320,20 @@ pub(crate) unsafe fn f32x16x2_to_u16x32(l: __m512, h: __m512) -> [u16; 32] {
     let l = _mm512_cvtps_epi32(l);
     let h = _mm512_cvtps_epi32(h);
 
-    let l = _mm512_cvtepi32_epi16(l);
-    let h = _mm512_cvtepi32_epi16(h);
+    let l = saturate_i32x16_to_u16x16(l);
+    let h = saturate_i32x16_to_u16x16(h);
 
     transmute([l, h])
 }
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16_to_u8x16(v: __m512) -> [u8; 16] {
-    transmute(_mm512_cvtepi32_epi8(_mm512_cvtps_epi32(v)))
+    transmute(saturate_i32x16_to_u8x16(_mm512_cvtps_epi32(v)))
 }
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16_to_u16x16(v: __m512) -> [u16; 16] {
-    transmute(_mm512_cvtepi32_epi16(_mm512_cvtps_epi32(v)))
+    transmute(saturate_i32x16_to_u16x16(_mm512_cvtps_epi32(v)))
 }
 
 #[inline(always)]
-- 
2.43.0


From 4af5379ed88ae64449821731ddf7a986fb46bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 08/14] fix: saturate to white when writing very bright pixels
 with AVX2 and AVX-512

---
 src/vector/avx2.rs   | 22 +++++++++++++++++++---
 src/vector/avx512.rs | 16 +++++++++++++++-
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/vector/avx2.rs b/src/vector/avx2.rs
index 4d9fcf4..9de43da 100644
--- a/src/vector/avx2.rs
+++ b/src/vector/avx2.rs
@@ -285,7 +285,8 @@ unsafe fn f32x8x2_to_u8x16(l: __m256, h: __m256) -> [u8; 16] {
     let l = _mm256_cvtps_epi32(l);
     let h = _mm256_cvtps_epi32(h);
 
-    let v = _mm256_packus_epi32(l, h);
+    // Saturate signed, packus_epi16 interprets its input as signed
+    let v = _mm256_packs_epi32(l, h);
     let v = _mm256_packus_epi16(v, v);
 
     let v = _mm256_permutevar8x32_epi32(v, _mm256_setr_epi32(0, 4, 3, 5, 0, 4, 3, 5));
@@ -307,7 +308,8 @@ unsafe fn f32x8x2_to_u16x16(l: __m256, h: __m256) -> [u16; 16] {
 #[inline(always)]
 unsafe fn f32x8_to_u8x8(v: __m256) -> [u8; 8] {
     let v = _mm256_cvtps_epi32(v);
-    let v = _mm256_packus_epi32(v, v);
+    // Saturate signed, packus_epi16 interprets its input as signed
+    let v = _mm256_packs_epi32(v, v);
     let v = _mm256_packus_epi16(v, v);
 
     let a = _mm256_extract_epi32(v, 0);
@@ -331,7 +333,16 @@ unsafe fn f32x8_to_u16x8(v: __m256) -> [u16; 8] {
 
 #[inline(always)]
 unsafe fn interleave_f32x8x4_to_u8x32(r: __m256, g: __m256, b: __m256, a: __m256) -> __m256i {
-    let [rgba_lo, rgba_hi] = interleave_f32x8x4_to_u16x32(r, g, b, a);
+    let r = _mm256_cvtps_epi32(r);
+    let g = _mm256_cvtps_epi32(g);
+    let b = _mm256_cvtps_epi32(b);
+    let a = _mm256_cvtps_epi32(a);
+
+    // Saturate signed, packus_epi16 interprets its input as signed
+    let rb = _mm256_packs_epi32(r, b);
+    let ga = _mm256_packs_epi32(g, a);
+
+    let [rgba_lo, rgba_hi] = interleave_rb_ga(rb, ga);
 
     _mm256_packus_epi16(rgba_lo, rgba_hi)
 }
@@ -346,6 +357,11 @@ unsafe fn interleave_f32x8x4_to_u16x32(r: __m256, g: __m256, b: __m256, a: __m25
     let rb = _mm256_packus_epi32(r, b);
     let ga = _mm256_packus_epi32(g, a);
 
+    interleave_rb_ga(rb, ga)
+}
+
+#[inline(always)]
+unsafe fn interleave_rb_ga(rb: __m256i, ga: __m256i) -> [__m256i; 2] {
     let rgba_lo = _mm256_unpacklo_epi16(rb, ga);
     let rgba_hi = _mm256_unpackhi_epi16(rb, ga);
 
diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 99fbd11..3d677a9 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -343,7 +343,16 @@ pub(crate) unsafe fn interleave_f32x16x4_to_u8x64(
     b: __m512,
     a: __m512,
 ) -> __m512i {
-    let [rgba_lo, rgba_hi] = interleave_f32x16x4_to_u16x64(r, g, b, a);
+    let r = _mm512_cvtps_epi32(r);
+    let g = _mm512_cvtps_epi32(g);
+    let b = _mm512_cvtps_epi32(b);
+    let a = _mm512_cvtps_epi32(a);
+
+    // Saturate signed, packus_epi16 interprets its input as signed
+    let rb = _mm512_packs_epi32(r, b);
+    let ga = _mm512_packs_epi32(g, a);
+
+    let [rgba_lo, rgba_hi] = interleave_rb_ga(rb, ga);
 
     _mm512_packus_epi16(rgba_lo, rgba_hi)
 }
@@ -363,6 +372,11 @@ pub(crate) unsafe fn interleave_f32x16x4_to_u16x64(
     let rb = _mm512_packus_epi32(r, b);
     let ga = _mm512_packus_epi32(g, a);
 
+    interleave_rb_ga(rb, ga)
+}
+
+#[inline(always)]
+unsafe fn interleave_rb_ga(rb: __m512i, ga: __m512i) -> [__m512i; 2] {
     let rgba_lo = _mm512_unpacklo_epi16(rb, ga);
     let rgba_hi = _mm512_unpackhi_epi16(rb, ga);
 
-- 
2.43.0


From 7c32b0ff4d773bf7bf3c636919be56d4368da452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 09/14] fix: convert_multi_thread reports invalid planes and
 handles empty images like convert

---
 src/multi_thread.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 76be9c9..aa8190c 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -4,7 +4,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterato
 
 use crate::{
     convert, convert_same_color_and_pixel_format, plane_decs::PlaneDesc, verify_input_windows,
-    AnySlice, ConvertError, Image, ImageMut, ImageRef, StrictApi,
+    AnySlice, ConvertError, Image, ImageMut, ImageRef, ImageRefExt, StrictApi,
 };
 
 /// Parallelizes [`convert`] using as many threads as there are CPU cores.
@@ -20,7 +20,14 @@ pub fn convert_multi_thread(
 
     let threads = num_cpus::get();
 
-    if threads == 1 {
+    // Images without any pixels or with invalid planes cannot be split into sections,
+    // let convert handle them
+    let can_split = src.width() > 0
+        && src.height() > 0
+        && src.bounds_check().is_ok()
+        && dst.bounds_check().is_ok();
+
+    if threads == 1 || !can_split {
         return convert(src, dst);
     }
 
-- 
2.43.0


From a5e941eab739137033fb9621952df1abc5e1d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 10/14] fix: report buffers and strides which don't fit as
 errors instead of panicking

---
 src/image.rs | 81 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 07ef233..dfaa7fc 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,4 +1,8 @@
-use crate::{infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use crate::{
+    AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt,
+    InvalidNumberOfPlanesError, PixelFormat,
+};
+use std::mem::take;
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -81,6 +85,18 @@ where
 
         let strides = strides.unwrap_or_else(|| format.packed_strides(width));
 
+        let num_planes = format.plane_desc().len();
+
+        if matches!(buffer, Buffer::Whole(..)) && strides.len() > num_planes {
+            return Err(ImageError::BoundsCheck(
+                InvalidNumberOfPlanesError {
+                    expected: num_planes,
+                    got: strides.len(),
+                }
+                .into(),
+            ));
+        }
+
         let this = Self {
             format,
             buffer,
@@ -109,16 +125,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 
     fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
         match &self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_ref(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_ref(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter()
@@ -135,16 +147,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
     fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
         match &mut self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_mut(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_mut(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter_mut()
@@ -154,3 +162,34 @@ unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
         }
     }
 }
+
+/// Split the buffer of an image into its planes
+///
+/// Like [`infer`](crate::infer), but if the buffer is too small the planes that don't fit are cut short,
+/// so [`ImageRefExt::bounds_check`] can report it.
+fn split_buffer<'a, S: AnySlice + 'a>(
+    format: PixelFormat,
+    mut buffer: S,
+    height: usize,
+    strides: &'a [usize],
+) -> impl Iterator<Item = (S, usize)> + 'a {
+    let planes = format.plane_desc();
+
+    planes.iter().zip(strides).map(move |(plane, &stride)| {
+        // Formats with a single plane use the entire buffer
+        let split_at = if planes.len() == 1 {
+            buffer.slice_len()
+        } else {
+            plane
+                .height_op
+                .op(height)
+                .saturating_mul(stride)
+                .min(buffer.slice_len())
+        };
+
+        let (prev, rem) = take(&mut buffer).slice_split_at(split_at);
+        buffer = rem;
+
+        (prev, stride)
+    })
+}
-- 
2.43.0


From 638339c93826bf8ca66152666f6f8b9fa3081d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 11/14] fix: keep 10 and 12 bit samples within the range of the
 pixel format

---
 src/formats/i420/write.rs | 13 +++++++------
 src/formats/i422/write.rs | 17 +++++++++--------
 src/formats/i444/write.rs | 25 +++++++++++++------------
 src/formats/mod.rs        | 19 +++++++++++++++++++
 4 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/formats/i420/write.rs b/src/formats/i420/write.rs
index dec3cef..176308c 100644
--- a/src/formats/i420/write.rs
+++ b/src/formats/i420/write.rs
@@ -1,4 +1,5 @@
 use super::{I420Block, I420Src};
+use crate::formats::scale_to_max;
 use crate::formats::visit_2x2::{visit, Image2x2Visitor};
 use crate::planes::read_planes_mut;
 use crate::primitive::Primitive;
@@ -74,13 +75,13 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
+        let y00 = scale_to_max::<P, V>(y00, self.max_value);
+        let y01 = scale_to_max::<P, V>(y01, self.max_value);
+        let y10 = scale_to_max::<P, V>(y10, self.max_value);
+        let y11 = scale_to_max::<P, V>(y11, self.max_value);
 
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let u = scale_to_max::<P, V>(u, self.max_value);
+        let v = scale_to_max::<P, V>(v, self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i422/write.rs b/src/formats/i422/write.rs
index 6cee11b..ecfea52 100644
--- a/src/formats/i422/write.rs
+++ b/src/formats/i422/write.rs
@@ -1,4 +1,5 @@
 use super::{I422Block, I422Src};
+use crate::formats::scale_to_max;
 use crate::formats::visit_2x2::{visit, Image2x2Visitor};
 use crate::planes::read_planes_mut;
 use crate::primitive::Primitive;
@@ -76,14 +77,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = scale_to_max::<P, V>(y00, self.max_value);
+        let y01 = scale_to_max::<P, V>(y01, self.max_value);
+        let y10 = scale_to_max::<P, V>(y10, self.max_value);
+        let y11 = scale_to_max::<P, V>(y11, self.max_value);
+        let u0 = scale_to_max::<P, V>(u0, self.max_value);
+        let u1 = scale_to_max::<P, V>(u1, self.max_value);
+        let v0 = scale_to_max::<P, V>(v0, self.max_value);
+        let v1 = scale_to_max::<P, V>(v1, self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i444/write.rs b/src/formats/i444/write.rs
index c685fb7..d65fbd2 100644
--- a/src/formats/i444/write.rs
+++ b/src/formats/i444/write.rs
@@ -1,4 +1,5 @@
 use super::{I444Block, I444Src};
+use crate::formats::scale_to_max;
 use crate::formats::visit_2x2::{visit, Image2x2Visitor};
 use crate::planes::read_planes_mut;
 use crate::primitive::Primitive;
@@ -74,20 +75,20 @@ where
             px11,
         } = block;
 
-        let y00 = px00.y.vmulf(self.max_value);
-        let y01 = px01.y.vmulf(self.max_value);
-        let y10 = px10.y.vmulf(self.max_value);
-        let y11 = px11.y.vmulf(self.max_value);
+        let y00 = scale_to_max::<P, V>(px00.y, self.max_value);
+        let y01 = scale_to_max::<P, V>(px01.y, self.max_value);
+        let y10 = scale_to_max::<P, V>(px10.y, self.max_value);
+        let y11 = scale_to_max::<P, V>(px11.y, self.max_value);
 
-        let u00 = px00.u.vmulf(self.max_value);
-        let u01 = px01.u.vmulf(self.max_value);
-        let u10 = px10.u.vmulf(self.max_value);
-        let u11 = px11.u.vmulf(self.max_value);
+        let u00 = scale_to_max::<P, V>(px00.u, self.max_value);
+        let u01 = scale_to_max::<P, V>(px01.u, self.max_value);
+        let u10 = scale_to_max::<P, V>(px10.u, self.max_value);
+        let u11 = scale_to_max::<P, V>(px11.u, self.max_value);
 
-        let v00 = px00.v.vmulf(self.max_value);
-        let v01 = px01.v.vmulf(self.max_value);
-        let v10 = px10.v.vmulf(self.max_value);
-        let v11 = px11.v.vmulf(self.max_value);
+        let v00 = scale_to_max::<P, V>(px00.v, self.max_value);
+        let v01 = scale_to_max::<P, V>(px01.v, self.max_value);
+        let v10 = scale_to_max::<P, V>(px10.v, self.max_value);
+        let v11 = scale_to_max::<P, V>(px11.v, self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 3c41cb8..44ed9a0 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -22,6 +22,25 @@ pub(crate) use transfer_and_primaries_convert::{
 };
 pub(crate) use yuyv::*;
 
+use crate::primitive::Primitive;
+use crate::vector::Vector;
+
 fn max_value_for_bits(bits: usize) -> f32 {
     ((1 << bits) - 1) as f32
 }
+
+/// Scale the normalized vector to integers in the range of 0..=max_value
+#[inline(always)]
+unsafe fn scale_to_max<P: Primitive, V: Vector>(v: V, max_value: f32) -> V {
+    let v = v.vmulf(max_value);
+
+    // Writing u8 already saturates at the maximum, u16 may hold more than the bits of the pixel format allow
+    if P::SIZE > 1 {
+        let max = V::splat(max_value);
+        let exceeds_max = max.lt(v);
+
+        V::select(max, v, exceeds_max)
+    } else {
+        v
+    }
+}
-- 
2.43.0


From a46bb8812cd05f7d153b984f9cf0bf86dc0fd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 12/14] fix: PQ EOTF of signals above 1.0 ran away and became
 NaN

---
 src/color/transfer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 4f03cf4..2b2e84e 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -222,6 +222,9 @@ pub(crate) mod bt2100_pq {
         // Avoid producing NaN for negative numbers
         let i = i.vmaxf(0.0);
 
+        // The signal ends at 1.0 (10000 cd/m²), beyond it the denominator reaches zero and turns negative
+        let i = V::select(i, V::splat(1.0), i.lef(1.0));
+
         let epow1dm2 = i.vpowf(1.0 / M2);
 
         let a = epow1dm2.vsubf(C1).vmaxf(0.0);
-- 
2.43.0


From 803f93be3f6365395f23a195032b89cee72b0dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 13/14] fix: ST240 primaries use SMPTE 240M's red chromaticity

The red primary of SMPTE 240M is (0.630, 0.340); the matrices had been generated for (0.63, 0.329).
---
 src/color/primaries.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/color/primaries.rs b/src/color/primaries.rs
index 3c12bfa..26ff851 100644
--- a/src/color/primaries.rs
+++ b/src/color/primaries.rs
@@ -73,14 +73,14 @@ pub(crate) unsafe fn xyz_to_rgb<V: Vector>(bw: &[[f32; 3]; 3], x: V, y: V, z: V)
 
 mod generated_consts {
     pub(super) const ST240_RGB_TO_XYZ: [[f32; 3]; 3] = [
-        [0.39031416, 0.20383073, 0.025401404],
-        [0.3700937, 0.71034116, 0.11341577],
-        [0.19004808, 0.08582816, 0.95024043],
+        [0.3935209, 0.21237636, 0.018739091],
+        [0.36525807, 0.7010599, 0.111933924],
+        [0.19167694, 0.08656378, 0.95838475],
     ];
     pub(super) const ST240_XYZ_TO_RGB: [[f32; 3]; 3] = [
-        [3.506003, -1.0092703, 0.026740361],
-        [-1.7397907, 1.9292052, -0.18375263],
-        [-0.5440582, 0.027603257, 1.0636142],
+        [3.5060034, -1.0690476, 0.056306593],
+        [-1.7397907, 1.9777789, -0.19697565],
+        [-0.54405826, 0.03517142, 1.0499524],
     ];
 
     pub(super) const BT709_RGB_TO_XYZ: [[f32; 3]; 3] = [
-- 
2.43.0


From d69da959d06ffda0e408f0b8d42b1161612ab544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 14/14] fix: keep resized 10 and 12 bit samples inside their
 depth

Filters with negative lobes (Lanczos3, CatmullRom, Mitchell) overshoot next to
edges. fast_image_resize saturates to the range of u16 only, so resizing could
write samples above the format's maximum.
---
 src/resize.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/resize.rs b/src/resize.rs
index 69c36fa..e9a5bd1 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -54,6 +54,7 @@ impl Resizer {
         let alg = self.alg;
 
         let desc = src.format().plane_desc();
+        let bits_per_component = src.format().bits_per_component();
 
         let src_width = src.width();
         let dst_width = dst.width();
@@ -112,6 +113,11 @@ impl Resizer {
                         .expect(
                             "Pixel type must be assured to be the same before calling fir's resize",
                         );
+
+                    // Filters with negative lobes overshoot, fir only saturates to the primitive's range
+                    if bits_per_component > 8 && bits_per_component < 16 {
+                        dst.clamp_u16((1 << bits_per_component) - 1);
+                    }
                 })
             }
         });
@@ -143,6 +149,23 @@ struct FirAdapterIntoImageView<T> {
     plane: T,
 }
 
+impl<T: AsMut<[u8]>> FirAdapterIntoImageView<T> {
+    /// Limit all samples of a plane with u16 primitives to `max`
+    fn clamp_u16(&mut self, max: u16) {
+        let rows = self.plane.as_mut().chunks_mut(self.stride.max(1));
+
+        for row in rows.take(self.height) {
+            for sample in row[..self.width * self.pixel_type.size()].chunks_exact_mut(2) {
+                let value = u16::from_ne_bytes([sample[0], sample[1]]);
+
+                if value > max {
+                    sample.copy_from_slice(&max.to_ne_bytes());
+                }
+            }
+        }
+    }
+}
+
 impl<T: AsRef<[u8]>> IntoImageView for FirAdapterIntoImageView<T> {
     fn pixel_type(&self) -> Option<fir::PixelType> {
         Some(self.pixel_type)
-- 
2.43.0

