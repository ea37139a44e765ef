From 1d617634dbf52181e1af81ef67f7d251e57fc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:16 +0000
Subject: [PATCH 01/34] Let the shuttle feature override the hardware thread
 count

Under the (off by default) shuttle feature, the number of hardware threads
can be set by the simulation that drives the decoder; without it nothing
changes.
---
 jxl/src/frame/render.rs |  4 ++--
 jxl/src/util/sync.rs    | 29 +++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..fdc7e26 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -30,7 +30,7 @@ use crate::render::stages::*;
 use crate::render::{LowMemoryRenderPipeline, RenderPipeline, RenderPipelineBuilder};
 use crate::util::SmallVec;
 use crate::util::sync::atomic::{AtomicUsize, Ordering};
-use crate::util::sync::{Arc, RwLock};
+use crate::util::sync::{Arc, RwLock, available_parallelism};
 
 #[cfg(test)]
 macro_rules! pipeline_mut {
@@ -461,7 +461,7 @@ impl Frame {
         // Avoid significantly more than one thread per largest-group worth of work.
         let max_threads = groups_of_work.div_ceil(THREAD_COUNT_DENOMINATOR).max(1);
 
-        let hw_threads = std::thread::available_parallelism()
+        let hw_threads = available_parallelism()
             .map(|x| x.get())
             .unwrap_or(max_threads);
 
diff --git a/jxl/src/util/sync.rs b/jxl/src/util/sync.rs
index 46be5e3..7b84108 100644
--- a/jxl/src/util/sync.rs
+++ b/jxl/src/util/sync.rs
@@ -12,3 +12,32 @@ pub use std::sync::*;
 
 #[cfg(feature = "shuttle")]
 pub use shuttle::sync::*;
+
+#[cfg(not(feature = "shuttle"))]
+pub use std::thread::available_parallelism;
+
+// Under shuttle, the number of hardware threads is an input of the simulation.
+#[cfg(feature = "shuttle")]
+mod sim_parallelism {
+    use std::cell::Cell;
+    use std::num::NonZeroUsize;
+
+    thread_local! {
+        static OVERRIDE: Cell<Option<NonZeroUsize>> = const { Cell::new(None) };
+    }
+
+    /// Overrides (on this OS thread) the value returned by `available_parallelism`.
+    pub fn set_available_parallelism(threads: Option<NonZeroUsize>) {
+        OVERRIDE.set(threads);
+    }
+
+    pub fn available_parallelism() -> std::io::Result<NonZeroUsize> {
+        match OVERRIDE.get() {
+            Some(threads) => Ok(threads),
+            None => std::thread::available_parallelism(),
+        }
+    }
+}
+
+#[cfg(feature = "shuttle")]
+pub use sim_parallelism::{available_parallelism, set_available_parallelism};
-- 
2.43.0


From 1586e3e58524df78a0a175c2eefa5c6fdaa7acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 02/34] fix: clamp the new frame, not the reference frame, in
 multiply blending

The blending stage passes the current frame as the layer to be modified and
the reference frame as the layer on top, but the multiply mode clamped the
layer on top. The specification clamps the samples of the new frame.
---
 jxl/src/features/blending.rs      | 34 ++++++++++++++++++++++++++-----
 jxl/src/features/patches.rs       |  7 +++++--
 jxl/src/render/stages/blending.rs |  2 +-
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index 5d432e9..b766707 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -151,10 +151,12 @@ simd_function!(
     }
 );
 
+// Above: dst = dst * src (src is clamped).
+// Below: dst = src * dst (dst is clamped).
 simd_function!(
     mul,
     d: D,
-    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool) {
+    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool, order: BlendOrder) {
         let lanes = D::F32Vec::LEN;
         let one = D::F32Vec::splat(d, 1.0);
         let zero = D::F32Vec::zero(d);
@@ -163,8 +165,10 @@ simd_function!(
         let maybe_clamp_vec = |v: D::F32Vec| if clamp { v.max(zero).min(one) } else { v };
         for k in 0..xsize.div_ceil(lanes) {
             let x = k * lanes;
-            let s = maybe_clamp_vec(load_vec(d, src, x));
-            store_vec(d, load_vec(d, dst, x) * s, dst, x);
+            let dst_v = load_vec(d, dst, x);
+            let src_v = load_vec(d, src, x);
+            let (bottom, top) = if order == BlendOrder::Above { (dst_v, src_v) } else { (src_v, dst_v) };
+            store_vec(d, bottom * maybe_clamp_vec(top), dst, x);
         }
     }
 );
@@ -356,7 +360,10 @@ pub fn perform_blending(
                 }
             }
             PatchBlendMode::Mul => {
-                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp);
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Above);
+            }
+            PatchBlendMode::MulBelow => {
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Below);
             }
             PatchBlendMode::Replace => {
                 ec_out.copy_from_slice(&fg[3 + i][..xsize]);
@@ -458,7 +465,24 @@ pub fn perform_blending(
         }
         PatchBlendMode::Mul => {
             for c in 0..3 {
-                mul(bg_color[c], &fg[c][..xsize], xsize, clamp);
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Above,
+                );
+            }
+        }
+        PatchBlendMode::MulBelow => {
+            for c in 0..3 {
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Below,
+                );
             }
         }
         PatchBlendMode::Replace => {
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 411ffff..00228a7 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -71,6 +71,9 @@ pub enum PatchBlendMode {
     // For other channels: sample = old + alpha * new
     AlphaWeightedAddAbove = 6,
     AlphaWeightedAddBelow = 7,
+    // Like kMul, with new and old exchanged (which matters for clamping only).
+    // Used for blending frames; not a valid mode for patches.
+    MulBelow = 8,
 }
 
 impl PatchBlendMode {
@@ -119,7 +122,7 @@ impl PatchBlendMode {
     }
 
     pub fn uses_clamp(self) -> bool {
-        self.uses_alpha() || self == Self::Mul
+        self.uses_alpha() || matches!(self, Self::Mul | Self::MulBelow)
     }
 }
 
@@ -567,7 +570,7 @@ impl PatchesDictionary {
                         PatchContext::PatchBlendMode as usize,
                     ) as u8;
                     let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode) {
-                        None => {
+                        None | Some(PatchBlendMode::MulBelow) => {
                             return Err(Error::PatchesInvalidBlendMode(
                                 maybe_blend_mode,
                                 PatchBlendMode::NUM_BLEND_MODES,
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..517a2a0 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -43,7 +43,7 @@ impl From<&BlendingInfo> for PatchBlending {
         let mode = match info.mode {
             BlendingMode::Replace => PatchBlendMode::None,
             BlendingMode::Add => PatchBlendMode::Add,
-            BlendingMode::Mul => PatchBlendMode::Mul,
+            BlendingMode::Mul => PatchBlendMode::MulBelow,
             BlendingMode::Blend => PatchBlendMode::BlendBelow,
             BlendingMode::AlphaWeightedAdd => PatchBlendMode::AlphaWeightedAddBelow,
         };
-- 
2.43.0


From 533dae0cb4c667fe1fd275f0ff71d2ed69b8b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 03/34] fix: refuse to blend with a reference frame that does
 not cover the image

A frame saved for patches may be smaller than the image. Naming its slot as
the source of blending made the blending and extension stages slice its rows
out of bounds and panic.
---
 jxl/src/error.rs                  |  2 ++
 jxl/src/render/stages/blending.rs | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..b4e4c2b 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -114,6 +114,8 @@ pub enum Error {
     PassesLastPassTooLarge,
     #[error("Non-patch reference frame with a crop")]
     NonPatchReferenceWithCrop,
+    #[error("Frame blends with a reference frame that does not cover the image")]
+    BlendingReferenceTooSmall,
     #[error("Non-444 chroma subsampling is not allowed for bigger than 8x8 transforms")]
     InvalidBlockSizeForChromaSubsampling,
     #[error("Out of memory: {0}")]
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index 517a2a0..8822d85 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -3,7 +3,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::features::blending::perform_blending;
 use crate::features::patches::{PatchBlendMode, PatchBlending};
 use crate::frame::ReferenceFrame;
@@ -63,6 +63,19 @@ impl BlendingStage {
     ) -> Result<BlendingStage> {
         let xsize = file_header.size.xsize();
         let ec_blending_info = frame_header.ec_blending_info.clone();
+        let image_size = (xsize as usize, file_header.size.ysize() as usize);
+        let sources = [&frame_header.blending_info; 3]
+            .into_iter()
+            .chain(&ec_blending_info)
+            .map(|info| info.source as usize);
+        for (c, source) in sources.enumerate() {
+            if let Some(rf) = &reference_frames[source] {
+                let size = rf.frame[c].size();
+                if size.0 < image_size.0 || size.1 < image_size.1 {
+                    return Err(Error::BlendingReferenceTooSmall);
+                }
+            }
+        }
         let ec_patch_blending_info = ec_blending_info.iter().map(PatchBlending::from).collect();
         Ok(BlendingStage {
             frame_origin: (frame_header.x0 as isize, frame_header.y0 as isize),
-- 
2.43.0


From e2d1a066dd398364cca029031f2bde2e92a0eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 04/34] fix: do not report bytes past the end of the input as
 skipped

---
 jxl/src/api/input.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..705133c 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,7 +26,10 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            let num = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            if num == 0 {
+                break;
+            }
             bytes -= num;
             skipped += num;
         }
@@ -63,8 +66,9 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
     }
 
     fn skip(&mut self, bytes: usize) -> Result<usize, Error> {
-        let cur = self.stream_position()?;
-        self.seek(SeekFrom::Current(bytes as i64))
-            .map(|x| x.saturating_sub(cur) as usize)
+        // Seeking past the end succeeds, but there is nothing to skip there.
+        let num = bytes.min(self.available_bytes()?);
+        self.seek_relative(num as i64)?;
+        Ok(num)
     }
 }
-- 
2.43.0


From a1fb1f53f618c1346f5a045777a7e13b51b8acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 05/34] fix: keep the bytes already read when the input fails
 or reads short

---
 jxl/src/api/inner/box_parser.rs | 39 +++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..2c53b9f 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -217,7 +217,13 @@ impl BoxParser {
             IoSliceMut::advance_slices(&mut buf, n);
             self.local_buffer.consume(n);
         }
-        let read = input.read(buf)?;
+        let read = match input.read(buf) {
+            Ok(read) => read,
+            // Do not lose the bytes that were already taken from the local buffer;
+            // if the error is permanent, the next call will report it.
+            Err(_) if n > 0 => 0,
+            Err(e) => return Err(e.into()),
+        };
         self.local_buffer.mark_consumed(read as u64);
         Ok(n + read)
     }
@@ -234,7 +240,12 @@ impl BoxParser {
             amount -= n;
             self.local_buffer.consume(n);
         }
-        let skip = input.skip(amount)?;
+        let skip = match input.skip(amount) {
+            Ok(skip) => skip,
+            // As in `read_inner`.
+            Err(_) if n > 0 => 0,
+            Err(e) => return Err(e.into()),
+        };
         self.local_buffer.mark_consumed(skip as u64);
         Ok(n + skip)
     }
@@ -499,11 +510,25 @@ impl<'a> CodestreamInput<'a> {
                 cumsum += buf[upper].len() as u64;
                 upper += 1;
             }
-            let n = self.box_parser.read_inner(self.input, &mut buf[..upper])?;
-            let left = (limit - n as u64) as usize;
-            n + self
-                .box_parser
-                .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            let left = (limit - cumsum) as usize;
+            let n = if upper == 0 {
+                0
+            } else {
+                self.box_parser.read_inner(self.input, &mut buf[..upper])?
+            };
+            if (n as u64) < cumsum {
+                // Short read: `buf[upper]` is not next in line.
+                n
+            } else {
+                let last = &mut [IoSliceMut::new(&mut buf[upper][..left])];
+                match self.box_parser.read_inner(self.input, last) {
+                    Ok(m) => n + m,
+                    // Do not lose the first part; if the error is permanent, the
+                    // next call will report it.
+                    Err(_) if n > 0 => n,
+                    Err(e) => return Err(e),
+                }
+            }
         };
         self.box_parser.mark_codestream_read(n);
         Ok(n)
-- 
2.43.0


From 3e80247cb06ff85bc86a772965af6e457014630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 06/34] fix: make progress at codestream box boundaries with
 the data at hand

---
 .../api/inner/codestream_parser/frame_info.rs | 24 +++++++++++--------
 jxl/src/api/inner/codestream_parser/mod.rs    |  8 ++++++-
 jxl/src/api/inner/process.rs                  | 12 +++++++---
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 484ccae..a00ef94 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -333,10 +333,15 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         let total_size = self.section_size;
-        let need_skip = total_size - self.ready_section_data;
-        let skipped = input.skip(need_skip)?;
-        buf.mark_consumed(skipped as u64);
-        self.ready_section_data += skipped;
+        // A single skip stops at the end of the current codestream box.
+        while self.ready_section_data < total_size {
+            let skipped = input.skip(total_size - self.ready_section_data)?;
+            if skipped == 0 {
+                break;
+            }
+            buf.mark_consumed(skipped as u64);
+            self.ready_section_data += skipped;
+        }
         if self.ready_section_data < total_size {
             Err(Error::OutOfBounds(total_size - self.ready_section_data))
         } else {
@@ -351,13 +356,13 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         // TODO(veluca): consider re-using `section_buffers` between different iterations.
-        let mut total = 0;
         loop {
             let available_codestream = input.available_bytes();
-            let mut available_codestream = match (available_codestream, total) {
-                (Ok(a), _) => a.max(1),
-                (Err(Error::OutOfBounds(_)), t) if t > 0 => return Ok(()),
-                (Err(e), _) => return Err(e),
+            let mut available_codestream = match available_codestream {
+                Ok(a) => a.max(1),
+                // What we already have might be enough to make progress.
+                Err(Error::OutOfBounds(_)) => return Ok(()),
+                Err(e) => return Err(e),
             };
             let mut readable_section_data = self.ready_section_data + available_codestream;
             // Ensure enough section buffer space is available for reading the
@@ -402,7 +407,6 @@ impl FrameInfo {
                 break;
             }
             self.ready_section_data += num;
-            total += num;
             buf.mark_consumed(num as u64);
             self.dequeue_ready_sections();
         }
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 47b6cd7..3dfca95 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -156,7 +156,13 @@ impl CodestreamParser {
         mut do_parse: impl FnMut(&mut Self, &mut CodestreamInput) -> Result<T>,
     ) -> Result<T> {
         loop {
-            let c = self.local_buffer.refill(|buf| input.read(buf))?;
+            let c = match self.local_buffer.refill(|buf| input.read(buf)) {
+                Ok(c) => c,
+                // There is no more codestream to be had for now, but what is already
+                // here might be enough.
+                Err(Error::OutOfBounds(_)) if !self.local_buffer.is_empty() => 0,
+                Err(e) => return Err(e),
+            };
 
             if let Some(mut need) = self.header_needed_bytes.take() {
                 need = need.saturating_sub(c);
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 7ac7fbb..f5c34b8 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -12,7 +12,7 @@ use crate::api::{
     ProcessingResult,
 };
 use crate::bit_reader::BitReader;
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 /// A small buffer, that guarantees to never use more than twice the maximum
 /// amount of bytes that were simultaneously present in it.
@@ -43,7 +43,13 @@ impl SmallBuffer {
             if self.range.len() >= self.buf.len() / 2 {
                 break;
             }
-            let num = get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])])?;
+            let num = match get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])]) {
+                Ok(num) => num,
+                // Let the caller account for (and try to use) what was already read.
+                // If this is still an error after that, the next call will report it.
+                Err(Error::IOError(_) | Error::OutOfBounds(_)) if total > 0 => break,
+                Err(e) => return Err(e),
+            };
             total += num;
             self.range.end += num;
             if num == 0 {
@@ -183,7 +189,7 @@ impl JxlDecoderInner {
             pixel_format,
             parallel_runner.unwrap_or(&mut SequentialRunner),
         ) {
-            Ok(()) | Err(crate::error::Error::OutOfBounds(_)) => {
+            Ok(()) | Err(Error::OutOfBounds(_)) => {
                 Ok(self.codestream_parser.get_and_clear_pixels_dirty())
             }
             Err(e) => Err(e),
-- 
2.43.0


From 553bbe64c06aa9c96ce792b20cd2e0fbe5deaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 07/34] fix: short reads of out-of-order jxlp boxes

---
 jxl/src/api/inner/box_parser.rs | 48 ++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 2c53b9f..a61e1f6 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -267,6 +267,24 @@ impl BoxParser {
         Ok(())
     }
 
+    /// Appends up to `limit` more bytes to the contents of an out-of-order box.
+    fn read_ooo_jxlp(
+        &mut self,
+        input: &mut dyn JxlBitstreamInput,
+        data: &mut Vec<u8>,
+        limit: Option<u64>,
+    ) -> Result<usize> {
+        let old_len = data.len();
+        // `available_bytes` is only an estimate: read even if it is 0.
+        let space = old_len.min(self.available_bytes_inner(input)?).max(1024);
+        let space = limit.map_or(space, |x| x.min(space as u64) as usize);
+        data.try_reserve(space)?;
+        data.resize(old_len + space, 0);
+        let n = self.read_inner(input, &mut [IoSliceMut::new(&mut data[old_len..])]);
+        data.truncate(old_len + *n.as_ref().unwrap_or(&0));
+        n
+    }
+
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
             match self.state {
@@ -307,32 +325,18 @@ impl BoxParser {
                         self.state = ParseState::BoxNeeded(8);
                         continue;
                     }
-                    // Temporarily take the buffer out of the jxlp state to make the borrow checker happy.
-                    let mut buf = self.ooo_jxlp_buffer.remove(&id).unwrap();
-                    let mut total = 0;
-                    loop {
-                        let space = buf.data.len().max(1024).min(input.available_bytes()?) as u64;
-                        let space = count.map(|x| (x - total).min(space)).unwrap_or(space) as usize;
-                        if space == 0 {
-                            break;
-                        }
-                        buf.data.try_reserve(space)?;
-                        let cur = buf.data.len();
-                        buf.data.resize(cur + space, 0);
-                        let n =
-                            self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])?;
-                        if n == 0 {
-                            break;
-                        }
-                        total += n as u64;
-                    }
-                    self.ooo_jxlp_buffer.insert(id, buf);
-                    if total == 0 {
+                    // Temporarily take the data out of the jxlp state to make the borrow checker happy.
+                    let mut data =
+                        std::mem::take(&mut self.ooo_jxlp_buffer.get_mut(&id).unwrap().data);
+                    let n = self.read_ooo_jxlp(input, &mut data, count);
+                    self.ooo_jxlp_buffer.get_mut(&id).unwrap().data = data;
+                    let n = n? as u64;
+                    if n == 0 {
                         return Err(Error::OutOfBounds(
                             count.map(|x| x.min(usize::MAX as u64)).unwrap_or(1) as usize,
                         ));
                     }
-                    self.state = ParseState::OOOJxlp(id, count.map(|x| x - total));
+                    self.state = ParseState::OOOJxlp(id, count.map(|x| x - n));
                 }
                 ParseState::BoxNeeded(min_size) => self.parse_box(input, min_size)?,
             }
-- 
2.43.0


From d2c723edf47b7d01edfc8551d485e50d5504a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 08/34] fix: codestream positions and box order with empty and
 out-of-order jxlp boxes

---
 jxl/src/api/inner/box_parser.rs | 140 +++++++++++++++++---------------
 1 file changed, 76 insertions(+), 64 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index a61e1f6..746533d 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -22,6 +22,9 @@ enum ParseState {
     Skip(Option<u64>),
     // The next bytes should be buffered in a jxlp box.
     OOOJxlp(u32, Option<u64>),
+    // The next codestream bytes come from the (fully buffered) jxlp box with
+    // the index of the latest codestream box.
+    InjectedJxlp,
     // After the last codestream box, no more container bytes: no further
     // codestream in file.
     Complete,
@@ -48,6 +51,9 @@ pub struct BoxParserCheckpoint {
     pub(super) file_position: u64,
     codestream_left: Option<u64>,
     is_valid_checkpoint: bool,
+    // Whether the codestream bytes come from the out-of-order buffer, and not
+    // from the file contents following `file_position`.
+    is_injected: bool,
     pub(crate) consumed_codestream: u64,
 }
 
@@ -60,6 +66,8 @@ pub(super) struct BoxParser {
     // Map from codestream position at the start of the box
     // to box info
     codestream_pos_to_box: BTreeMap<u64, BoxParserCheckpoint>,
+    // Codestream position at the end of the latest codestream box.
+    next_codestream_pos: u64,
     allow_checkpoint: bool,
 }
 
@@ -72,6 +80,7 @@ impl BoxParser {
             ooo_jxlp_buffer: HashMap::new(),
             version: None,
             codestream_pos_to_box: BTreeMap::new(),
+            next_codestream_pos: 0,
             allow_checkpoint: true,
         }
     }
@@ -81,6 +90,11 @@ impl BoxParser {
         self.ooo_jxlp_buffer.clear();
         self.latest_codestream_box = box_checkpoint.box_type;
         self.state = ParseState::Codestream(box_checkpoint.codestream_left);
+        // Continue to count file and codestream positions from the checkpoint.
+        self.local_buffer.mark_consumed(box_checkpoint.file_position);
+        self.next_codestream_pos = box_checkpoint
+            .consumed_codestream
+            .saturating_add(box_checkpoint.codestream_left.unwrap_or(0));
         // Do not allow creating new checkpoints after a reset.
         self.allow_checkpoint = false;
     }
@@ -105,59 +119,62 @@ impl BoxParser {
             }
             let overflow = codestream_pos - start;
             b.file_position += overflow;
+            b.codestream_left = b.codestream_left.map(|x| x.saturating_sub(overflow));
             b.consumed_codestream = codestream_pos;
             Ok(Some(b))
         }
     }
 
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
-        let (start, b) = self.codestream_pos_to_box.last_key_value().unwrap();
-        b.file_position + (codestream_bytes_consumed - *start)
+        // The box that contains the last consumed byte; whether any later box was already
+        // seen depends on how the input was delivered.
+        let (start, b) = self
+            .codestream_pos_to_box
+            .range(..codestream_bytes_consumed)
+            .last()
+            .unwrap();
+        if b.is_injected {
+            b.file_position
+        } else {
+            b.file_position + (codestream_bytes_consumed - *start)
+        }
     }
 
-    fn add_checkpoint(&mut self) {
-        if !self.allow_checkpoint {
-            return;
-        }
+    /// Records where the current codestream box starts. Boxes that arrive out of order
+    /// are recorded when their contents are next in the codestream.
+    fn add_checkpoint(&mut self, is_injected: bool, content_len: Option<u64>) {
         // For a codestream box to be a valid checkpoint, it needs to be decoded
         // in-order (i.e. all other logically-preceding jxlp boxes have been seen already)
         // and we must not have seen any future jxlp boxes (which would be stored in the
         // ooo jxlp buffer).
-        let (codestream_left, is_valid_checkpoint) = match self.state {
-            ParseState::Codestream(c) => (c, self.ooo_jxlp_buffer.is_empty()),
-            ParseState::OOOJxlp(_, c) => (c, false),
-            _ => (None, false),
-        };
-        let codestream_position = self
-            .codestream_pos_to_box
-            .last_key_value()
-            .map(|(p, c)| *p + c.codestream_left.unwrap())
-            .unwrap_or(0);
         self.codestream_pos_to_box.insert(
-            codestream_position,
+            self.next_codestream_pos,
             BoxParserCheckpoint {
                 file_position: self.local_buffer.consumed(),
                 box_type: self.latest_codestream_box,
-                codestream_left,
-                is_valid_checkpoint,
+                codestream_left: content_len,
+                is_valid_checkpoint: !is_injected && self.ooo_jxlp_buffer.is_empty(),
+                is_injected,
                 consumed_codestream: 0,
             },
         );
+        self.next_codestream_pos = self
+            .next_codestream_pos
+            .saturating_add(content_len.unwrap_or(0));
     }
 
     fn injected_jxlp(&mut self) -> Option<&mut OOOJxlpBox> {
-        if matches!(self.state, ParseState::BoxNeeded(_) | ParseState::Complete)
+        if self.state == ParseState::InjectedJxlp
             && let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
-            && let Some(b) = self.ooo_jxlp_buffer.get_mut(&j)
         {
-            Some(b)
+            self.ooo_jxlp_buffer.get_mut(&j)
         } else {
             None
         }
     }
 
     fn check_ooo_jxlp_done(&mut self) {
-        let CodestreamBoxType::Jxlp(j, is_last) = self.latest_codestream_box else {
+        let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box else {
             unreachable!()
         };
         let Some(b) = self.ooo_jxlp_buffer.get_mut(&j) else {
@@ -165,39 +182,39 @@ impl BoxParser {
         };
         if b.consumed == b.data.len() {
             self.ooo_jxlp_buffer.remove(&j);
-            if is_last {
+            self.codestream_box_done();
+        }
+    }
+
+    /// Called when all of the contents of the latest codestream box were consumed.
+    fn codestream_box_done(&mut self) {
+        loop {
+            let CodestreamBoxType::Jxlp(j, false) = self.latest_codestream_box else {
                 self.state = ParseState::Complete;
-            } else if let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) {
-                self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+                return;
+            };
+            let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) else {
+                self.state = ParseState::BoxNeeded(8);
+                return;
+            };
+            let len = b.data.len();
+            self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+            if len > 0 {
+                self.add_checkpoint(true, Some(len as u64));
+                self.state = ParseState::InjectedJxlp;
+                return;
             }
+            self.ooo_jxlp_buffer.remove(&(j + 1));
         }
     }
 
     fn mark_codestream_read(&mut self, n: usize) {
-        let ParseState::Codestream(c) = &mut self.state else {
-            unreachable!()
-        };
-        if c.is_none() {
+        let ParseState::Codestream(Some(c)) = &mut self.state else {
             return;
-        }
-        let new_size = c.unwrap() - n as u64;
-        if new_size == 0 {
-            self.state = if matches!(
-                self.latest_codestream_box,
-                CodestreamBoxType::Jxlc | CodestreamBoxType::Jxlp(_, true)
-            ) {
-                ParseState::Complete
-            } else {
-                if let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
-                    && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
-                {
-                    self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
-                    self.add_checkpoint();
-                }
-                ParseState::BoxNeeded(8)
-            }
-        } else {
-            *c = Some(new_size);
+        };
+        *c -= n as u64;
+        if *c == 0 {
+            self.codestream_box_done();
         }
     }
 
@@ -288,8 +305,10 @@ impl BoxParser {
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
             match self.state {
-                ParseState::Codestream(Some(0)) => self.state = ParseState::BoxNeeded(8),
-                ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
+                ParseState::Codestream(Some(0)) => self.codestream_box_done(),
+                ParseState::Complete | ParseState::InjectedJxlp | ParseState::Codestream(_) => {
+                    return Ok(());
+                }
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
                     self.read_until_at_least(input, codestream_signature_len)?;
@@ -298,7 +317,7 @@ impl BoxParser {
                         Some(JxlSignatureType::Codestream) => {
                             self.state = ParseState::Codestream(None);
                             self.latest_codestream_box = CodestreamBoxType::Jxlc;
-                            self.add_checkpoint();
+                            self.add_checkpoint(false, None);
                             return Ok(());
                         }
                         Some(JxlSignatureType::Container) => {
@@ -405,7 +424,7 @@ impl BoxParser {
                 }
                 self.latest_codestream_box = CodestreamBoxType::Jxlc;
                 self.state = ParseState::Codestream(content_len);
-                self.add_checkpoint();
+                self.add_checkpoint(false, content_len);
             }
             b"jxlp" => {
                 let index = u32::from_be_bytes(self.local_buffer[..4].try_into().unwrap());
@@ -442,16 +461,12 @@ impl BoxParser {
                             is_last: last,
                         },
                     );
-                    // We create a known-invalid checkpoint here to ensure
-                    // that the checks work properly, and to count codestream
-                    // length correctly.
-                    self.add_checkpoint();
                     return Ok(());
                 }
                 // In-order jxlp
                 self.latest_codestream_box = CodestreamBoxType::Jxlp(idx, last);
                 self.state = ParseState::Codestream(content_len);
-                self.add_checkpoint();
+                self.add_checkpoint(false, content_len);
             }
             _ => self.state = ParseState::Skip(content_len),
         }
@@ -476,11 +491,10 @@ impl<'a> CodestreamInput<'a> {
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -490,6 +504,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -497,8 +512,6 @@ impl<'a> CodestreamInput<'a> {
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -539,14 +552,13 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
-- 
2.43.0


From fa77415e43f1b109a04f5d569c30753a820ed309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 09/34] fix: keep reference and LF frame buffers when a render
 fails

---
 jxl/src/frame/render.rs | 72 ++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index fdc7e26..d1abda5 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -215,9 +215,52 @@ impl Frame {
             }));
         };
 
-        pipeline_mut!(self, p, p.check_buffer_sizes(&mut buffers[..])?);
+        let result =
+            self.render_hf_groups_to_buffers(&mut buffers, groups, do_flush, parallel_runner);
+        drop(buffers);
 
-        let buffer_splitter = BufferSplitter::new(&mut buffers[..]);
+        // Also move the frames back on errors: failing flushes do not end the decoding of
+        // this frame.
+        self.reference_frame_data = reference_frame_data;
+        self.lf_frame_data = lf_frame_data;
+
+        let (regions, has_decoded_data) = result?;
+        let rendered = !regions.is_empty() && self.header.frame_type == FrameType::RegularFrame;
+
+        if self.header.frame_type == FrameType::LFFrame
+            && self.header.lf_level == 1
+            && has_decoded_data
+        {
+            if do_flush && let Some(buffers) = api_buffers {
+                return self.maybe_preview_lf_frame(
+                    pixel_format,
+                    buffers,
+                    &regions[..],
+                    output_profile,
+                );
+            } else if self.group_status.incomplete_groups == 0 {
+                // If we are not requesting another flush at the end of the LF frame, we
+                // probably have a partial render. Ensure we re-render the LF frame when
+                // decoding the actual frame.
+                self.decoder_state.lf_frame_was_rendered = false;
+            }
+        }
+
+        Ok(rendered)
+    }
+
+    /// Returns the regions of the buffers that were modified, and whether there is any
+    /// decoded data to show.
+    fn render_hf_groups_to_buffers(
+        &mut self,
+        buffers: &mut [Option<JxlOutputBuffer<'_>>],
+        groups: Vec<(usize, Vec<(usize, BitReader)>)>,
+        do_flush: bool,
+        parallel_runner: &mut dyn JxlParallelRunner,
+    ) -> Result<(Vec<Rect>, bool)> {
+        pipeline_mut!(self, p, p.check_buffer_sizes(buffers)?);
+
+        let buffer_splitter = BufferSplitter::new(buffers);
 
         pipeline_mut!(self, p, p.render_outside_frame(&buffer_splitter)?);
 
@@ -495,31 +538,8 @@ impl Frame {
             .validate_state_after_transforms();
 
         let regions = buffer_splitter.into_changed_regions();
-        let rendered = !regions.is_empty() && self.header.frame_type == FrameType::RegularFrame;
-
-        self.reference_frame_data = reference_frame_data;
-        self.lf_frame_data = lf_frame_data;
-
-        if self.header.frame_type == FrameType::LFFrame
-            && self.header.lf_level == 1
-            && has_decoded_data
-        {
-            if do_flush && let Some(buffers) = api_buffers {
-                return self.maybe_preview_lf_frame(
-                    pixel_format,
-                    buffers,
-                    &regions[..],
-                    output_profile,
-                );
-            } else if self.group_status.incomplete_groups == 0 {
-                // If we are not requesting another flush at the end of the LF frame, we
-                // probably have a partial render. Ensure we re-render the LF frame when
-                // decoding the actual frame.
-                self.decoder_state.lf_frame_was_rendered = false;
-            }
-        }
 
-        Ok(rendered)
+        Ok((regions, has_decoded_data))
     }
 
     #[allow(clippy::too_many_arguments)]
-- 
2.43.0


From 24d98e9a53e5a1647024718e54d2251b10d7a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 10/34] fix: size of preview frames

---
 jxl/src/api/inner/codestream_parser/mod.rs | 10 +++++++++
 jxl/src/api/inner/mod.rs                   | 13 ++++++++++-
 jxl_cli/src/dec/mod.rs                     | 25 ++++++++++++++++------
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 3dfca95..50adebe 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -376,6 +376,16 @@ impl CodestreamParser {
         }
     }
 
+    pub fn is_preview_frame(&self) -> bool {
+        matches!(
+            self.state,
+            ParserState::Sections {
+                is_preview: true,
+                ..
+            }
+        )
+    }
+
     pub fn has_frame(&self) -> bool {
         matches!(self.state, ParserState::Sections { .. })
     }
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index db61cd1..e5a91e3 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -81,7 +81,18 @@ impl JxlDecoderInner {
         // The render pipeline always adds ExtendToImageDimensionsStage which extends
         // frames to the full image size. So the output size is always the image size,
         // not the frame's upsampled size.
-        let size = self.codestream_parser.image_info.basic_info().size;
+        // Preview frames have their own dimensions.
+        let info = self.codestream_parser.image_info.basic_info();
+        let size = match info.preview_size {
+            Some((xs, ys)) if self.codestream_parser.is_preview_frame() => {
+                if info.orientation.is_transposing() {
+                    (ys, xs)
+                } else {
+                    (xs, ys)
+                }
+            }
+            _ => info.size,
+        };
         Some(JxlFrameHeader {
             name: frame_header.name.clone(),
             duration: self
diff --git a/jxl_cli/src/dec/mod.rs b/jxl_cli/src/dec/mod.rs
index 3d36604..a70ca62 100644
--- a/jxl_cli/src/dec/mod.rs
+++ b/jxl_cli/src/dec/mod.rs
@@ -163,6 +163,7 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
     allow_partial_files: bool,
 ) -> Result<(DecodeOutput, Duration)> {
     let start = Instant::now();
+    let skip_preview = decoder_options.skip_preview;
 
     let mut decoder_with_image_info = decode_header(input, render_interval, decoder_options)?;
 
@@ -230,7 +231,7 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
         let (_out_chans, mut transformers) = cms
             .initialize_transforms(
                 1,
-                info.size.0,
+                info.size.0.max(info.preview_size.map_or(0, |(xs, ys)| xs.max(ys))),
                 output_profile.clone(),
                 target_profile.clone(),
                 255.0,
@@ -262,7 +263,17 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
     };
 
     'frame: loop {
-        let image_size = info.size;
+        // The preview, if requested, comes before the frames of the image.
+        let image_size = match info.preview_size {
+            Some((xs, ys)) if !skip_preview && image_data.frames.is_empty() => {
+                if info.orientation.is_transposing() {
+                    (ys, xs)
+                } else {
+                    (xs, ys)
+                }
+            }
+            _ => info.size,
+        };
         let byte_size = (
             image_size.0 * output_type.bits_per_sample() / 8,
             image_size.1,
@@ -399,14 +410,16 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
 
     if let Some(ref mut transformer) = cms_transformer {
         for frame in &mut image_data.frames {
+            let (row_bytes, height) = frame.channels[0].byte_size();
+            let width = row_bytes * 8 / (samples_per_pixel * output_type.bits_per_sample());
             apply_cms(
                 &mut frame.channels[0],
                 samples_per_pixel,
                 color_channels,
                 output_type,
                 transformer.as_mut(),
-                info.size.0,
-                info.size.1,
+                width,
+                height,
             )?;
             for partial in &mut frame.partial_renders {
                 apply_cms(
@@ -415,8 +428,8 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
                     color_channels,
                     output_type,
                     transformer.as_mut(),
-                    info.size.0,
-                    info.size.1,
+                    width,
+                    height,
                 )?;
             }
         }
-- 
2.43.0


From 790310bab55081283d18f241382d8734d544acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 11/34] fix: panics when no color output is requested

---
 jxl/src/frame/lf_preview.rs | 7 ++++---
 jxl/src/render/internal.rs  | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/jxl/src/frame/lf_preview.rs b/jxl/src/frame/lf_preview.rs
index 957f082..e22dcbf 100644
--- a/jxl/src/frame/lf_preview.rs
+++ b/jxl/src/frame/lf_preview.rs
@@ -312,9 +312,10 @@ impl Frame {
             return Ok(false);
         }
         let color_type = pixel_format.color_type;
-        let data_format = pixel_format.color_data_format.unwrap();
-        if pixel_format.color_data_format.is_none()
-            || output_buffers.is_empty()
+        let Some(data_format) = pixel_format.color_data_format else {
+            return Ok(false);
+        };
+        if output_buffers.is_empty()
             || !matches!(
                 color_type,
                 JxlColorType::Rgb | JxlColorType::Rgba | JxlColorType::Bgr | JxlColorType::Bgra,
diff --git a/jxl/src/render/internal.rs b/jxl/src/render/internal.rs
index 57f0885..d46bcbc 100644
--- a/jxl/src/render/internal.rs
+++ b/jxl/src/render/internal.rs
@@ -147,7 +147,8 @@ impl<Buffer> RenderPipelineShared<Buffer> {
         requested_data_type: DataTypeTag,
     ) -> (usize, usize) {
         let ChannelInfo { downsample, ty } = self.channel_info[0][channel];
-        if ty.unwrap() != requested_data_type {
+        // Channels that are not used by any stage have no type.
+        if ty.is_some_and(|ty| ty != requested_data_type) {
             panic!(
                 "Invalid pipeline usage: incorrect channel type, requested {:?}, but pipeline wants {ty:?}",
                 requested_data_type
-- 
2.43.0


From bbaf5a0d640e1256f3505867587524993d44144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 12/34] fix: panic when previewing upsampled squeeze tiles
 before their neighbours are decoded

---
 jxl/src/api/inner/box_parser.rs          |  3 +-
 jxl/src/frame/modular/transforms/step.rs | 47 ++++++++++++------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 746533d..1120ecb 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -91,7 +91,8 @@ impl BoxParser {
         self.latest_codestream_box = box_checkpoint.box_type;
         self.state = ParseState::Codestream(box_checkpoint.codestream_left);
         // Continue to count file and codestream positions from the checkpoint.
-        self.local_buffer.mark_consumed(box_checkpoint.file_position);
+        self.local_buffer
+            .mark_consumed(box_checkpoint.file_position);
         self.next_codestream_pos = box_checkpoint
             .consumed_codestream
             .saturating_add(box_checkpoint.codestream_left.unwrap_or(0));
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c1b76a4..d5b7129 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -241,7 +241,9 @@ impl SqueezeInfo {
         };
 
         let mut tiles = [const { None }; 9];
-        tiles[4] = Some(TileGuard::Channel(borrow_channel(buffers, (b, g))));
+        // Tiles that were not decoded yet are treated as all-0.
+        let center = borrow_channel(buffers, (b, g));
+        tiles[4] = center.is_some().then_some(TileGuard::Channel(center));
 
         let borrow_border = |tile_x: isize, tile_y: isize, is_tb: bool| -> Option<TileGuard<'a>> {
             if tile_x >= 0 && tile_x < xs as isize && tile_y >= 0 && tile_y < ys as isize {
@@ -251,7 +253,7 @@ impl SqueezeInfo {
                 } else {
                     borrow_leftright(buffers, (b, grid_idx))
                 };
-                Some(TileGuard::Border(guard))
+                guard.is_some().then_some(TileGuard::Border(guard))
             } else {
                 None
             }
@@ -346,7 +348,10 @@ impl<'a> TiledChannelView<'a> {
         top_tile_h: usize,
         dest: &mut [i32],
     ) {
-        let img = self.tiles[dy * 3 + dx].as_deref().unwrap();
+        let Some(img) = self.tiles[dy * 3 + dx].as_deref() else {
+            dest.fill(0);
+            return;
+        };
         match (dy, dx) {
             (1, 1) => {
                 dest.copy_from_slice(&img.row(ly)[src_range]);
@@ -395,7 +400,11 @@ impl<'a> TiledChannelView<'a> {
         };
 
         let Some(grid_dim) = self.grid_dim else {
-            let row = self.tiles[4].as_deref().unwrap().row(clamped_y);
+            let Some(tile) = self.tiles[4].as_deref() else {
+                row_buf.fill(0);
+                return;
+            };
+            let row = tile.row(clamped_y);
 
             let left_clamp = (2 - xoff as isize).max(0) as usize;
             let right_clamp_start = (w as isize + 2 - xoff as isize).min(max_len as isize) as usize;
@@ -469,17 +478,15 @@ impl<'a> TiledChannelView<'a> {
             }
         }
 
+        let tile_value = |tile: usize, y: usize, x: usize| {
+            self.tiles[tile].as_deref().map_or(0, |img| img.row(y)[x])
+        };
+
         if left_clamp > 0 {
             let left_val = match dy {
-                1 => self.tiles[4].as_deref().unwrap().row(ly)[0],
-                0 => self.tiles[1]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::top_border_row(ly, top_tile_h))[0],
-                2 => self.tiles[7]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::bottom_border_row(ly))[0],
+                1 => tile_value(4, ly, 0),
+                0 => tile_value(1, Self::top_border_row(ly, top_tile_h), 0),
+                2 => tile_value(7, Self::bottom_border_row(ly), 0),
                 _ => 0,
             };
             row_buf[..left_clamp].fill(left_val);
@@ -490,16 +497,10 @@ impl<'a> TiledChannelView<'a> {
             let lx_right = (w - 1) % grid_w;
             let dx = (gx_right as isize - gx_center as isize + 1) as usize;
             let right_val = match (dy, dx) {
-                (1, 1) => self.tiles[4].as_deref().unwrap().row(ly)[lx_right],
-                (1, 2) => self.tiles[5].as_deref().unwrap().row(ly)[3],
-                (0, 1 | 2) => self.tiles[dx]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::top_border_row(ly, top_tile_h))[lx_right],
-                (2, 1 | 2) => self.tiles[6 + dx]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::bottom_border_row(ly))[lx_right],
+                (1, 1) => tile_value(4, ly, lx_right),
+                (1, 2) => tile_value(5, ly, 3),
+                (0, 1 | 2) => tile_value(dx, Self::top_border_row(ly, top_tile_h), lx_right),
+                (2, 1 | 2) => tile_value(6 + dx, Self::bottom_border_row(ly), lx_right),
                 _ => 0,
             };
             row_buf[max_len - right_clamp..max_len].fill(right_val);
-- 
2.43.0


From e41c318cfaeecb76d63ae817e57d5e6d2e367348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 13/34] fix: overflow when a group at the image edge is smaller
 than the filter border

---
 jxl/src/render/low_memory_pipeline/group_scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..fa4827e 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -113,7 +113,7 @@ fn ready_image_area(
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then_some(Rect {
+    (x1 >= x0 && y1 >= y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From 2ab9e8cc6812164731c75605698c7d4ff7610704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 14/34] fix: decode each frame in the pixel format it was
 started with

---
 jxl/src/api/inner/codestream_parser/mod.rs | 20 ++++++++++++++++++--
 jxl/src/api/inner/process.rs               |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 50adebe..51509c2 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -101,6 +101,9 @@ pub(super) struct CodestreamParser {
     // Output information
     pub output_color_profile: Option<JxlColorProfile>,
     pub pixel_format: Option<JxlPixelFormat>,
+    /// The pixel format the current frame was set up for, which is not affected by later
+    /// changes to `pixel_format`.
+    pub frame_pixel_format: Option<JxlPixelFormat>,
 
     /// Number of visible frames still to skip before returning to the caller.
     /// Set via `start_new_frame` when seeking to a non-keyframe.
@@ -117,6 +120,7 @@ impl CodestreamParser {
             state: ParserState::FileHeader,
             output_color_profile: None,
             pixel_format: None,
+            frame_pixel_format: None,
             local_buffer: SmallBuffer::new(4096),
             header_needed_bytes: None,
             frame_info: FrameInfo::new(),
@@ -212,7 +216,15 @@ impl CodestreamParser {
         parallel_runner: &mut dyn JxlParallelRunner,
     ) -> Result<()> {
         if let Some(output_buffers) = &output_buffers {
-            validate_output_buffers(output_buffers, self.pixel_format.as_ref())?;
+            let pixel_format = match self.state {
+                ParserState::Sections { process_mode, .. }
+                    if !matches!(process_mode, ProcessMode::Skip(..)) =>
+                {
+                    self.frame_pixel_format.as_ref()
+                }
+                _ => None,
+            };
+            validate_output_buffers(output_buffers, pixel_format.or(self.pixel_format.as_ref()))?;
         }
 
         loop {
@@ -296,6 +308,10 @@ impl CodestreamParser {
                         );
                     }
 
+                    if !matches!(process_mode, ProcessMode::Skip(..)) {
+                        self.frame_pixel_format = self.pixel_format.clone();
+                    }
+
                     self.frame_info.make_frame(
                         &mut self.local_buffer,
                         toc,
@@ -329,7 +345,7 @@ impl CodestreamParser {
                         match self.frame_info.process_sections(
                             &mut output_buffers,
                             self.output_color_profile.as_ref().unwrap(),
-                            self.pixel_format.as_ref().unwrap(),
+                            self.frame_pixel_format.as_ref().unwrap(),
                             parallel_runner,
                         ) {
                             Ok(None) => Ok(()),
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index f5c34b8..3ad9621 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -180,7 +180,7 @@ impl JxlDecoderInner {
         let Some(profile) = self.codestream_parser.output_color_profile.as_ref() else {
             return Ok(false);
         };
-        let Some(pixel_format) = self.codestream_parser.pixel_format.as_ref() else {
+        let Some(pixel_format) = self.codestream_parser.frame_pixel_format.as_ref() else {
             return Ok(false);
         };
         match self.codestream_parser.frame_info.do_flush(
-- 
2.43.0


From d429ca83fd574cedc9ff78a5271c00164ec999f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 15/34] fix: include the frames to be passed over in the decode
 start of seek targets

---
 .../codestream_parser/frame_scan_info.rs      | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 15954f9..3848e36 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -13,6 +13,8 @@ use crate::headers::frame_header::FrameHeader;
 struct FrameStartInfo {
     box_parser_checkpoint: BoxParserCheckpoint,
     visible_count_before: usize,
+    /// Index of the frame to start decoding from to decode this frame.
+    decode_start: usize,
 }
 
 pub(super) struct FrameScanInfo {
@@ -59,10 +61,7 @@ impl FrameScanInfo {
 
         let current_frame_index = self.frame_starts.len();
         let is_visible = header.is_visible();
-        self.frame_starts.push(FrameStartInfo {
-            box_parser_checkpoint,
-            visible_count_before: self.visible_frame_index,
-        });
+        let visible_count_before = self.visible_frame_index;
 
         let mut decode_start_frame_index = current_frame_index;
 
@@ -107,6 +106,20 @@ impl FrameScanInfo {
             }
         }
 
+        // Decoding starts at the earliest dependency and goes through all the frames from
+        // there on, so it must also be possible to decode the frames in between.
+        let mut next = current_frame_index;
+        while next > decode_start_frame_index {
+            next = self.frame_starts[next - 1].decode_start;
+            decode_start_frame_index = decode_start_frame_index.min(next);
+        }
+
+        self.frame_starts.push(FrameStartInfo {
+            box_parser_checkpoint,
+            visible_count_before,
+            decode_start: decode_start_frame_index,
+        });
+
         if is_visible {
             let duration_ticks = header.duration;
             let duration_ms = if let Some(anim) = animation {
-- 
2.43.0


From 81dd59b6da21f23aedcfc373eb645b5290a2cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 16/34] fix: report errors met while reading ahead only after
 using the data at hand

---
 jxl/src/api/inner/box_parser.rs               | 57 ++++++++++++++++---
 .../api/inner/codestream_parser/frame_info.rs |  2 +-
 jxl/src/api/inner/codestream_parser/mod.rs    | 16 ++++--
 jxl/src/api/inner/process.rs                  |  4 +-
 4 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 1120ecb..ac0890b 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -28,6 +28,8 @@ enum ParseState {
     // After the last codestream box, no more container bytes: no further
     // codestream in file.
     Complete,
+    // The box structure is invalid.
+    Invalid,
 }
 
 // Relevant box types.
@@ -69,6 +71,9 @@ pub(super) struct BoxParser {
     // Codestream position at the end of the latest codestream box.
     next_codestream_pos: u64,
     allow_checkpoint: bool,
+    // Error that the input returned while there was still data to be returned from
+    // `local_buffer`. Reported instead of accessing the input again.
+    deferred_error: Option<std::io::Error>,
 }
 
 impl BoxParser {
@@ -82,6 +87,7 @@ impl BoxParser {
             codestream_pos_to_box: BTreeMap::new(),
             next_codestream_pos: 0,
             allow_checkpoint: true,
+            deferred_error: None,
         }
     }
 
@@ -96,6 +102,7 @@ impl BoxParser {
         self.next_codestream_pos = box_checkpoint
             .consumed_codestream
             .saturating_add(box_checkpoint.codestream_left.unwrap_or(0));
+        self.deferred_error = None;
         // Do not allow creating new checkpoints after a reset.
         self.allow_checkpoint = false;
     }
@@ -219,7 +226,24 @@ impl BoxParser {
         }
     }
 
+    /// The error to return when `needed` more bytes are needed.
+    pub(super) fn out_of_bounds(&self, needed: usize) -> Error {
+        if self.state == ParseState::Invalid {
+            Error::InvalidBox
+        } else {
+            Error::OutOfBounds(needed)
+        }
+    }
+
+    fn check_deferred_error(&mut self) -> Result<()> {
+        match self.deferred_error.take() {
+            Some(e) => Err(e.into()),
+            None => Ok(()),
+        }
+    }
+
     fn available_bytes_inner(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<usize> {
+        self.check_deferred_error()?;
         Ok(self.local_buffer.len() + input.available_bytes()?)
     }
 
@@ -228,6 +252,7 @@ impl BoxParser {
         input: &mut dyn JxlBitstreamInput,
         mut buf: &mut [IoSliceMut],
     ) -> Result<usize> {
+        self.check_deferred_error()?;
         let mut n = 0;
         if !self.local_buffer.is_empty() {
             let mut ll = &self.local_buffer[..];
@@ -237,9 +262,11 @@ impl BoxParser {
         }
         let read = match input.read(buf) {
             Ok(read) => read,
-            // Do not lose the bytes that were already taken from the local buffer;
-            // if the error is permanent, the next call will report it.
-            Err(_) if n > 0 => 0,
+            // Do not lose the bytes that were already taken from the local buffer.
+            Err(e) if n > 0 => {
+                self.deferred_error = Some(e);
+                0
+            }
             Err(e) => return Err(e.into()),
         };
         self.local_buffer.mark_consumed(read as u64);
@@ -251,6 +278,7 @@ impl BoxParser {
         input: &mut dyn JxlBitstreamInput,
         mut amount: usize,
     ) -> Result<usize> {
+        self.check_deferred_error()?;
         let mut n = 0;
         if !self.local_buffer.is_empty() {
             let ll = self.local_buffer.len();
@@ -261,7 +289,10 @@ impl BoxParser {
         let skip = match input.skip(amount) {
             Ok(skip) => skip,
             // As in `read_inner`.
-            Err(_) if n > 0 => 0,
+            Err(e) if n > 0 => {
+                self.deferred_error = Some(e);
+                0
+            }
             Err(e) => return Err(e.into()),
         };
         self.local_buffer.mark_consumed(skip as u64);
@@ -273,6 +304,7 @@ impl BoxParser {
         input: &mut dyn JxlBitstreamInput,
         min_size: usize,
     ) -> Result<()> {
+        self.check_deferred_error()?;
         loop {
             let n = self.local_buffer.refill(|b| Ok(input.read(b)?))?;
             if n == 0 || self.local_buffer.len() >= min_size {
@@ -304,8 +336,17 @@ impl BoxParser {
     }
 
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
+        let res = self.advance_to_codestream_inner(input);
+        if matches!(res, Err(Error::InvalidBox)) {
+            self.state = ParseState::Invalid;
+        }
+        res
+    }
+
+    fn advance_to_codestream_inner(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
             match self.state {
+                ParseState::Invalid => return Err(Error::InvalidBox),
                 ParseState::Codestream(Some(0)) => self.codestream_box_done(),
                 ParseState::Complete | ParseState::InjectedJxlp | ParseState::Codestream(_) => {
                     return Ok(());
@@ -541,9 +582,11 @@ impl<'a> CodestreamInput<'a> {
                 let last = &mut [IoSliceMut::new(&mut buf[upper][..left])];
                 match self.box_parser.read_inner(self.input, last) {
                     Ok(m) => n + m,
-                    // Do not lose the first part; if the error is permanent, the
-                    // next call will report it.
-                    Err(_) if n > 0 => n,
+                    // Do not lose the first part.
+                    Err(Error::IOError(e)) if n > 0 => {
+                        self.box_parser.deferred_error = Some(e);
+                        n
+                    }
                     Err(e) => return Err(e),
                 }
             }
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index a00ef94..88983db 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -361,7 +361,7 @@ impl FrameInfo {
             let mut available_codestream = match available_codestream {
                 Ok(a) => a.max(1),
                 // What we already have might be enough to make progress.
-                Err(Error::OutOfBounds(_)) => return Ok(()),
+                Err(Error::OutOfBounds(_) | Error::InvalidBox) => return Ok(()),
                 Err(e) => return Err(e),
             };
             let mut readable_section_data = self.ready_section_data + available_codestream;
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 51509c2..c4c2392 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -164,8 +164,14 @@ impl CodestreamParser {
                 Ok(c) => c,
                 // There is no more codestream to be had for now, but what is already
                 // here might be enough.
-                Err(Error::OutOfBounds(_)) if !self.local_buffer.is_empty() => 0,
-                Err(e) => return Err(e),
+                Err(Error::OutOfBounds(_) | Error::InvalidBox) if !self.local_buffer.is_empty() => {
+                    0
+                }
+                Err(e) => {
+                    // Some bytes might have been read before the error.
+                    self.header_needed_bytes = None;
+                    return Err(e);
+                }
             };
 
             if let Some(mut need) = self.header_needed_bytes.take() {
@@ -179,7 +185,7 @@ impl CodestreamParser {
                     if c > 0 || enlarge {
                         continue;
                     }
-                    return Err(Error::OutOfBounds(need));
+                    return Err(input.box_parser().out_of_bounds(need));
                 }
             }
 
@@ -201,7 +207,7 @@ impl CodestreamParser {
                     if c > 0 || made_progress || enlarge {
                         continue;
                     }
-                    return Err(Error::OutOfBounds(n));
+                    return Err(input.box_parser().out_of_bounds(n));
                 }
                 Err(e) => return Err(e),
             }
@@ -349,7 +355,7 @@ impl CodestreamParser {
                             parallel_runner,
                         ) {
                             Ok(None) => Ok(()),
-                            Ok(Some(missing)) => Err(Error::OutOfBounds(missing)),
+                            Ok(Some(missing)) => Err(input.box_parser().out_of_bounds(missing)),
                             Err(Error::OutOfBounds(_)) => Err(Error::SectionTooShort),
                             Err(err) => Err(err),
                         }?;
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 3ad9621..8e21687 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -46,8 +46,8 @@ impl SmallBuffer {
             let num = match get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])]) {
                 Ok(num) => num,
                 // Let the caller account for (and try to use) what was already read.
-                // If this is still an error after that, the next call will report it.
-                Err(Error::IOError(_) | Error::OutOfBounds(_)) if total > 0 => break,
+                // The next call will fail in the same way.
+                Err(Error::OutOfBounds(_) | Error::InvalidBox) if total > 0 => break,
                 Err(e) => return Err(e),
             };
             total += num;
-- 
2.43.0


From 777729e87e62c199c82c2927226a355180a4cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 17/34] fix: keep count of skipped bytes when the input fails

---
 jxl/src/api/input.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index 705133c..d3153b0 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,10 +26,13 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            let num = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
-            if num == 0 {
-                break;
-            }
+            let num = match self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])]) {
+                Ok(0) => break,
+                Ok(num) => num,
+                // Do not lose count of what was already skipped.
+                Err(_) if skipped > 0 => break,
+                Err(e) => return Err(e),
+            };
             bytes -= num;
             skipped += num;
         }
-- 
2.43.0


From e6374f251eebe052dc3faeacc6e07953cad3e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 18/34] fix: do not decode hidden frames when only scanning
 frames

---
 jxl/src/api/inner/codestream_parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index c4c2392..d032550 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -297,8 +297,13 @@ impl CodestreamParser {
                         process_mode = ProcessMode::SkipOutput;
                     }
 
-                    if decode_options.scan_frames_only && process_mode == ProcessMode::Process {
-                        process_mode = ProcessMode::Skip(true);
+                    if decode_options.scan_frames_only {
+                        process_mode = match process_mode {
+                            ProcessMode::Process => ProcessMode::Skip(true),
+                            // The frames this one refers to are not decoded either.
+                            ProcessMode::SkipOutput => ProcessMode::Skip(false),
+                            ProcessMode::Skip(notify) => ProcessMode::Skip(notify),
+                        };
                     }
 
                     self.state = ParserState::Sections {
-- 
2.43.0


From 087e7e28da9054f6d19591906759b93506ebaa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 19/34] fix: keep reporting an error for frames whose decoding
 failed

---
 .../api/inner/codestream_parser/frame_info.rs | 36 +++++++++++++++++++
 jxl/src/api/inner/codestream_parser/mod.rs    |  1 +
 jxl/src/error.rs                              |  2 ++
 jxl/src/frame/decode.rs                       |  1 +
 jxl/src/frame/mod.rs                          |  3 ++
 jxl/src/frame/render.rs                       |  9 +++++
 6 files changed, 52 insertions(+)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 88983db..64da4d2 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -73,6 +73,10 @@ pub struct FrameInfo {
     // group indices that *might* have new renderable data.
     candidate_hf_sections: HashSet<usize>,
 
+    // Whether setting up the frame or processing its sections failed, which leaves it
+    // incomplete for good.
+    failed: bool,
+
     #[cfg(test)]
     pub use_simple_pipeline: bool,
 }
@@ -92,6 +96,7 @@ impl FrameInfo {
             hf_global_section: None,
             hf_sections: vec![],
             candidate_hf_sections: HashSet::new(),
+            failed: false,
             pixels_dirty: false,
             #[cfg(test)]
             use_simple_pipeline: false,
@@ -115,6 +120,7 @@ impl FrameInfo {
         self.hf_global_section = None;
         self.hf_sections.clear();
         self.candidate_hf_sections.clear();
+        self.failed = false;
     }
 
     pub fn current_frame_header(&self) -> Option<&FrameHeader> {
@@ -189,6 +195,9 @@ impl FrameInfo {
         output_profile: &JxlColorProfile,
         process_mode: ProcessMode,
     ) -> Result<()> {
+        // Reset once everything is set up.
+        self.failed = true;
+
         self.section_size = toc.entries.iter().map(|x| *x as usize).sum();
         self.ready_section_data = 0;
 
@@ -291,6 +300,15 @@ impl FrameInfo {
             self.ready_section_data += num;
         }
 
+        self.failed = false;
+        Ok(())
+    }
+
+    /// Fails if an earlier call failed while setting up or processing this frame.
+    pub fn check_not_failed(&self) -> Result<()> {
+        if self.failed {
+            return Err(Error::FrameDecodingFailed);
+        }
         Ok(())
     }
 
@@ -463,6 +481,23 @@ impl FrameInfo {
         output_profile: &JxlColorProfile,
         pixel_format: &JxlPixelFormat,
         parallel_runner: &mut dyn JxlParallelRunner,
+    ) -> Result<Option<usize>> {
+        let result = self.process_ready_sections(
+            output_buffers,
+            output_profile,
+            pixel_format,
+            parallel_runner,
+        );
+        self.failed = result.is_err();
+        result
+    }
+
+    fn process_ready_sections(
+        &mut self,
+        output_buffers: &mut Option<&mut [JxlOutputBuffer<'_>]>,
+        output_profile: &JxlColorProfile,
+        pixel_format: &JxlPixelFormat,
+        parallel_runner: &mut dyn JxlParallelRunner,
     ) -> Result<Option<usize>> {
         let data_for_next_section = self
             .sections
@@ -609,6 +644,7 @@ impl FrameInfo {
         pixel_format: &JxlPixelFormat,
         parallel_runner: &mut dyn JxlParallelRunner,
     ) -> Result<()> {
+        self.check_not_failed()?;
         let Some(frame) = self.frame.as_mut() else {
             return Ok(());
         };
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index d032550..577e368 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -346,6 +346,7 @@ impl CodestreamParser {
                     is_preview,
                     process_mode,
                 } => {
+                    self.frame_info.check_not_failed()?;
                     if matches!(process_mode, ProcessMode::Skip(..)) {
                         self.frame_info
                             .skip_sections(input, &mut self.local_buffer)?;
diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b4e4c2b..9a1306c 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -263,6 +263,8 @@ pub enum Error {
     IOError(#[from] std::io::Error),
     #[error("Wrong buffer count: {0} buffers given, {1} buffers expected")]
     WrongBufferCount(usize, usize),
+    #[error("Decoding of this frame failed before")]
+    FrameDecodingFailed,
     #[error("Image is not grayscale, but grayscale output was requested")]
     NotGrayscale,
     #[error("Invalid output buffer byte size {0}x{1} for {2}x{3} image with type {4:?} {5:?}")]
diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..795edad 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -252,6 +252,7 @@ impl Frame {
             reference_frame_data,
             lf_frame_data,
             section0_render_up_to_date: false,
+            render_failed: false,
             vardct_buffers: PerThreadStorage::new(VarDctBuffers::new),
             patches: Arc::new(RwLock::new(PatchesDictionary::new(num_extra_channels))),
             splines: Arc::new(RwLock::new(Splines::default())),
diff --git a/jxl/src/frame/mod.rs b/jxl/src/frame/mod.rs
index 67a59a2..cf1d282 100644
--- a/jxl/src/frame/mod.rs
+++ b/jxl/src/frame/mod.rs
@@ -295,6 +295,9 @@ pub struct Frame {
     reference_frame_data: Option<Vec<Image<f32>>>,
     lf_frame_data: Option<[Image<f32>; 3]>,
     section0_render_up_to_date: bool,
+    /// Set if rendering failed after changing the state of groups and transforms, which
+    /// leaves this frame unable to render again.
+    render_failed: bool,
     /// Reusable buffers for VarDCT group decoding.
     vardct_buffers: PerThreadStorage<group::VarDctBuffers>,
     group_status: GroupStatus,
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index d1abda5..1808261 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -258,8 +258,15 @@ impl Frame {
         do_flush: bool,
         parallel_runner: &mut dyn JxlParallelRunner,
     ) -> Result<(Vec<Rect>, bool)> {
+        if self.render_failed {
+            return Err(Error::FrameDecodingFailed);
+        }
+
         pipeline_mut!(self, p, p.check_buffer_sizes(buffers)?);
 
+        // Reset once everything is rendered.
+        self.render_failed = true;
+
         let buffer_splitter = BufferSplitter::new(buffers);
 
         pipeline_mut!(self, p, p.render_outside_frame(&buffer_splitter)?);
@@ -539,6 +546,8 @@ impl Frame {
 
         let regions = buffer_splitter.into_changed_regions();
 
+        self.render_failed = false;
+
         Ok((regions, has_decoded_data))
     }
 
-- 
2.43.0


From 9ff2f43703fd241c15c2f5272aa0f7ce9b915d91 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 20/34] fix: write animated PNG files that are valid

---
 jxl_cli/src/enc/png.rs | 63 ++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 42 deletions(-)

diff --git a/jxl_cli/src/enc/png.rs b/jxl_cli/src/enc/png.rs
index 36ad9e1..f02d63f 100644
--- a/jxl_cli/src/enc/png.rs
+++ b/jxl_cli/src/enc/png.rs
@@ -167,51 +167,30 @@ pub fn to_png<Writer: Write>(
     }
     let mut writer = encoder.write_header()?;
 
-    if eight_bits {
-        for frame in &image_data.frames {
-            if animated {
-                let (delay_num, delay_den) = calculate_apng_delay(frame.duration)?;
-                writer.set_frame_delay(delay_num, delay_den)?;
-            }
-            let mut ww = writer.stream_writer()?;
-            let chan = if let Some(p) = partial_render {
-                &frame.partial_renders[p][0]
-            } else {
-                &frame.channels[0]
-            };
-            for y in 0..height {
-                ww.write_all(chan.row(y))?;
-            }
+    // The stream writer of the `png` crate does not produce valid animations,
+    // so frames are written whole.
+    let mut buffer: Vec<u8> = vec![];
+    for frame in &image_data.frames {
+        if animated {
+            let (delay_num, delay_den) = calculate_apng_delay(frame.duration)?;
+            writer.set_frame_delay(delay_num, delay_den)?;
         }
-    } else {
-        // 16-bit
-        let mut buffer: Vec<u8> = vec![0; 2 * width * num_channels];
-        for frame in &image_data.frames {
-            if animated {
-                let (delay_num, delay_den) = calculate_apng_delay(frame.duration)?;
-                writer.set_frame_delay(delay_num, delay_den)?;
-            }
-            let mut ww = writer.stream_writer()?;
-            let chan = if let Some(p) = partial_render {
-                &frame.partial_renders[p][0]
-            } else {
-                &frame.channels[0]
-            };
-            for y in 0..height {
-                let row = chan.row(y);
-                if cfg!(target_endian = "big") {
-                    ww.write_all(row)?;
-                } else {
-                    for x in 0..width * num_channels {
-                        buffer[x * 2..][..2].copy_from_slice(
-                            &u16::from_ne_bytes(row[x * 2..][..2].try_into().unwrap())
-                                .to_be_bytes(),
-                        );
-                    }
-                    ww.write_all(&buffer)?;
-                }
+        let chan = if let Some(p) = partial_render {
+            &frame.partial_renders[p][0]
+        } else {
+            &frame.channels[0]
+        };
+        buffer.clear();
+        for y in 0..height {
+            buffer.extend_from_slice(chan.row(y));
+        }
+        if !eight_bits {
+            for sample in buffer.chunks_exact_mut(2) {
+                let value = u16::from_ne_bytes([sample[0], sample[1]]);
+                sample.copy_from_slice(&value.to_be_bytes());
             }
         }
+        writer.write_image_data(&buffer)?;
     }
     Ok(())
 }
-- 
2.43.0


From 1a68a0ecc495e62ddfff144f183e7455834c5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 21/34] fix: report errors of the last writes of an output file

---
 jxl_cli/src/enc/mod.rs | 7 +++++--
 jxl_cli/src/enc/png.rs | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jxl_cli/src/enc/mod.rs b/jxl_cli/src/enc/mod.rs
index d15e0ff..6739e0b 100644
--- a/jxl_cli/src/enc/mod.rs
+++ b/jxl_cli/src/enc/mod.rs
@@ -4,7 +4,7 @@
 // license that can be found in the LICENSE file.
 
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 use color_eyre::eyre::{Result, eyre};
@@ -88,7 +88,8 @@ impl OutputFormat {
                         image_data,
                         &mut writer,
                         if i < num_partials { Some(i) } else { None },
-                    )?
+                    )?;
+                    writer.flush()?;
                 }
             }
         }
@@ -101,6 +102,8 @@ impl OutputFormat {
             #[cfg(feature = "exr")]
             Self::Exr => exr::to_exr(image_data, &mut writer)?,
         };
+        // Dropping the writer would ignore errors.
+        writer.flush()?;
         Ok(())
     }
 }
diff --git a/jxl_cli/src/enc/png.rs b/jxl_cli/src/enc/png.rs
index f02d63f..c6847d0 100644
--- a/jxl_cli/src/enc/png.rs
+++ b/jxl_cli/src/enc/png.rs
@@ -192,5 +192,6 @@ pub fn to_png<Writer: Write>(
         }
         writer.write_image_data(&buffer)?;
     }
+    writer.finish()?;
     Ok(())
 }
-- 
2.43.0


From 32a034ce2e3cf985afc55e5afb706386722aca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 22/34] fix: report new pixels of previewed SkipProgressive
 frames

flush_pixels returned false for them although it had drawn new pixels.
---
 jxl/src/frame/render.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 1808261..f2e0209 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -225,7 +225,11 @@ impl Frame {
         self.lf_frame_data = lf_frame_data;
 
         let (regions, has_decoded_data) = result?;
-        let rendered = !regions.is_empty() && self.header.frame_type == FrameType::RegularFrame;
+        let rendered = !regions.is_empty()
+            && matches!(
+                self.header.frame_type,
+                FrameType::RegularFrame | FrameType::SkipProgressive
+            );
 
         if self.header.frame_type == FrameType::LFFrame
             && self.header.lf_level == 1
-- 
2.43.0


From a035e601907276c15a016b3dcf08a99b88f4738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 23/34] fix: show the same noise after seeking

---
 jxl/src/api/decoder.rs                              |  3 +++
 jxl/src/api/inner/codestream_parser/frame_info.rs   | 11 ++++++++++-
 .../api/inner/codestream_parser/frame_scan_info.rs  | 13 +++++++++++++
 jxl/src/api/inner/codestream_parser/mod.rs          |  2 ++
 jxl/src/api/inner/mod.rs                            |  1 +
 5 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/decoder.rs b/jxl/src/api/decoder.rs
index 4484497..d49e850 100644
--- a/jxl/src/api/decoder.rs
+++ b/jxl/src/api/decoder.rs
@@ -72,6 +72,9 @@ pub struct VisibleFrameSeekTarget {
     /// Number of visible frames to skip after seek-start before decoding the
     /// requested target frame.
     pub visible_frames_to_skip: usize,
+    /// Number of visible frames before the frame at which decoding starts, and of
+    /// non-visible frames since the last of those.
+    pub(crate) frames_before_start: (usize, usize),
 }
 
 impl<S: JxlState> JxlDecoder<S> {
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 64da4d2..6d620bb 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -55,6 +55,9 @@ pub struct FrameInfo {
     frame_header: Option<FrameHeader>,
     toc_parser: Option<IncrementalTocReader>,
     frame: Option<Frame>,
+    // Number of visible frames before the first frame to be decoded, and of
+    // non-visible frames since the last of those.
+    pub(super) frames_before_start: (usize, usize),
     // Keeps track of whether pixels have been modified.
     pixels_dirty: bool,
 
@@ -87,6 +90,7 @@ impl FrameInfo {
             frame_header: None,
             toc_parser: None,
             frame: None,
+            frames_before_start: (0, 0),
             sections: VecDeque::new(),
             section_size: 0,
             ready_section_data: 0,
@@ -219,7 +223,12 @@ impl FrameInfo {
                 .map(|x| x.finalize())
                 .transpose()?
                 .flatten()
-                .unwrap_or_else(|| DecoderState::new(file_header.clone(), decode_options));
+                .unwrap_or_else(|| {
+                    let mut state = DecoderState::new(file_header.clone(), decode_options);
+                    (state.visible_frame_index, state.nonvisible_frame_index) =
+                        self.frames_before_start;
+                    state
+                });
             let mut frame =
                 Frame::from_header_and_toc(self.frame_header.take().unwrap(), toc, decoder_state)?;
 
diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 3848e36..01f80aa 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -13,6 +13,8 @@ use crate::headers::frame_header::FrameHeader;
 struct FrameStartInfo {
     box_parser_checkpoint: BoxParserCheckpoint,
     visible_count_before: usize,
+    /// Number of non-visible frames since the last visible frame.
+    nonvisible_count_before: usize,
     /// Index of the frame to start decoding from to decode this frame.
     decode_start: usize,
 }
@@ -22,6 +24,8 @@ pub(super) struct FrameScanInfo {
     scanned_frames: Vec<VisibleFrameInfo>,
     /// Zero-based visible frame index counter.
     visible_frame_index: usize,
+    /// Number of non-visible frames since the last visible frame.
+    nonvisible_frame_index: usize,
     /// File offsets and visibility info for every non-preview frame (visible
     /// and non-visible), in parse order.
     frame_starts: Vec<FrameStartInfo>,
@@ -41,6 +45,7 @@ impl FrameScanInfo {
         Self {
             scanned_frames: Vec::new(),
             visible_frame_index: 0,
+            nonvisible_frame_index: 0,
             frame_starts: Vec::new(),
             reference_slot_decode_start: [None; DecoderState::MAX_STORED_FRAMES],
             lf_slot_decode_start: [None; DecoderState::NUM_LF_FRAMES],
@@ -117,6 +122,7 @@ impl FrameScanInfo {
         self.frame_starts.push(FrameStartInfo {
             box_parser_checkpoint,
             visible_count_before,
+            nonvisible_count_before: self.nonvisible_frame_index,
             decode_start: decode_start_frame_index,
         });
 
@@ -140,6 +146,10 @@ impl FrameScanInfo {
                 visible_frames_to_skip: self
                     .visible_frame_index
                     .saturating_sub(decode_start.visible_count_before),
+                frames_before_start: (
+                    decode_start.visible_count_before,
+                    decode_start.nonvisible_count_before,
+                ),
             };
             let is_keyframe = seek_target.visible_frames_to_skip == 0;
 
@@ -155,6 +165,9 @@ impl FrameScanInfo {
             });
 
             self.visible_frame_index += 1;
+            self.nonvisible_frame_index = 0;
+        } else {
+            self.nonvisible_frame_index += 1;
         }
 
         // Update slot dependency origins after processing this frame.
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 577e368..5aa0832 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -140,9 +140,11 @@ impl CodestreamParser {
     pub(super) fn start_new_frame(
         &mut self,
         visible_frames_to_skip: usize,
+        frames_before_start: (usize, usize),
         consumed_codestream: u64,
     ) {
         self.frame_info.clear(true);
+        self.frame_info.frames_before_start = frames_before_start;
         self.local_buffer = SmallBuffer::new(4096);
         self.local_buffer.mark_consumed(consumed_codestream);
         self.visible_frames_to_skip = visible_frames_to_skip;
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index e5a91e3..84ff175 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -121,6 +121,7 @@ impl JxlDecoderInner {
             .reset_to_checkpoint(seek_target.box_parser_checkpoint);
         self.codestream_parser.start_new_frame(
             seek_target.visible_frames_to_skip,
+            seek_target.frames_before_start,
             seek_target.box_parser_checkpoint.consumed_codestream,
         );
     }
-- 
2.43.0


From 55c0884ca51f949d4ff18f46e9e0bfb9951ef110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 24/34] fix: panic when parts of a small edge group become
 ready separately

---
 .../low_memory_pipeline/group_scheduler.rs    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index fa4827e..8b5c18e 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -80,25 +80,39 @@ fn ready_image_area(
     yrange: Range<u8>,
 ) -> Option<Rect> {
     let (gx, gy) = group_position;
+    // Groups at the image edge can be smaller than the two borders that are rendered together with
+    // their neighbours, in which case nothing is left for the area between the borders.
+    let inner_end = (
+        group_rect
+            .end()
+            .0
+            .saturating_sub(border_size.0)
+            .max(group_rect.origin.0 + border_size.0),
+        group_rect
+            .end()
+            .1
+            .saturating_sub(border_size.1)
+            .max(group_rect.origin.1 + border_size.1),
+    );
     let y0 = match (gy == 0, yrange.start) {
         (true, 0) => group_rect.origin.1,
         (false, 0) => group_rect.origin.1 - border_size.1,
         (_, 1) => group_rect.origin.1 + border_size.1,
         // (_, 2)
-        _ => group_rect.end().1 - border_size.1,
+        _ => inner_end.1,
     };
     let x0 = match (gx == 0, xrange.start) {
         (true, 0) => group_rect.origin.0,
         (false, 0) => group_rect.origin.0 - border_size.0,
         (_, 1) => group_rect.origin.0 + border_size.0,
         // (_, 2)
-        _ => group_rect.end().0 - border_size.0,
+        _ => inner_end.0,
     };
 
     let y1 = match (gy + 1 == group_count.1, yrange.end) {
         (true, 3) => group_rect.end().1,
         (false, 3) => group_rect.end().1 + border_size.1,
-        (_, 2) => group_rect.end().1 - border_size.1,
+        (_, 2) => inner_end.1,
         // (_, 1)
         _ => group_rect.origin.1 + border_size.1,
     }
@@ -107,7 +121,7 @@ fn ready_image_area(
     let x1 = match (gx + 1 == group_count.0, xrange.end) {
         (true, 3) => group_rect.end().0,
         (false, 3) => group_rect.end().0 + border_size.0,
-        (_, 2) => group_rect.end().0 - border_size.0,
+        (_, 2) => inner_end.0,
         // (_, 1)
         _ => group_rect.origin.0 + border_size.0,
     }
-- 
2.43.0


From 870b54ca1502590a92ebead5602bdfc57c9640d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 25/34] fix: panic when the borders of a group are wider than
 the row padding

---
 jxl/src/render/low_memory_pipeline/mod.rs | 45 ++++++++++++-----------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..b5d895f 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -49,6 +49,9 @@ impl LowMemoryRenderPipelinePerThread {
             return Ok(());
         }
         let nc = p.shared.num_channels();
+        // The widest area that is rendered at once is a group together with the borders that it
+        // shares with the groups on both sides.
+        let row_len = p.shared.chunk_size + 2 * p.border_size.0;
         let mut initial_buffers = vec![];
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
@@ -56,7 +59,7 @@ impl LowMemoryRenderPipelinePerThread {
                 p.next_border_and_cur_downsample[0][chan].0 as usize,
                 0,
                 0,
-                p.shared.chunk_size >> p.shared.channel_info[0][chan].downsample.0,
+                row_len.shrc(p.shared.channel_info[0][chan].downsample.0),
             )?);
         }
         self.row_buffers = vec![initial_buffers];
@@ -70,7 +73,7 @@ impl LowMemoryRenderPipelinePerThread {
                     *next_y_border as usize,
                     stage.shift().1 as usize,
                     stage.shift().0 as usize,
-                    p.shared.chunk_size >> *dsx,
+                    row_len.shrc(*dsx),
                 )?);
             }
             self.row_buffers.push(stage_buffers);
@@ -223,13 +226,31 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
+        let mut border_size = (0, 0);
+        for c in 0..nc {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
+        }
+        for s in 0..shared.stages.len() {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
+        }
+
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
         for (i, stage) in shared.stages.iter().enumerate() {
             if let Stage::Save(s) = stage {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = shared.chunk_size >> dx;
+                    let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
                     let fill_pattern = s.data_format.opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
@@ -271,24 +292,6 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
-        let mut border_size = (0, 0);
-        for c in 0..nc {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
-        }
-        for s in 0..shared.stages.len() {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
-        }
-
         Ok(Self {
             input_buffers: InputBuffers::new(nc, shared.group_count)?,
             stage_input_buffer_index,
-- 
2.43.0


From 85317902030f7c81155447b0fff05f247942f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 26/34] fix: align rendered areas with subsampled channels and
 with the end of rows

---
 .../low_memory_pipeline/group_scheduler.rs    | 42 ++++++++++++-------
 jxl/src/render/low_memory_pipeline/mod.rs     | 13 ++++--
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 8b5c18e..a2d6643 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -80,20 +80,30 @@ fn ready_image_area(
     yrange: Range<u8>,
 ) -> Option<Rect> {
     let (gx, gy) = group_position;
-    // Groups at the image edge can be smaller than the two borders that are rendered together with
-    // their neighbours, in which case nothing is left for the area between the borders.
+    // Where the area next to the borders with the following groups starts. Groups at the image edge
+    // have no such borders, and can be smaller than the borders or of a size that is not a multiple
+    // of the subsampling.
     let inner_end = (
-        group_rect
-            .end()
-            .0
-            .saturating_sub(border_size.0)
-            .max(group_rect.origin.0 + border_size.0),
-        group_rect
-            .end()
-            .1
-            .saturating_sub(border_size.1)
-            .max(group_rect.origin.1 + border_size.1),
+        if gx + 1 == group_count.0 {
+            group_rect.end().0
+        } else {
+            group_rect.end().0 - border_size.0
+        },
+        if gy + 1 == group_count.1 {
+            group_rect.end().1
+        } else {
+            group_rect.end().1 - border_size.1
+        },
     );
+    // Where the border around the left side of a group ends. If it needs pixels past the end of the
+    // rows, it must go on up to there for them to be padded.
+    let border_x1 = |group_x0: usize| {
+        if group_x0 + 2 * border_size.0 > input_size.0 {
+            input_size.0
+        } else {
+            group_x0 + border_size.0
+        }
+    };
     let y0 = match (gy == 0, yrange.start) {
         (true, 0) => group_rect.origin.1,
         (false, 0) => group_rect.origin.1 - border_size.1,
@@ -104,7 +114,7 @@ fn ready_image_area(
     let x0 = match (gx == 0, xrange.start) {
         (true, 0) => group_rect.origin.0,
         (false, 0) => group_rect.origin.0 - border_size.0,
-        (_, 1) => group_rect.origin.0 + border_size.0,
+        (_, 1) => border_x1(group_rect.origin.0),
         // (_, 2)
         _ => inner_end.0,
     };
@@ -120,14 +130,14 @@ fn ready_image_area(
 
     let x1 = match (gx + 1 == group_count.0, xrange.end) {
         (true, 3) => group_rect.end().0,
-        (false, 3) => group_rect.end().0 + border_size.0,
+        (false, 3) => border_x1(group_rect.end().0),
         (_, 2) => inner_end.0,
         // (_, 1)
-        _ => group_rect.origin.0 + border_size.0,
+        _ => border_x1(group_rect.origin.0),
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then(|| Rect {
+    (x1 > x0 && y1 > y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index b5d895f..82c2a9f 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -50,8 +50,9 @@ impl LowMemoryRenderPipelinePerThread {
         }
         let nc = p.shared.num_channels();
         // The widest area that is rendered at once is a group together with the borders that it
-        // shares with the groups on both sides.
-        let row_len = p.shared.chunk_size + 2 * p.border_size.0;
+        // shares with the groups on both sides, and with all of the next group if that is smaller
+        // than two borders.
+        let row_len = p.shared.chunk_size + 3 * p.border_size.0;
         let mut initial_buffers = vec![];
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
@@ -243,6 +244,12 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 .1
                 .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
         }
+        // The areas that are rendered start and end at the borders of the groups, so make sure that
+        // all the channels have a pixel starting there.
+        for ci in shared.channel_info.iter().flatten() {
+            border_size.0 = border_size.0.next_multiple_of(1 << ci.downsample.0);
+            border_size.1 = border_size.1.next_multiple_of(1 << ci.downsample.1);
+        }
 
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
@@ -250,7 +257,7 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             if let Stage::Save(s) = stage {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
+                    let row_len = (shared.chunk_size + 3 * border_size.0).shrc(dx);
                     let fill_pattern = s.data_format.opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
-- 
2.43.0


From 6b79a92e988c818178ac21af443e0db2922e43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 27/34] fix: panic when previewing an LF frame into a buffer of
 the wrong size

---
 jxl/src/frame/lf_preview.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jxl/src/frame/lf_preview.rs b/jxl/src/frame/lf_preview.rs
index e22dcbf..6a50686 100644
--- a/jxl/src/frame/lf_preview.rs
+++ b/jxl/src/frame/lf_preview.rs
@@ -4,7 +4,7 @@
 // license that can be found in the LICENSE file.
 
 use crate::api::{JxlColorProfile, JxlColorType, JxlDataFormat, JxlOutputBuffer, JxlPixelFormat};
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::frame::Frame;
 use crate::headers::Orientation;
 use crate::headers::frame_header::FrameType;
@@ -328,6 +328,21 @@ impl Frame {
         let xsize = sz.xsize() as usize;
         let ysize = sz.ysize() as usize;
 
+        let orientation = image_metadata.orientation;
+        let output_size = orientation.map_size((xsize, ysize));
+        let byte_size = data_format.bytes_per_sample() * color_type.samples_per_pixel();
+        let buffer_size = output_buffers[0].byte_size();
+        if buffer_size != (output_size.0 * byte_size, output_size.1) {
+            return Err(Error::InvalidOutputBufferSize(
+                buffer_size.0,
+                buffer_size.1,
+                output_size.0,
+                output_size.1,
+                color_type,
+                data_format,
+            ));
+        }
+
         // Render the whole image the first time, then only the changed regions.
         let mut regions_storage;
         let regions = if self.decoder_state.lf_frame_was_rendered {
@@ -346,11 +361,10 @@ impl Frame {
             &regions_storage[..]
         };
 
-        let orientation = image_metadata.orientation;
         let info = SaveStageBufferInfo {
             downsample: (0, 0),
             orientation,
-            byte_size: data_format.bytes_per_sample() * color_type.samples_per_pixel(),
+            byte_size,
             after_extend: false,
         };
         let info = [Some(info)];
-- 
2.43.0


From 20410a30d3a8f9e54f6c9cadb8abbc715cfc3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 28/34] fix: panic when the tiles of a squeezed channel are
 narrower than the smoothing filter

---
 jxl/src/frame/modular/transforms/step.rs | 100 +++++++++--------------
 1 file changed, 40 insertions(+), 60 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index d5b7129..e342d4d 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -431,9 +431,16 @@ impl<'a> TiledChannelView<'a> {
 
         let (grid_w, grid_h) = grid_dim;
         let (gx_center, gy_center) = self.center_grid_pos;
+
+        // Tiles can be smaller than the convolution border: stay within the 3x3
+        // neighbourhood of the center tile, extending its edges if needed.
+        let x_limits = gx_center.saturating_sub(1) * grid_w..((gx_center + 2) * grid_w).min(w);
+        let y_limits = gy_center.saturating_sub(1) * grid_h..((gy_center + 2) * grid_h).min(h);
+        let clamped_y = clamped_y.clamp(y_limits.start, y_limits.end - 1);
+
         let gy = clamped_y / grid_h;
         let ly = clamped_y % grid_h;
-        let dy = (gy as isize - gy_center as isize + 1) as usize;
+        let dy = gy + 1 - gy_center;
 
         let top_tile_h = if gy_center > 0 {
             (h - (gy_center - 1) * grid_h).min(grid_h)
@@ -444,67 +451,40 @@ impl<'a> TiledChannelView<'a> {
         let global_x_start = xoff as isize - 2;
         let global_x_end = global_x_start + max_len as isize;
 
-        let left_clamp = (-global_x_start).max(0) as usize;
-        let right_clamp = (global_x_end - w as isize).max(0) as usize;
-
-        let clamped_x_start = global_x_start.max(0) as usize;
-        let clamped_x_end = global_x_end.min(w as isize) as usize;
-
-        if clamped_x_start < clamped_x_end {
-            let gx_start = clamped_x_start / grid_w;
-            let gx_end = (clamped_x_end - 1) / grid_w;
-
-            for gx in gx_start..=gx_end {
-                let dx = (gx as isize - gx_center as isize + 1) as usize;
-                let tile_x_start = gx * grid_w;
-                let tile_w = (w - tile_x_start).min(grid_w);
-                let intersect_start = clamped_x_start.max(tile_x_start);
-                let intersect_end = clamped_x_end.min(tile_x_start + tile_w);
-
-                if intersect_start < intersect_end {
-                    let dest_start = left_clamp + (intersect_start - clamped_x_start);
-                    let dest_end = dest_start + (intersect_end - intersect_start);
-                    let src_start = intersect_start - tile_x_start;
-                    let src_end = intersect_end - tile_x_start;
-                    self.copy_tile_slice(
-                        (dx, dy),
-                        ly,
-                        src_start..src_end,
-                        tile_w,
-                        top_tile_h,
-                        &mut row_buf[dest_start..dest_end],
-                    );
-                }
-            }
+        let left_clamp = (x_limits.start as isize - global_x_start).max(0) as usize;
+        let right_clamp = (global_x_end - x_limits.end as isize).max(0) as usize;
+
+        let clamped_x_start = (global_x_start + left_clamp as isize) as usize;
+        let clamped_x_end = (global_x_end - right_clamp as isize) as usize;
+
+        let gx_start = clamped_x_start / grid_w;
+        let gx_end = (clamped_x_end - 1) / grid_w;
+
+        for gx in gx_start..=gx_end {
+            let dx = gx + 1 - gx_center;
+            let tile_x_start = gx * grid_w;
+            let tile_w = (w - tile_x_start).min(grid_w);
+            let intersect_start = clamped_x_start.max(tile_x_start);
+            let intersect_end = clamped_x_end.min(tile_x_start + tile_w);
+
+            let dest_start = left_clamp + (intersect_start - clamped_x_start);
+            let dest_end = dest_start + (intersect_end - intersect_start);
+            let src_start = intersect_start - tile_x_start;
+            let src_end = intersect_end - tile_x_start;
+            self.copy_tile_slice(
+                (dx, dy),
+                ly,
+                src_start..src_end,
+                tile_w,
+                top_tile_h,
+                &mut row_buf[dest_start..dest_end],
+            );
         }
 
-        let tile_value = |tile: usize, y: usize, x: usize| {
-            self.tiles[tile].as_deref().map_or(0, |img| img.row(y)[x])
-        };
-
-        if left_clamp > 0 {
-            let left_val = match dy {
-                1 => tile_value(4, ly, 0),
-                0 => tile_value(1, Self::top_border_row(ly, top_tile_h), 0),
-                2 => tile_value(7, Self::bottom_border_row(ly), 0),
-                _ => 0,
-            };
-            row_buf[..left_clamp].fill(left_val);
-        }
-
-        if right_clamp > 0 {
-            let gx_right = (w - 1) / grid_w;
-            let lx_right = (w - 1) % grid_w;
-            let dx = (gx_right as isize - gx_center as isize + 1) as usize;
-            let right_val = match (dy, dx) {
-                (1, 1) => tile_value(4, ly, lx_right),
-                (1, 2) => tile_value(5, ly, 3),
-                (0, 1 | 2) => tile_value(dx, Self::top_border_row(ly, top_tile_h), lx_right),
-                (2, 1 | 2) => tile_value(6 + dx, Self::bottom_border_row(ly), lx_right),
-                _ => 0,
-            };
-            row_buf[max_len - right_clamp..max_len].fill(right_val);
-        }
+        let left_val = row_buf[left_clamp];
+        row_buf[..left_clamp].fill(left_val);
+        let right_val = row_buf[max_len - right_clamp - 1];
+        row_buf[max_len - right_clamp..max_len].fill(right_val);
 
         let last = row_buf[max_len - 1];
         row_buf[max_len..].fill(last);
-- 
2.43.0


From c45c814a2a1c5c866e59b9026264d4831b73d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 29/34] fix: panic when a squeezed channel is split in empty
 groups

---
 jxl/src/error.rs             |  2 ++
 jxl/src/frame/modular/mod.rs | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index 9a1306c..1571c7a 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -219,6 +219,8 @@ pub enum Error {
     MetaSqueezeRequiresInPlace,
     #[error("Invalid transform: too many squeezes (shift > 30)")]
     TooManySqueezes,
+    #[error("Invalid transform: too many squeezes for the group size")]
+    TooManySqueezesForGroupSize,
     #[error("Invalid BlockConextMap: too big: num_lf_context: {0}, num_qf_thresholds: {1}")]
     BlockContextMapSizeTooBig(usize, usize),
     #[error("Invalid BlockConextMap: too many distinct contexts.")]
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..3023483 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -432,6 +432,18 @@ impl FullModularImage {
             modular_color_channels,
         );
 
+        // Every group needs to contain some samples of the channels that are split in groups.
+        for bi in buffer_info.iter() {
+            if bi.grid_kind == ModularGridKind::None || bi.info.size.0 == 0 || bi.info.size.1 == 0 {
+                continue;
+            }
+            let shift = bi.info.shift.unwrap_or((0, 0));
+            let grid_dim = bi.grid_kind.grid_dim(frame_header, shift);
+            if grid_dim.0 == 0 || grid_dim.1 == 0 {
+                return Err(Error::TooManySqueezesForGroupSize);
+            }
+        }
+
         #[cfg(feature = "tracing")]
         for (i, bi) in buffer_info.iter().enumerate() {
             trace!(
-- 
2.43.0


From 8f0104689fcda1c184c323f41d3e23e68574af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 30/34] fix: keep the output profile once frames may have been
 stored in it

---
 jxl/src/api/inner/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index 84ff175..6bb451f 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -70,7 +70,11 @@ impl JxlDecoderInner {
         // TODO(veluca): return an error if we are asking for both planar and
         // interleaved-in-color alpha.
         self.codestream_parser.pixel_format = Some(pixel_format);
-        self.codestream_parser.update_default_output_options();
+        // Reference frames are stored in the output color profile, so it cannot change anymore
+        // once there may be some.
+        if self.codestream_parser.frame_pixel_format.is_none() {
+            self.codestream_parser.update_default_output_options();
+        }
     }
 
     pub fn frame_header(&self) -> Option<JxlFrameHeader> {
-- 
2.43.0


From 36fa7c3c09c5de1081655720797e91a6bb020d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 31/34] fix: panic counting the pixels of a very large frame
 with splines

---
 jxl/src/frame/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 795edad..1219260 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -327,7 +327,9 @@ impl Frame {
 
             if self.header.has_splines() {
                 info!("decoding splines");
-                let s = Splines::read(br, self.header.width * self.header.height)?;
+                // Only compared with a limit far below `u32::MAX`.
+                let num_pixels = self.header.width.saturating_mul(self.header.height);
+                let s = Splines::read(br, num_pixels)?;
                 *self.splines.try_write().unwrap() = s;
             }
 
-- 
2.43.0


From e498ec0c241d77b6b45462a3e3f09521d9fe8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 32/34] fix: abort on frames with more than 2^32 sections

---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 6d620bb..1b612f2 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -165,8 +165,11 @@ impl FrameInfo {
 
     pub fn parse_toc(&mut self, br: &mut BitReader, bits: &mut usize) -> Result<Toc> {
         if self.toc_parser.is_none() {
-            let num_toc_entries = self.frame_header.as_ref().unwrap().num_toc_entries();
-            self.toc_parser = Some(IncrementalTocReader::new(num_toc_entries as u32, br)?);
+            let frame_header = self.frame_header.as_ref().unwrap();
+            let (xs, ys) = frame_header.size();
+            let num_toc_entries = u32::try_from(frame_header.num_toc_entries())
+                .map_err(|_| Error::ImageSizeTooLarge(xs, ys))?;
+            self.toc_parser = Some(IncrementalTocReader::new(num_toc_entries, br)?);
         }
 
         let toc_parser = self.toc_parser.as_mut().unwrap();
-- 
2.43.0


From af78a1fae8fa29efc39bb792f7295b466eb2595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 33/34] fix: panic when VarDCT buffers are reused after a
 failed allocation

---
 jxl/src/frame/group.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/group.rs b/jxl/src/frame/group.rs
index dd3daed..ad733da 100644
--- a/jxl/src/frame/group.rs
+++ b/jxl/src/frame/group.rs
@@ -41,7 +41,8 @@ impl VarDctBuffers {
     }
 
     pub fn ensure_allocated(&mut self) -> Result<()> {
-        if !self.scratch.is_empty() {
+        // coeffs_storage is allocated last: an earlier call may have failed half-way.
+        if !self.coeffs_storage.is_empty() {
             return Ok(());
         }
         self.scratch.try_reserve_exact(LF_BUFFER_SIZE)?;
-- 
2.43.0


From fd73da8515b3ca7cf70092e9d79af11c19633d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 34/34] fix: panic when render buffers are reused after a
 failed allocation

---
 jxl/src/render/low_memory_pipeline/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 82c2a9f..8cd71d8 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -63,7 +63,8 @@ impl LowMemoryRenderPipelinePerThread {
                 row_len.shrc(p.shared.channel_info[0][chan].downsample.0),
             )?);
         }
-        self.row_buffers = vec![initial_buffers];
+        // Only set once complete: if an allocation fails, this is populated from scratch later.
+        let mut row_buffers = vec![initial_buffers];
 
         // Allocate buffers.
         for (i, stage) in p.shared.stages.iter().enumerate() {
@@ -77,7 +78,7 @@ impl LowMemoryRenderPipelinePerThread {
                     row_len.shrc(*dsx),
                 )?);
             }
-            self.row_buffers.push(stage_buffers);
+            row_buffers.push(stage_buffers);
         }
         self.local_states = p
             .shared
@@ -85,6 +86,7 @@ impl LowMemoryRenderPipelinePerThread {
             .iter()
             .map(|x| x.init_local_state())
             .collect::<Result<_>>()?;
+        self.row_buffers = row_buffers;
         Ok(())
     }
 }
-- 
2.43.0

