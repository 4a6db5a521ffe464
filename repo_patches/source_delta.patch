From d58a7643157e77d0e7df077aa26474f878ae2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 1/7] fix: HeaderBuilder accepts only fields that the header
 can represent

Zero channels, layers or chroma scale, block size 1 and a metadata size that is not a
multiple of 4 were accepted although encode subtracts with underflow (or drops bits) and
decode can never return them.
---
 src/header/builder.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..3923669 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,14 +19,22 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        let layers = check_not_zero(self.layers, "Layers")?;
+        let channels = check_not_zero(self.channels, "Channels")?;
+        let chroma_scale = check_not_zero(self.chroma_scale, "Chroma scale")?;
+        if self.metadata_size % 4 != 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Metadata size must be a multiple of 4",
+            )));
+        }
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
         let layer_size = channel_size
-            .checked_mul(self.layers as usize)
+            .checked_mul(layers as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("layer size is too large")))?;
         let image_size = layer_size
-            .checked_mul(self.channels as usize)
+            .checked_mul(channels as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("Image size is too large")))?;
         let _bit_depth_image_size = image_size
             .checked_mul((bit_depth as usize + 7) / 8)
@@ -38,13 +46,13 @@ impl HeaderBuilder {
             version: 1,
             width,
             height,
-            layers: self.layers,
-            channels: self.channels,
+            layers,
+            channels,
             bit_depth,
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
-            chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            chroma_scale,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
@@ -69,3 +77,14 @@ where
         )))
     }
 }
+
+fn check_not_zero<T>(value: T, name: &str) -> Result<T, HeaderErr>
+where
+    T: PartialEq + From<u8>,
+{
+    if value != T::from(0) {
+        Ok(value)
+    } else {
+        Err(HeaderErr::WrongValue(format!("{} must not be zero", name)))
+    }
+}
-- 
2.43.0


From 58e33021cdc5d85b01ae8d658aa7dd4ba2ddfedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 2/7] fix: unsigned_code loses bits of large values

At the largest Golomb-Rice parameter a code is up to 36 bits long, more than put_bits can take at once.
---
 src/encode/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..4edd610 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -17,8 +17,10 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         let new_pot = if pot < 20 { pot + 4 } else { 24 };
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
     } else {
-        // encode x / 2^pot in unary followed by x % 2^pot in binary
-        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
+        // encode x / 2^pot in unary followed by x % 2^pot in binary; the zeros go separately,
+        // because the whole code can be longer than a word
+        stream.put_bits(0, y)?;
+        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), 1 + pot)?;
     }
 
     Ok(())
-- 
2.43.0


From e22b1e519180a7750b28e53e912064079a1df9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 3/7] fix: compress panics when less than one byte per block is
 left in the buffer

chunks_mut(0) panics; report the overflow as for every other buffer that is too small.
---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..f48b43b 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From 8c2032d97ea41f1da71ebfbbecb90657dc9452e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 4/7] fix: colour transform programs with unusable denominators

A decoded denominator that is a multiple of 65536 became 0 in i16 and panicked as a division by
zero, and -1 could overflow; set_denominator asserted on the previous value instead of the new one.
---
 src/color_transform/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..a633d2e 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -1,4 +1,4 @@
-use std::{cmp, io, u8};
+use std::{cmp, i16, io, u8};
 
 use num_traits::cast::NumCast;
 
@@ -56,7 +56,7 @@ impl ChannelTransformBuilder {
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
         assert!(
-            self.denominator > 0,
+            denominator > 0,
             "Denominator should be positive integer"
         );
         self.denominator = denominator;
@@ -228,7 +228,7 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            if denominator <= 0 || denominator > i16::MAX as i32 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From 92fad02c21183a58e380c53aebbd3ffe912da260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 5/7] fix: downsampled decoding of Turbo streams picks the
 wrong run coder

Turbo chooses its run coder from quality * step. The decoder did so with the
downsampled step, so that any stream with a level where the two disagree
(every quality of 512 or more, and most below) decoded to garbage.
---
 src/compress/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index f48b43b..ab2346f 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -367,6 +367,13 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    // the Turbo encoder picked its run coder for the step of the full-size image
+                    let quality = match header.encoder {
+                        header::Encoder::Turbo => {
+                            (i64::from(quality) << downsampling).min(2048) as i32
+                        }
+                        _ => quality,
+                    };
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From 115bbfd72fee79c012eae0399a8a3a343e6b1705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 6/7] fix: context arithmetic overflows in builds with overflow
 checks

An image whose coefficients at one level are all large (for instance a smooth
checkerboard of 8 by 8 cells at quality 1023) panicked there. The release build
and the original wrap around, which the format depends on.
---
 src/encode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index 4edd610..6d27608 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -194,7 +194,8 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        // large coefficients all around exceed 32 bits here; the format wraps
+        sum2.wrapping_mul(16).wrapping_add(count / 2) / count,
     )
 }
 
@@ -390,9 +391,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
-- 
2.43.0


From b115daf2b2823e8e8cdb5bfd279cfed13f5fd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 7/7] fix: colour transforms divide by 2, 4 and 8 unlike the
 format

The original implementation shifts there, i.e. rounds down. Division toward
zero gave other bytes for negative sums and decoded streams of the original
differently (lossless ones with loss).
---
 src/color_transform/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index a633d2e..eab40ad 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -331,7 +331,8 @@ impl ColorTransformProgram {
 
             let layer = channel_layer(channel_transform.dest_channel, channels, channel_size);
             for i in 0..channel_size {
-                aux[dest_base + i] /= channel_transform.denominator as i16;
+                aux[dest_base + i] =
+                    divide(aux[dest_base + i], channel_transform.denominator as i16);
                 aux[dest_base + i] += image[layer + i * channels_in_index].into() * boost;
             }
 
@@ -405,8 +406,8 @@ impl ColorTransformProgram {
             }
 
             for i in 0..channel_size {
-                transform_temp[i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] -= transform_temp[i];
+                aux[dest_base + i] -=
+                    divide(transform_temp[i], channel_transform.denominator as i16);
             }
         }
 
@@ -538,6 +539,16 @@ fn get_layer(channel: usize, channels: usize, channel_size: usize) -> usize {
     (channel / channels) * channel_size * channels + channel % channels
 }
 
+// The format rounds down when the denominator is 2, 4 or 8 and toward zero otherwise.
+fn divide(value: i16, denominator: i16) -> i16 {
+    match denominator {
+        2 => value >> 1,
+        4 => value >> 2,
+        8 => value >> 3,
+        _ => value / denominator,
+    }
+}
+
 fn cut_with_u8<T>(value: T) -> T
 where
     T: cmp::Ord + From<u8>,
-- 
2.43.0

