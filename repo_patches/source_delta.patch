From 48447830ebe5f4651836121d9b07873b4a95c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:49 +0000
Subject: [PATCH 01/26] fix: reading bits past the end after skip_bits returns
 None instead of panicking

---
 ebi/src/io/bit_read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..6120929 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,10 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        // The cursor may lie past the end of the buffer after `skip_bits`.
+        let available_bits = (self.buffer.as_ref().len() * 8)
+            .saturating_sub(self.byte_pos * 8 + self.bit_pos);
+        if available_bits < n as usize {
             return None;
         }
 
-- 
2.43.0


From ee714f7d24f82266cf314246eb2906acb9115f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:53 +0000
Subject: [PATCH 02/26] fix: Elf erases trailing bits only when the decoder can
 restore the exact value

Values such as 8e-25 or 1.260603035e-14 came back different from what was
encoded, and 1e22 overflowed in debug builds.
---
 ebi/src/compression_common/elf.rs   | 18 +++++++++++++++++-
 ebi/src/compressor/elf.rs           |  8 +++++++-
 ebi/src/decoder/chunk_reader/elf.rs | 12 +-----------
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..6611a78 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -44,10 +44,26 @@ pub fn get_alpha_and_beta_star(v: f64, last_beta_star: i32) -> (u32, i32) {
     let (sp, flag) = get_sp_and_10i_n_flag(abs_v);
     let beta = get_significant_count(abs_v, sp, last_beta_star);
     let alpha = (beta - sp - 1) as u32;
-    let beta_star = if flag == 1 { 0 } else { beta };
+    // A value with more than 15 significant digits is not a power of ten, even if its rounded log10 says so.
+    let beta_star = if flag == 1 && beta < 16 { 0 } else { beta };
     (alpha, beta_star)
 }
 
+/// Recovers the original value from the one whose trailing mantissa bits were erased.
+pub fn restore(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        round_up(v_prime, (beta_star - sp - 1) as u32)
+    }
+}
+
 pub fn round_up(v: f64, alpha: u32) -> f64 {
     let scale = get_10i_p(alpha);
     if v < 0.0 {
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..5feb8b3 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -122,7 +122,13 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // Erase only if the decoder gets back the very same value: rounding in the
+            // floating point arithmetic of `restore` may prevent it, e.g., for 8e-25.
+            if beta_star < 16
+                && erase_bits > 4
+                && delta != 0
+                && elf::restore(f64::from_bits(mask & v_bits), beta_star).to_bits() == v_bits
+            {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..dad3927 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,17 +66,7 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
+        let v = compression_common::elf::restore(v_prime, self.last_beta_star);
         Ok(Some(v))
     }
 
-- 
2.43.0


From bcf504540d543c78f36f32c300082712621583a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:28 +0000
Subject: [PATCH 03/26] fix: Elf XOR encoder no longer overflows a shift when
 only the sign bit is set

---
 ebi/src/compressor/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 5feb8b3..12bcb42 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -202,7 +202,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -255,7 +255,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -264,7 +264,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From 96160d881811cf2aab13560c376d6e9deb4f2a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 04/26] fix: XOR compressors count the bits of a partly filled
 last byte once in total_bytes_buffered

---
 ebi/src/compressor/general_xor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/compressor/general_xor.rs b/ebi/src/compressor/general_xor.rs
index c7b79a0..351655c 100644
--- a/ebi/src/compressor/general_xor.rs
+++ b/ebi/src/compressor/general_xor.rs
@@ -148,7 +148,7 @@ impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T> {
 
     fn total_bytes_buffered(&self) -> usize {
         // EOF: f64::NAN + 1 bit
-        let n_bits = self.w.as_slice().len() * 8 + self.encoder.simulate_close();
+        let n_bits = self.w.number_of_bits_written() + self.encoder.simulate_close();
 
         n_bits.next_multiple_of(8) / 8
     }
-- 
2.43.0


From 664ead2bd9b3316054284c8523729370f846c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 05/26] fix: zstd and BUFF compressors reset their state on
 compress, like the others

---
 ebi/src/compressor/buff.rs | 1 +
 ebi/src/compressor/zstd.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 8c62872..08d3ac7 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -45,6 +45,7 @@ impl BUFFCompressor {
 
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
         let precalculated = Precalculated::precalculate(self.scale as usize, data);
         quantization_timer.stop();
diff --git a/ebi/src/compressor/zstd.rs b/ebi/src/compressor/zstd.rs
index aafe28f..4a6f1fa 100644
--- a/ebi/src/compressor/zstd.rs
+++ b/ebi/src/compressor/zstd.rs
@@ -47,6 +47,7 @@ impl From<ZstdCompressorConfig> for ZstdCompressor {
 
 impl Compressor for ZstdCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let bytes =
             unsafe { std::slice::from_raw_parts(input.as_ptr().cast::<u8>(), size_of_val(input)) };
         self.total_bytes_in += bytes.len();
-- 
2.43.0


From 5e6a7b9bbecdcc4070ff8c82b6c6db6972e9cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 06/26] fix: UncompressedCompressor::rewind takes the rewound
 records out of total_bytes_in

---
 ebi/src/compressor/uncompressed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..db0c81d 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -1,4 +1,7 @@
-use std::{mem::size_of_val, slice};
+use std::{
+    mem::{size_of, size_of_val},
+    slice,
+};
 
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
@@ -87,6 +90,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From a37fcbc06a5c937274ceef211ad04ba59daeae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:14 +0000
Subject: [PATCH 07/26] fix: reading the footer of a file without chunks no
 longer panics

---
 ebi/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..abf8b88 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,8 +196,9 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
-        let config_size = buf[0] as usize;
+        let mut config_size = [0u8; 1];
+        input.read_exact(&mut config_size)?;
+        let config_size = config_size[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
 
-- 
2.43.0


From bb23328f9cb4a08c75528572299ca900801cd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:14 +0000
Subject: [PATCH 08/26] fix: the encoder retries an interrupted read instead of
 ending the chunk in the middle of a record

---
 ebi/src/encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..570c073 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,10 +280,8 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                 if n_read == 0 {
                     return Err(e.into());
                 }
-- 
2.43.0


From b6e5ddea194e0e442cc8dde0b98c99073f021b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 09/26] fix: BUFF filter keeps to the bitmask and to the range
 of the chunk

The shortcuts of the equality and comparison filters returned all records
of the chunk even if a bitmask was given, and the equality filter compared
only the low bits of constants above the chunk's range.
---
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 3 +++
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..4e12ec7 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -321,6 +321,9 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
     let all = || {
         let mut all = RoaringBitmap::new();
         all.insert_range(logical_offset..(number_of_records + logical_offset));
+        if let Some(bitmask) = &bitmask {
+            all &= bitmask;
+        }
         all
     };
     let none = RoaringBitmap::new;
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..42b5589 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -96,6 +96,9 @@ pub(crate) fn buff_simd256_equal_filter(
     let all = || {
         let mut all = RoaringBitmap::new();
         all.insert_range(logical_offset..(number_of_records + logical_offset));
+        if let Some(bitmask) = &bitmask {
+            all &= bitmask;
+        }
         all
     };
     let none = RoaringBitmap::new;
@@ -112,6 +115,10 @@ pub(crate) fn buff_simd256_equal_filter(
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    if delta_fixed_pred >> fixed_representation_bits_length != 0 {
+        // No delta of this chunk is that large
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
@@ -196,7 +203,7 @@ pub(crate) fn buff_simd256_equal_filter(
             next_result_bitmask
         }
     } else {
-        result_bitmask.unwrap_or_else(all)
+        result_bitmask.unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 9344315327413aa79f087a936bec58396e9a7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 10/26] fix: BUFF filter with constants that have no fixed
 representation

NaN, infinities and constants of a magnitude beyond the fixed representation
overflowed the shift of the conversion: a panic, or wrong records.
---
 ebi/src/compression_common/buff.rs              |  6 ++++++
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 16 ++++++++++------
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 15 +++++++++------
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..f9a1fb6 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -49,6 +49,12 @@ pub(crate) mod precision_bound {
             into_fixed_representation(v, fractional_part_bits_length)
         }
     }
+
+    /// Returns whether `v` is small enough to be converted to fixed representation (`NaN` is not)
+    #[inline]
+    pub fn has_fixed_representation(v: f64, fractional_part_bits_length: i32) -> bool {
+        v.abs() < 2.0f64.powi(63 - fractional_part_bits_length)
+    }
 }
 
 pub(crate) mod bit_packing {
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index 4e12ec7..304617f 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -313,11 +313,6 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
     let fixed_representation_bits_length = bitpack.read_u32().unwrap();
     let fractional_part_bits_length = bitpack.read_u32().unwrap();
 
-    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
-        pred,
-        fractional_part_bits_length as i32,
-    );
-
     let all = || {
         let mut all = RoaringBitmap::new();
         all.insert_range(logical_offset..(number_of_records + logical_offset));
@@ -327,6 +322,15 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         all
     };
     let none = RoaringBitmap::new;
+    if !precision_bound::has_fixed_representation(pred, fractional_part_bits_length as i32) {
+        // Not a number, or beyond all the values of this chunk
+        let is_all = if IS_GREATER { pred < 0.0 } else { pred > 0.0 };
+        return if is_all { all() } else { none() };
+    }
+    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
+        pred,
+        fractional_part_bits_length as i32,
+    );
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return if IS_GREATER { all() } else { none() };
@@ -341,7 +345,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     {
         let pred_fixed_representation_bits_length = if delta_fixed_pred == 0 {
             0
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index 42b5589..3cd4594 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -88,11 +88,6 @@ pub(crate) fn buff_simd256_equal_filter(
     let fixed_representation_bits_length = bitpack.read_u32().unwrap();
     let fractional_part_bits_length = bitpack.read_u32().unwrap();
 
-    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
-        pred,
-        fractional_part_bits_length as i32,
-    );
-
     let all = || {
         let mut all = RoaringBitmap::new();
         all.insert_range(logical_offset..(number_of_records + logical_offset));
@@ -102,6 +97,14 @@ pub(crate) fn buff_simd256_equal_filter(
         all
     };
     let none = RoaringBitmap::new;
+    if !precision_bound::has_fixed_representation(pred, fractional_part_bits_length as i32) {
+        // Not a number, or beyond all the values of this chunk
+        return none();
+    }
+    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
+        pred,
+        fractional_part_bits_length as i32,
+    );
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return none();
@@ -114,7 +117,7 @@ pub(crate) fn buff_simd256_equal_filter(
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     if delta_fixed_pred >> fixed_representation_bits_length != 0 {
         // No delta of this chunk is that large
         return none();
-- 
2.43.0


From 6f83851e801dd321cc8fda93039bc51c8462bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:20 +0000
Subject: [PATCH 11/26] fix: DeltaSprintz filter compares with the constants as
 given

The constants were rounded to the scale before comparing, so constants
between two steps matched (or missed) records they should not, and NaN
was taken for zero; after decompression the same filter gave other results.
---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..95e82fe 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -114,7 +114,6 @@ impl QueryExecutor for DeltaSprintzReader {
             .read_byte()
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
-        let predicate_encoded = predicate.map(|v| (v * scale as f64).round() as i64);
         let all = || {
             let mut all = roaring::RoaringBitmap::new();
             all.insert_range(
@@ -127,7 +126,7 @@ impl QueryExecutor for DeltaSprintzReader {
         };
 
         if self.number_of_records == 0 {
-            if predicate_encoded.eval(0) {
+            if predicate.eval(0.0) {
                 return Ok(all());
             } else {
                 return Ok(RoaringBitmap::new());
@@ -147,7 +146,7 @@ impl QueryExecutor for DeltaSprintzReader {
             let quantized = previous_value_quantized + delta;
             previous_value_quantized = quantized;
 
-            if predicate_encoded.eval(quantized) {
+            if predicate.eval(quantized as f64 / scale as f64) {
                 let record_offset = logical_offset as u32 + i as u32;
                 bm.insert(record_offset);
             }
-- 
2.43.0


From 1bdcf8b05d245c61d852e3dfa005564fcc4bac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:37 +0000
Subject: [PATCH 12/26] fix: BUFF sum of a chunk of equal values keeps to the
 bitmask

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..49e107f 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -77,10 +77,16 @@ pub(super) fn sum_with_bitmask(
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
+    let accumulated_len = if let Some(bitmask) = bitmask {
+        bitmask.len() as i64
+    } else {
+        number_of_records as i64
+    };
+
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
@@ -108,11 +114,6 @@ pub(super) fn sum_with_bitmask(
         sum += subcolumn_sum;
     }
 
-    let accumulated_len = if let Some(bitmask) = bitmask {
-        bitmask.len() as i64
-    } else {
-        number_of_records as i64
-    };
     let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
 
     Ok(sum)
-- 
2.43.0


From 37007721c2b0ef0ca7ef75cfecef704c778fb8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 13/26] fix: iterating over a chunk starts at its first record,
 also after another operation

---
 ebi/src/decoder/chunk_reader/chimp_n.rs      |  1 +
 ebi/src/decoder/chunk_reader/general_xor.rs  |  1 +
 ebi/src/decoder/chunk_reader/run_length.rs   | 16 +++++++++++++---
 ebi/src/decoder/chunk_reader/sprintz.rs      |  1 +
 ebi/src/decoder/chunk_reader/uncompressed.rs |  8 +++++---
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..22de353 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..f9b99c3 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,15 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> RunLengthReaderImpl<R> {
+    fn seek_to_first_field(&mut self) -> io::Result<()> {
+        self.reader
+            .seek(SeekFrom::Start(size_of::<RunLengthHeader>() as u64))?;
+        Ok(())
+    }
+}
+
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -73,6 +81,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
+        self.seek_to_first_field()?;
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
             self.reader.read_exact(&mut buf)?;
@@ -99,6 +108,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.seek_to_first_field()?;
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +167,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 95e82fe..6c443c9 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -58,6 +58,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..01731ff 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +80,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader.rewind()?;
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +125,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From e4a7d12e11b603c8c2e8352ee8768fc7bc1d58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:34 +0000
Subject: [PATCH 14/26] fix: DeltaSprintz min of an already decompressed chunk
 returned the max

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 6c443c9..0efdbf3 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -210,7 +211,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From 54647c80c1a1923dbe9584363b5b17c08c852b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:34 +0000
Subject: [PATCH 15/26] fix: DeltaSprintz sum over a bitmask without a record
 of the chunk is 0, not NaN

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 0efdbf3..9f18082 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -289,7 +289,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 3d44196f6195bb50190b50d2f599b12b73e97933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:30 +0000
Subject: [PATCH 16/26] fix: knn1 with vectors that span chunks, and with an
 empty target

---
 ebi/src/api/decoder.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..85c02a0 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,9 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
@@ -494,18 +497,23 @@ impl<R: Read + Seek> Decoder<R> {
 
             if remaining_records != 0 {
                 // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
+                // The vector may span more than two chunks.
                 let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
+                processing_vector.distance += chunk_reader.distance_squared(
+                    0,
+                    &target[remaining_target_start..remaining_target_start + n_records_in_vector],
+                )?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                remaining_records -= n_records_in_vector;
+                offset += n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance <= min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From f6e284307d28dcbae5c5feb5e84c4b3d46bd740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:13 +0000
Subject: [PATCH 17/26] fix: matmul with rows and matrices that span chunks,
 empty files, and shapes that do not fit

---
 ebi/src/api/decoder.rs | 64 +++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 85c02a0..7dc65f5 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -624,39 +624,51 @@ impl<R: Read + Seek> Decoder<R> {
         let (data_rows, data_columns) = data_matrix_shape;
 
         let is_matrix_shape_invalid = data_columns != target_rows;
+        let data_matrix_size = data_rows * data_columns;
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % (data_rows * data_columns) != 0;
-        if is_matrix_shape_invalid || is_data_matrix_shape_aligned_to_number_of_records_invalid {
+            data_matrix_size == 0 || number_of_records % data_matrix_size != 0;
+        let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
+        if is_matrix_shape_invalid
+            || is_data_matrix_shape_aligned_to_number_of_records_invalid
+            || is_target_matrix_shape_invalid
+        {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
 
-        let batch_size = number_of_records / (data_rows * data_columns);
-
-        let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
-
-        let mut offset_in_chunk = 0;
-        let mut chunk_index = 0;
-        let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-
-        for _ in 0..batch_size {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-            }
-            for row_index in 0..data_rows {
-                for target_column in target_matrix.chunks_exact(target_rows) {
-                    let result = chunk_reader
-                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;
-
-                    result_matrices.push(result);
+        let number_of_rows = number_of_records / data_columns;
+
+        let mut result_matrices = vec![0.0; number_of_rows * target_columns];
+
+        // Rows may span chunks: each chunk adds the part of the dot products that it holds.
+        let mut row_index = 0;
+        let mut offset_in_row = 0;
+        for chunk_id in (0..self.chunk_handles.len()).map(ChunkId::new) {
+            let mut chunk_reader = self.chunk_reader(chunk_id)?;
+            let chunk_number_of_records = chunk_reader.number_of_records() as usize;
+
+            let mut offset_in_chunk = 0;
+            while offset_in_chunk < chunk_number_of_records {
+                let n =
+                    (data_columns - offset_in_row).min(chunk_number_of_records - offset_in_chunk);
+                let result_row = &mut result_matrices[row_index * target_columns..];
+                for (result, target_column) in result_row
+                    .iter_mut()
+                    .zip(target_matrix.chunks_exact(target_rows))
+                {
+                    *result += chunk_reader.dot_product(
+                        offset_in_chunk,
+                        &target_column[offset_in_row..offset_in_row + n],
+                    )?;
+                }
+                offset_in_chunk += n;
+                offset_in_row += n;
+                if offset_in_row == data_columns {
+                    offset_in_row = 0;
+                    row_index += 1;
                 }
             }
-            offset_in_chunk += data_rows * data_columns;
+            timer += chunk_reader.segmented_execution_times();
         }
-        debug_assert!(chunk_reader.is_last_chunk());
-        timer += chunk_reader.segmented_execution_times();
 
         self.timer = timer;
 
-- 
2.43.0


From 3dafff187b8f24276c95201b96f7a07cb3cec858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:44 +0000
Subject: [PATCH 18/26] fix: aggregation kind none over a single column returns
 the column instead of panicking

---
 ebi/src/api/decoder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 7dc65f5..1359b30 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -835,7 +835,16 @@ impl AggregationKind {
         bitmask: Option<&RoaringBitmap>,
     ) -> decoder::Result<AggregationResult> {
         Ok(match self {
-            AggregationKind::None => todo!(),
+            AggregationKind::None => {
+                let mut output = DecoderOutput::from_vec(Vec::new());
+                decoder.materialize(&mut output, bitmask, None)?;
+                let bytes = output.into_writer().into_inner();
+                bytes
+                    .chunks_exact(std::mem::size_of::<f64>())
+                    .map(|b| f64::from_ne_bytes(b.try_into().unwrap()))
+                    .collect::<Vec<_>>()
+                    .into()
+            }
             AggregationKind::Max => decoder.max(bitmask, None)?.into(),
             AggregationKind::Min => decoder.min(bitmask, None)?.into(),
             AggregationKind::Sum => decoder.sum(bitmask, None)?.into(),
-- 
2.43.0


From db3e345929f496f7a68c580c9ff27433879f7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 19/26] fix: opening an unfinished or damaged file returns an
 error instead of panicking or reading the header as a footer

---
 ebi/src/decoder.rs            | 32 ++++++++++++++++++++++++++------
 ebi/src/format/deserialize.rs |  4 ++++
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index abf8b88..4e9da60 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -16,7 +16,7 @@ use std::{
 use crate::{
     compressor::CompressorConfig,
     format::{
-        deserialize::{FromLeBytes, TryFromLeBytes},
+        deserialize::{ConversionError, FromLeBytes, TryFromLeBytes},
         native::{NativeChunkFooter, NativeFileFooter, NativeFileHeader},
         ChunkFooter, FileFooter0, FileFooter3, FileHeader,
     },
@@ -137,6 +137,9 @@ impl FileReader {
         let mut buf = [0u8; size_of::<FileHeader>()];
         input.read_exact(&mut buf)?;
         let header = FileHeader::try_from_le_bytes(&buf)?;
+        if header.magic_number != *b"EBI1" {
+            return Err(ConversionError::FileHeader.into());
+        }
 
         self.header = Some(NativeFileHeader::from(&header));
 
@@ -159,6 +162,10 @@ impl FileReader {
             .header()
             .ok_or(DecoderError::PreconditionsNotMet)?
             .footer_offset();
+        // The footer offset is written last, so that it is 0 in an unfinished file.
+        if footer_offset < size_of::<FileHeader>() as u64 {
+            return Err(ConversionError::FileHeader.into());
+        }
         input.seek(io::SeekFrom::Start(footer_offset))?;
         Ok(())
     }
@@ -186,10 +193,19 @@ impl FileReader {
         let footer0 = FileFooter0::from_le_bytes(&buf);
         let n_chunks = footer0.number_of_chunks as usize;
 
-        let chunk_footers_size = size_of::<ChunkFooter>() * n_chunks;
-
-        buf.resize(chunk_footers_size, 0);
-        input.read_exact(&mut buf[..])?;
+        let chunk_footers_size = n_chunks
+            .checked_mul(size_of::<ChunkFooter>())
+            .ok_or(ConversionError::FileFooter)?;
+
+        // `n_chunks` may be damaged: do not allocate more than the file holds.
+        buf.clear();
+        input
+            .by_ref()
+            .take(chunk_footers_size as u64)
+            .read_to_end(&mut buf)?;
+        if buf.len() != chunk_footers_size {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
 
         let chunk_footers = buf[..]
             .chunks_exact(size_of::<ChunkFooter>())
@@ -199,11 +215,15 @@ impl FileReader {
         let mut config_size = [0u8; 1];
         input.read_exact(&mut config_size)?;
         let config_size = config_size[0] as usize;
-        buf.resize(config_size, 0);
+        buf.clear();
+        buf.resize(u8::MAX as usize, 0);
         input.read_exact(&mut buf[..config_size])?;
 
         let compressor_config =
             CompressorConfig::from_le_bytes(header.config().compression_scheme(), &buf[..]);
+        if compressor_config.serialized_size() != 1 + config_size {
+            return Err(ConversionError::FileFooter.into());
+        }
 
         let footer3_size = size_of::<FileFooter3>();
 
diff --git a/ebi/src/format/deserialize.rs b/ebi/src/format/deserialize.rs
index 5554dd5..f2433e4 100644
--- a/ebi/src/format/deserialize.rs
+++ b/ebi/src/format/deserialize.rs
@@ -105,6 +105,10 @@ pub enum ConversionError {
     FieldType,
     #[error("Failed to convert CompressionScheme")]
     CompressionScheme,
+    #[error("Failed to convert FileHeader: not an EBI file, or an unfinished one")]
+    FileHeader,
+    #[error("Failed to convert FileFooter")]
+    FileFooter,
 }
 
 impl<T: FromLeBytes + Sized> TryFromLeBytes for T {
-- 
2.43.0


From 4ea7ee51814ae8b17f4dbf77896f3f10fbdacdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:40 +0000
Subject: [PATCH 20/26] fix: a timer set to stop on drop counted its time twice
 when stopped

---
 ebi/src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index e3a034e..1fb3941 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -51,6 +51,7 @@ pub struct SegmentTimer<'a, T: KindIndexable, const N: usize> {
 
 impl<T: KindIndexable, const N: usize> SegmentTimer<'_, T, N> {
     pub fn stop(mut self) {
+        self.stop_on_drop = false;
         self.stop_without_drop();
     }
 
-- 
2.43.0


From 8282714c2c097460976efbc98cc17ffdf7796897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:06 +0000
Subject: [PATCH 21/26] fix: an I/O error while reading a BUFF or Chimp128
 chunk is returned instead of panicking

---
 ebi/src/decoder/chunk_reader.rs         |  4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 13 ++++++++-----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 10 +++++-----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..4c23d0b 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..302f86d 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -7,7 +7,10 @@ mod min_max;
 mod sum;
 
 use core::slice;
-use std::{io::Read, iter};
+use std::{
+    io::{self, Read},
+    iter,
+};
 
 use roaring::RoaringBitmap;
 
@@ -37,20 +40,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> io::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 22de353..b25e80f 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -1,4 +1,4 @@
-use std::io::Read;
+use std::io::{self, Read};
 
 use crate::{
     decoder::{
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> io::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 53a9d072452677923bfd180413e7ae6a5b06e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:56 +0000
Subject: [PATCH 22/26] fix: csv2bin reports a failing write of the last
 buffered numbers

---
 tools/src/csv2bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/csv2bin.rs b/tools/src/csv2bin.rs
index ae1a61b..7b79f0f 100644
--- a/tools/src/csv2bin.rs
+++ b/tools/src/csv2bin.rs
@@ -102,7 +102,7 @@ fn process_file(path: &Path) -> Result<()> {
             }
         }
 
-        Ok(())
+        writer.flush().context("Failed to write to output file")
     };
 
     match process() {
-- 
2.43.0


From b9848dbaef34dfee2b5cc96038c31002b136a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:14 +0000
Subject: [PATCH 23/26] fix: h01 gives its averages, and their names, in the
 order of the query

---
 experimenter/src/tpch.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/tpch.rs b/experimenter/src/tpch.rs
index fd2d683..379e476 100644
--- a/experimenter/src/tpch.rs
+++ b/experimenter/src/tpch.rs
@@ -308,9 +308,8 @@ pub fn process_h01(path: impl AsRef<Path>) -> anyhow::Result<HashMap<String, Tpc
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
-        // swap the order of the result for the consistency with SQL
-        result.swap(4, 6);
-        query_names.swap(4 - 3, 6 - 3);
+        // move AVG(l_discount) behind the other averages for the consistency with SQL
+        result[4..=6].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01".to_string(),
-- 
2.43.0


From 02dcdf90de8cac552835f5abbaf2dd743e400444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:14 +0000
Subject: [PATCH 24/26] fix: decimal places of numbers with an upper-case
 exponent

---
 experimenter/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 844c315..1d01705 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -365,7 +365,7 @@ pub enum Output {
 /// assert_eq!(get_decimal_precision("-99"), 0);
 /// ```
 pub fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
 
-- 
2.43.0


From 07793fd69ef3531fc3184fa14ffe01a6f6737d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:14 +0000
Subject: [PATCH 25/26] fix: collect-stats counts the decimal places of numbers
 with an upper-case exponent

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 1235453..35d6b43 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
         if let Some(dot_pos) = base.find('.') {
-- 
2.43.0


From 7825e15215520061fc8f755aef58e450d6c39d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:14 +0000
Subject: [PATCH 26/26] fix: collect-stats overflowed when averaging the
 exponents of millions of values

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 35d6b43..9cb6f13 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -296,7 +296,7 @@ fn mean_i32(values: &[i32]) -> f64 {
     if values.is_empty() {
         0.0
     } else {
-        let sum: i32 = values.iter().sum();
+        let sum: i64 = values.iter().map(|&v| i64::from(v)).sum();
         sum as f64 / values.len() as f64
     }
 }
-- 
2.43.0

