From 14e5bde0dce45446cbbd8d0e0fdf3a37ee60e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 01/31] fix: EAC R11/RG11 index bits are stored big-endian

---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..b10a5f7 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
-- 
2.43.0


From cbb42b99d418fac1cbfef70738594e9fd5414eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 02/31] fix: ATC second color of the black-entry mode is max(0,
 c0 - c1/4)

---
 src/atc.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..3f3ac4f 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -2,7 +2,6 @@
 use crate::bcn::bc3::decode_bc3_alpha;
 use crate::color::color;
 use crate::macros::block_decoder;
-use core::cmp::max;
 use core::result::Result;
 
 #[inline]
@@ -58,18 +57,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = colors[8].saturating_sub(colors[12] / 4);
+        colors[5] = colors[9].saturating_sub(colors[13] / 4);
+        colors[6] = colors[10].saturating_sub(colors[14] / 4);
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 197086077e5e8ea4ca26541c48ff7e8a97c86fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 03/31] fix: BC2 and BC3 color blocks always have four colors

---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..b46ab80 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_color: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if four_color || q0 > q1 {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+/// The color half of a BC2 or BC3 block, which has four colors whatever the endpoint order.
+#[inline]
+pub fn decode_bc1_four_color_block(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true)
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..0c17213 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_four_color_block;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_four_color_block(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..5e78978 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_four_color_block;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_four_color_block(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From 8d736465afb1d91f60e92188202638e093e4401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 04/31] fix: BC6H reserved modes decode to opaque black

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..0888375 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -350,7 +350,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         mode |= (bit.read(3) << 2) as u8;
 
         if 0 == S_BC6H_MODE_INFO[mode as usize].endpoint_bits {
-            outbuf[0..16].fill(0);
+            outbuf[0..16].fill(color(0, 0, 0, 255));
             return;
         }
 
-- 
2.43.0


From b8844e88ac94365cb55f7269c5ac34fb25b3ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 05/31] fix: BC6H endpoint mask of the 16-bit mode

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 0888375..03dae88 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = u16::MAX >> (16 - mi.endpoint_bits);
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From fc4caa4850feffaa8ddd3db0d610a585da177bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 06/31] fix: BC6H unsigned unquantization saturates at the
 largest endpoint

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 03dae88..5e763eb 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -304,7 +304,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value == u16::MAX >> (16 - _endpoint_bits) {
         return u16::MAX;
     }
 
-- 
2.43.0


From 2723d26bb716c955da9f7671d984457b3b444c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 07/31] fix: BC6H signed endpoints are unquantized and
 interpolated as signed values

---
 src/bcn/bc6.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 5e763eb..42711a1 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -281,7 +281,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         }
 
         let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        let _value = (_value as i16).unsigned_abs();
 
         let unq: u16;
 
@@ -293,7 +293,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
             unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
         }
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if sign { unq.wrapping_neg() } else { unq };
     }
 
     if _endpoint_bits >= 15 {
@@ -311,12 +311,16 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
     ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16
 }
 
-fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
+/// Interpolates two unquantized endpoints and returns the half float's bits.
+fn finish_unquantize(_ep: &[u16], _fca: u32, _fcb: u32, _signed: bool) -> u16 {
     if _signed {
-        let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        let ep = [_ep[0] as i16 as i32, _ep[1] as i16 as i32];
+        let value = (ep[0] * _fca as i32 + ep[1] * _fcb as i32 + 32) >> 6;
+        let sign: u16 = if value < 0 { 0x8000 } else { 0 };
+        ((value.unsigned_abs() * 31) >> 5) as u16 | sign
     } else {
-        ((_value as u32 * 31) >> 6) as u16
+        let value = (_ep[0] as u32 * _fca + _ep[1] as u32 * _fcb + 32) >> 6;
+        ((value * 31) >> 6) as u16
     }
 }
 
@@ -728,21 +732,9 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let fcb = fc;
 
             subset_index *= 2;
-            let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
-                signed,
-            );
-            let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
-                signed,
-            );
-            let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
-                signed,
-            );
+            let rr = finish_unquantize(&ep_r[subset_index..], fca, fcb, signed);
+            let gg = finish_unquantize(&ep_g[subset_index..], fca, fcb, signed);
+            let bb = finish_unquantize(&ep_b[subset_index..], fca, fcb, signed);
 
             outbuf[idx] = color(f16_to_u8(rr), f16_to_u8(gg), f16_to_u8(bb), 255);
         });
-- 
2.43.0


From 7f83138d60d3d16254cf75dd9b6a862d1a3ecf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 08/31] fix: ASTC illegal encodings decode to the error color
 instead of panicking

---
 src/astc.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..29eee31 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+/// Returns false for the illegal encodings that decode to the error color.
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.part_num == 4 && block_data.dual_plane)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,15 +669,20 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
+    let remain_bits = 128_usize.saturating_sub(config_bits + weight_bits as usize);
 
     block_data.endpoint_value_num = 0;
 
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
 
+    if block_data.endpoint_value_num > 18 {
+        return false;
+    }
+
     let mut endpoint_bits: usize;
-    for i in 0..CEM_TABLE_A.len() {
+    // the last two ranges have fewer than the six levels endpoints need
+    for i in 0..CEM_TABLE_A.len() - 2 {
         match CEM_TABLE_A[i] {
             3 => {
                 endpoint_bits = block_data.endpoint_value_num * CEM_TABLE_B[i]
@@ -683,9 +698,10 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         }
         if endpoint_bits <= remain_bits {
             block_data.cem_range = i;
-            break;
+            return true;
         }
     }
+    false
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1777,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From baa95fc2f7d1313c1e1a78ade30321e7f03a3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 09/31] fix: ASTC HDR RGB direct mode sign-extends its d0 and
 d1 fields

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 29eee31..c87a092 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -860,31 +860,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 -= 0x80;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 -= 0x80;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 -= 0x40;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 -= 0x40;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 -= 0x20;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 -= 0x20;
             }
         }
     }
-- 
2.43.0


From b6e0d1ecf46db07ccf6e064a9d7fc8a7061a7ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 10/31] fix: ASTC void-extent HDR constants clamp before
 rounding

---
 src/astc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index c87a092..7160426 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -244,7 +244,7 @@ fn select_color_hdr(v0: i32, v1: i32, weight: i32) -> u8 {
 
 #[inline]
 fn f32_to_u8(f: f32) -> u8 {
-    floor(f * 255.0).clamp(0.0, 255.0) as u8
+    floor((f * 255.0).clamp(0.0, 255.0)) as u8
 }
 
 #[inline]
-- 
2.43.0


From 411feb6acf8448f89cef5a3ba9f735acac0a3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 11/31] fix: ASTC rejects unusable block sizes before dividing
 by them

---
 src/astc.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 7160426..37ca0e7 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1798,6 +1798,14 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width < 2 || block_height < 2 {
+        return Err("Block size is too small!");
+    }
+
+    if block_width.saturating_mul(block_height) > 144 {
+        return Err("Block size is too big!");
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
@@ -1812,10 +1820,6 @@ pub fn decode_astc(
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
-        return Err("Block size is too big!");
-    }
-
     (0..num_blocks_y).for_each(|by| {
         (0..num_blocks_x).for_each(|bx| {
             decode_astc_block(&data[data_offset..], block_width, block_height, &mut buffer);
-- 
2.43.0


From 37b53d45cf72d692284118c3c2f0da5e4b2ba767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 12/31] fix: image sizes that overflow are rejected, not
 wrapped

---
 src/astc.rs   |  4 ++--
 src/macros.rs |  4 ++--
 src/pvrtc.rs  | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 37ca0e7..0daaaf6 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1811,11 +1811,11 @@ pub fn decode_astc(
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul(16) {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
+    let expected_image_size = width.saturating_mul(height);
     if image.len() < expected_image_size {
         return Err("Image buffer is too small!");
     }
diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..d93c0c8 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -11,11 +11,11 @@ macro_rules! block_decoder{
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul($raw_block_size) {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                if image.len() < width.saturating_mul(height) {
                     return Err("Image buffer is too small!");
                 }
 
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..06cf287 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -382,13 +382,13 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks.saturating_mul(block_width) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
@@ -461,17 +461,17 @@ pub fn decode_pvrtc(
     let bw: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
     let num_blocks_y: usize = (h + 3) / 4;
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
     } else {
         num_blocks_y
     };
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks.saturating_mul(block_width) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
-- 
2.43.0


From 7560c589c447139c1f02325001d88927c326a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 13/31] fix: PVRTC 4bpp needs eight bytes per block

---
 src/pvrtc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 06cf287..c4293cb 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -385,7 +385,7 @@ pub fn decode_pvrtc(
     let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks.saturating_mul(block_width) {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
     if image.len() < width.saturating_mul(height) {
@@ -468,7 +468,7 @@ pub fn decode_pvrtc(
         num_blocks_y
     };
 
-    if data.len() < num_blocks.saturating_mul(block_width) {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
     if image.len() < width.saturating_mul(height) {
-- 
2.43.0


From dd0f8367d696c1b23fd81218f34f281c1cdbabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 14/31] fix: PVRTC images without pixels do not underflow

---
 src/pvrtc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index c4293cb..0cece63 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -391,6 +391,9 @@ pub fn decode_pvrtc(
     if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
+    if num_blocks == 0 {
+        return Ok(());
+    }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
     }
@@ -474,6 +477,9 @@ pub fn decode_pvrtc(
     if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
+    if num_blocks == 0 {
+        return Ok(());
+    }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
     }
-- 
2.43.0


From 81c19ca469093c1f80017be97e9e25c92aa70553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 15/31] fix: the crate builds without the alloc feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 13 +++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 0cece63..66ddf9c 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -456,14 +456,14 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
     let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
@@ -526,9 +526,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From b7f14fa184a5669756a60cde4a0ca407e34c0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 16/31] fix: Python decode_astc returns the image and raises
 ValueError on errors

---
 bindings/python/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index e09336c..de280ef 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -139,7 +139,6 @@ pub fn decode_astc<'a>(
             block_height,
             image_u32,
         )
-        .unwrap_err();
-        Ok(())
+        .map_err(|e| PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
     })
 }
-- 
2.43.0


From 0e869a3906c32fd8684bcc022eb0f6e079b436b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 17/31] fix: Python bindings pass the decoders a pixel slice of
 the real length

---
 bindings/python/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de280ef..312a75b 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,13 +56,18 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+fn as_u32(image: &mut [u8]) -> &mut [u32] {
+    // the data of a bytes object is aligned for u32
+    unsafe { std::slice::from_raw_parts_mut(image.as_mut_ptr() as *mut u32, image.len() / 4) }
+}
+
 macro_rules! pybind {
     ($name:expr) => {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
                 PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
-                    let image_u32 = unsafe { std::mem::transmute(image) };
+                    let image_u32 = as_u32(image);
                     match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
                         Ok(_) => {}
                         Err(e) => return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
@@ -130,7 +135,7 @@ pub fn decode_astc<'a>(
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
     PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
-        let image_u32 = unsafe { std::mem::transmute(image) };
+        let image_u32 = as_u32(image);
         texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
-- 
2.43.0


From 3f18b555729bb265296cc437835649a19564683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 18/31] fix: Python bindings raise ValueError for image sizes
 that overflow

---
 bindings/python/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 312a75b..b80c489 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,6 +56,14 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+fn image_size(width: usize, height: usize) -> PyResult<usize> {
+    width
+        .checked_mul(height)
+        .and_then(|n| n.checked_mul(4))
+        .filter(|n| isize::try_from(*n).is_ok())
+        .ok_or_else(|| PyErr::new::<pyo3::exceptions::PyValueError, _>("Image size is too large!"))
+}
+
 fn as_u32(image: &mut [u8]) -> &mut [u32] {
     // the data of a bytes object is aligned for u32
     unsafe { std::slice::from_raw_parts_mut(image.as_mut_ptr() as *mut u32, image.len() / 4) }
@@ -66,7 +74,7 @@ macro_rules! pybind {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
-                PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
+                PyBytes::new_with(py, image_size(width, height)?, |image: & mut[u8]|{
                     let image_u32 = as_u32(image);
                     match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
                         Ok(_) => {}
@@ -134,7 +142,7 @@ pub fn decode_astc<'a>(
     block_width: usize,
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
-    PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
+    PyBytes::new_with(py, image_size(width, height)?, |image: &mut [u8]| {
         let image_u32 = as_u32(image);
         texture2ddecoder::decode_astc(
             data.as_bytes(),
-- 
2.43.0


From 967ff37d49ff0a57d7de5b03bb933642fa7eec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 19/31] fix: crunch sections end where their size says, and
 read zeros after that

---
 src/crunch/crn_symbol_codec.rs | 54 ++++++++++++----------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66edf4d..66f9618 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -6,7 +6,6 @@ use super::crn_utils::*;
 pub struct symbol_codec<'slice> {
     pub p_decode_buf: &'slice [u8],
     pub p_decode_buf_next: &'slice [u8],
-    pub p_decode_buf_end: *const u8,
     pub decode_buf_size: u32,
     pub bit_buf: u32,
     pub bit_count: i32,
@@ -17,7 +16,6 @@ impl Default for symbol_codec<'_> {
         symbol_codec {
             p_decode_buf: &[0; 0],
             p_decode_buf_next: &[0; 0],
-            p_decode_buf_end: core::ptr::null(),
             decode_buf_size: 0,
             bit_buf: 0,
             bit_count: 0,
@@ -27,13 +25,13 @@ impl Default for symbol_codec<'_> {
 
 impl<'slice> symbol_codec<'slice> {
     pub fn start_decoding(&mut self, p_buf: &'slice [u8], buf_size: u32) -> bool {
-        if buf_size == 0 {
+        if buf_size == 0 || buf_size as usize > p_buf.len() {
             return false;
         }
+        let p_buf = &p_buf[..buf_size as usize];
         self.p_decode_buf = p_buf;
         self.p_decode_buf_next = p_buf;
         self.decode_buf_size = buf_size;
-        self.p_decode_buf_end = (&p_buf[(buf_size - 1) as usize]) as *const u8;
         self.get_bits_init();
         true
     }
@@ -175,35 +173,13 @@ impl<'slice> symbol_codec<'slice> {
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-                let mut c0: u32 = 0;
-                let mut c1: u32 = 0;
-                let mut p = self.p_decode_buf_next;
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c0 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c1 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                self.p_decode_buf_next = p;
+                let c0: u32 = self.next_byte();
+                let c1: u32 = self.next_byte();
                 self.bit_count += 16;
                 let c: u32 = (c0 << 8) | c1;
                 self.bit_buf |= c << (32 - self.bit_count);
             } else {
-                let c: u32;
-                if (&(self.p_decode_buf_next[0]) as *const u8) <= self.p_decode_buf_end {
-                    c = self.p_decode_buf_next[0] as u32;
-                    if (&(self.p_decode_buf_next[0]) as *const u8) < self.p_decode_buf_end {
-                        self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                    }
-                } else {
-                    c = 0
-                };
+                let c: u32 = self.next_byte();
                 self.bit_count += 8;
                 self.bit_buf |= c << (32 - self.bit_count);
             }
@@ -248,18 +224,24 @@ impl<'slice> symbol_codec<'slice> {
         self.bit_count = 0;
     }
 
+    // Past the end of the section the stream continues with zeros.
+    #[inline]
+    fn next_byte(&mut self) -> u32 {
+        match self.p_decode_buf_next.split_first() {
+            Some((&c, rest)) => {
+                self.p_decode_buf_next = rest;
+                c as u32
+            }
+            None => 0,
+        }
+    }
+
     fn get_bits(&mut self, num_bits: u32) -> Result<u32, bool> {
         if num_bits > 32 {
             return Err(false);
         }
         while self.bit_count < num_bits as i32 {
-            let mut c: u32 = 0;
-            if self.p_decode_buf_next[0] as *const u8 <= self.p_decode_buf_end {
-                c = self.p_decode_buf_next[0] as u32;
-                if (self.p_decode_buf_next[0] as *const u8) < self.p_decode_buf_end {
-                    self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                }
-            }
+            let c: u32 = self.next_byte();
             self.bit_count += 8;
             if self.bit_count > BIT_BUF_SIZE as i32 {
                 return Err(false);
-- 
2.43.0


From a0b1f239cf99a949f4d0380094af0e2cc28f90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 20/31] fix: crunch offsets and level counts outside the data
 are rejected

---
 src/crunch/crn_decomp.rs        |  5 ++++-
 src/crunch/crn_unpacker.rs      | 27 +++++++++++++++++++------
 src/unitycrunch/crn_unpacker.rs | 35 +++++++++++++++++++++++++--------
 3 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/crunch/crn_decomp.rs b/src/crunch/crn_decomp.rs
index ed5649a..f39bb00 100644
--- a/src/crunch/crn_decomp.rs
+++ b/src/crunch/crn_decomp.rs
@@ -120,7 +120,7 @@ impl CrnHeader {
     pub const MIN_SIZE: u32 = 74;
 
     pub fn crnd_get_header(&mut self, p_data: &[u8], data_size: u32) -> bool {
-        if data_size < CrnHeader::MIN_SIZE {
+        if data_size < CrnHeader::MIN_SIZE || p_data.len() < data_size as usize {
             return false;
         }
         *self = CrnHeader::default();
@@ -145,6 +145,9 @@ impl CrnHeader {
         self.tables_size.assign_from_buffer(&p_data[65..]);
         self.tables_ofs.assign_from_buffer(&p_data[67..]);
         self.level_ofs = alloc::vec![];
+        if (data_size - 70) / 4 < self.levels.cast_to_uint() {
+            return false;
+        }
         for i in 0..self.levels.cast_to_uint() as usize {
             self.level_ofs.push(CrnPackedUint { buf: [0, 0, 0, 0] });
             self.level_ofs[i].assign_from_buffer(&p_data[70 + (i * 4)..]);
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..a20e9a5 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -64,7 +64,9 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.tables_ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -139,7 +141,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.color_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +195,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            self.p_data
+                .get(self.p_header.color_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -273,7 +279,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +318,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -390,6 +400,9 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
+        if level_index >= self.p_header.levels.cast_to_uint() {
+            return Err("Crunch texture does not have this level.");
+        }
         let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
@@ -399,7 +412,9 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            self.p_data
+                .get(cur_level_ofs as usize..)
+                .unwrap_or_default(),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..2d990de 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -71,7 +71,9 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.tables_ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -164,7 +166,9 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.color_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -239,7 +243,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            self.p_data
+                .get(self.p_header.color_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -299,7 +305,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -332,7 +340,9 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -383,7 +393,9 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -457,7 +469,9 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -527,6 +541,9 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
+        if level_index >= self.p_header.levels.cast_to_uint() {
+            return Err("Crunch texture does not have this level.");
+        }
         let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
@@ -536,7 +553,9 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            self.p_data
+                .get(cur_level_ofs as usize..)
+                .unwrap_or_default(),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
-- 
2.43.0


From a03cbec5a820d628577a6e447f2feeda70ee37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 21/31] fix: crunch streams decoded with an empty Huffman model
 are rejected

---
 src/crunch/crn_static_huffman_data_model.rs | 5 +++++
 src/crunch/crn_symbol_codec.rs              | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/crunch/crn_static_huffman_data_model.rs b/src/crunch/crn_static_huffman_data_model.rs
index eb7f05d..bc5dfa0 100644
--- a/src/crunch/crn_static_huffman_data_model.rs
+++ b/src/crunch/crn_static_huffman_data_model.rs
@@ -70,6 +70,11 @@ impl DecoderTables {
             cur_code <<= 1;
         }
 
+        // without codes there is nothing to decode
+        if total_used_syms == 0 {
+            return false;
+        }
+
         self.total_used_syms = total_used_syms;
         if total_used_syms > self.cur_sorted_symbol_order_size {
             self.cur_sorted_symbol_order_size = total_used_syms;
diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66f9618..47e9ba4 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -171,6 +171,10 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn decode(&mut self, model: &StaticHuffmanDataModel) -> Result<u32, bool> {
         let p_tables = &model.p_decode_tables;
+        // a model that was never received
+        if model.total_syms == 0 {
+            return Err(false);
+        }
         if self.bit_count < 24 {
             if self.bit_count < 16 {
                 let c0: u32 = self.next_byte();
@@ -210,7 +214,10 @@ impl<'slice> symbol_codec<'slice> {
             if (val_ptr as u32) >= model.total_syms {
                 return Err(false);
             }
-            sym = p_tables.sorted_symbol_order[val_ptr as usize] as u32;
+            sym = match p_tables.sorted_symbol_order.get(val_ptr as usize) {
+                Some(&s) => s as u32,
+                None => return Err(false),
+            };
         }
         self.bit_buf <<= len;
         self.bit_count -= len as i32;
-- 
2.43.0


From f9f42d22d001086cd12253606e3565c6f4eaa627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 22/31] fix: crunch palette symbols out of range do not panic

---
 src/crunch/crn_unpacker.rs      | 6 ++++++
 src/unitycrunch/crn_unpacker.rs | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index a20e9a5..4ba81cf 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -231,6 +231,9 @@ impl<'slice> CrnUnpacker<'slice> {
                     Ok(s) => s,
                     Err(_) => return false,
                 };
+                if sym as usize >= delta0.len() {
+                    return false;
+                }
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
@@ -355,6 +358,9 @@ impl<'slice> CrnUnpacker<'slice> {
                     Ok(s) => s,
                     Err(_) => return false,
                 } as i32;
+                if sym as usize >= delta0.len() {
+                    return false;
+                }
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 7) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 7) as u32;
             }
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 2d990de..84131cc 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -193,10 +193,11 @@ impl<'slice> CrnUnpacker<'slice> {
         for _ in 0..num_color_endpoints {
             if has_etc_color_blocks {
                 for b in [0, 8, 16, 24] {
-                    a += match self.codec.decode(&dm[0]) {
+                    let da: u32 = match self.codec.decode(&dm[0]) {
                         Ok(s) => s,
                         Err(_) => return false,
-                    } << b;
+                    };
+                    a = a.wrapping_add(da << b);
                 }
                 a &= 0x1F1F1F1F;
                 if has_subblocks {
-- 
2.43.0


From cfa8067998fc74e12d33c6e375e086220e65c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 23/31] fix: crunch palette indices out of range are rejected

---
 src/crunch/crn_unpacker.rs      | 32 ++++++++++++-------------
 src/crunch/crn_utils.rs         |  6 ++++-
 src/unitycrunch/crn_unpacker.rs | 42 ++++++++++++++++-----------------
 3 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 4ba81cf..ea865fa 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -574,7 +574,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT1 Texture"),
                         };
                         prev_color_endpoint_index += delta;
-                        limit(&mut prev_color_endpoint_index, num_color_endpoints);
+                        limit(&mut prev_color_endpoint_index, num_color_endpoints)?;
                         *color_endpoint = self.color_endpoints[prev_color_endpoint_index as usize];
                     }
 
@@ -594,7 +594,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT1 Texture"),
                         };
                         prev_color_selector_index += delta0;
-                        limit(&mut prev_color_selector_index, num_color_selectors);
+                        limit(&mut prev_color_selector_index, num_color_selectors)?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 1,
@@ -611,7 +611,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT1 Texture"),
                         };
                         prev_color_selector_index += delta1;
-                        limit(&mut prev_color_selector_index, num_color_selectors);
+                        limit(&mut prev_color_selector_index, num_color_selectors)?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 3,
@@ -628,7 +628,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT1 Texture"),
                         };
                         prev_color_selector_index += delta2;
-                        limit(&mut prev_color_selector_index, num_color_selectors);
+                        limit(&mut prev_color_selector_index, num_color_selectors)?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 1 + row_pitch_in_dwords as usize,
@@ -645,7 +645,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT1 Texture"),
                         };
                         prev_color_selector_index += delta3;
-                        limit(&mut prev_color_selector_index, num_color_selectors);
+                        limit(&mut prev_color_selector_index, num_color_selectors)?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 3 + row_pitch_in_dwords as usize,
@@ -662,7 +662,7 @@ impl<'slice> CrnUnpacker<'slice> {
                                     Err(_) => return Err("Failed to decord DXT1 Texture"),
                                 };
                                 prev_color_selector_index += delta;
-                                limit(&mut prev_color_selector_index, num_color_selectors);
+                                limit(&mut prev_color_selector_index, num_color_selectors)?;
                                 if !(((bx != 0) && skip_right_col)
                                     || ((by != 0) && skip_bottom_row))
                                 {
@@ -747,7 +747,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT5 Texture"),
                         };
                         prev_alpha_endpoint_index += delta;
-                        limit(&mut prev_alpha_endpoint_index, num_alpha_endpoints);
+                        limit(&mut prev_alpha_endpoint_index, num_alpha_endpoints)?;
                         alpha_endpoints[i as usize] =
                             self.alpha_endpoints[prev_alpha_endpoint_index as usize] as u32;
                     }
@@ -758,7 +758,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT5 Texture"),
                         };
                         prev_color_endpoint_index += delta;
-                        limit(&mut prev_color_endpoint_index, num_color_endpoints);
+                        limit(&mut prev_color_endpoint_index, num_color_endpoints)?;
                         color_endpoints[i as usize] =
                             self.color_endpoints[prev_color_endpoint_index as usize];
                     }
@@ -772,13 +772,13 @@ impl<'slice> CrnUnpacker<'slice> {
                                 Err(_) => return Err("Failed to decord DXT5 Texture"),
                             };
                             prev_alpha_selector_index += delta0;
-                            limit(&mut prev_alpha_selector_index, num_alpha_selectors);
+                            limit(&mut prev_alpha_selector_index, num_alpha_selectors)?;
                             let delta1: u32 = match self.codec.decode(&self.selector_delta_dm[0]) {
                                 Ok(delta1) => delta1,
                                 Err(_) => return Err("Failed to decord DXT5 Texture"),
                             };
                             prev_color_selector_index += delta1;
-                            limit(&mut prev_color_selector_index, num_color_selectors);
+                            limit(&mut prev_color_selector_index, num_color_selectors)?;
                             if !(((bx != 0) && skip_right_col) || ((by != 0) && skip_bottom_row)) {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha_selectors = &self.alpha_selectors
@@ -904,7 +904,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXT5A Texture"),
                         };
                         prev_alpha0_endpoint_index += delta;
-                        limit(&mut prev_alpha0_endpoint_index, num_alpha_endpoints);
+                        limit(&mut prev_alpha0_endpoint_index, num_alpha_endpoints)?;
                         alpha0_endpoints[i as usize] =
                             self.alpha_endpoints[prev_alpha0_endpoint_index as usize] as u32;
                     }
@@ -917,7 +917,7 @@ impl<'slice> CrnUnpacker<'slice> {
                                 Err(_) => return Err("Failed to decord DXT5A Texture"),
                             };
                             prev_alpha0_selector_index += delta;
-                            limit(&mut prev_alpha0_selector_index, num_alpha_selectors);
+                            limit(&mut prev_alpha0_selector_index, num_alpha_selectors)?;
                             if !(((bx != 0) && skip_right_col) || ((by != 0) && skip_bottom_row)) {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
@@ -1025,7 +1025,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXN Texture"),
                         };
                         prev_alpha0_endpoint_index += delta;
-                        limit(&mut prev_alpha0_endpoint_index, num_alpha_endpoints);
+                        limit(&mut prev_alpha0_endpoint_index, num_alpha_endpoints)?;
                         alpha0_endpoints[i as usize] =
                             self.alpha_endpoints[prev_alpha0_endpoint_index as usize] as u32;
                     }
@@ -1035,7 +1035,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             Err(_) => return Err("Failed to decord DXN Texture"),
                         };
                         prev_alpha1_endpoint_index += delta;
-                        limit(&mut prev_alpha1_endpoint_index, num_alpha_endpoints);
+                        limit(&mut prev_alpha1_endpoint_index, num_alpha_endpoints)?;
                         alpha1_endpoints[i as usize] =
                             self.alpha_endpoints[prev_alpha1_endpoint_index as usize] as u32;
                     }
@@ -1048,14 +1048,14 @@ impl<'slice> CrnUnpacker<'slice> {
                                 Err(_) => return Err("Failed to decord DXN Texture"),
                             };
                             prev_alpha0_selector_index += delta0;
-                            limit(&mut prev_alpha0_selector_index, num_alpha_selectors);
+                            limit(&mut prev_alpha0_selector_index, num_alpha_selectors)?;
 
                             let delta1: u32 = match self.codec.decode(&self.selector_delta_dm[1]) {
                                 Ok(delta1) => delta1,
                                 Err(_) => return Err("Failed to decord DXN Texture"),
                             };
                             prev_alpha1_selector_index += delta1;
-                            limit(&mut prev_alpha1_selector_index, num_alpha_selectors);
+                            limit(&mut prev_alpha1_selector_index, num_alpha_selectors)?;
                             if !(((bx != 0) && skip_right_col) || ((by != 0) && skip_bottom_row)) {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
diff --git a/src/crunch/crn_utils.rs b/src/crunch/crn_utils.rs
index 4ba3c77..9277878 100644
--- a/src/crunch/crn_utils.rs
+++ b/src/crunch/crn_utils.rs
@@ -19,8 +19,12 @@ pub fn total_bits(mut v: u32) -> u32 {
 }
 
 #[inline]
-pub fn limit(x: &mut u32, n: u32) {
+pub fn limit(x: &mut u32, n: u32) -> Result<(), &'static str> {
     let v: i32 = (*x as i32) - n as i32;
     let msk: i32 = v >> 31;
     *x = (((*x as i32) & msk) | (v & !msk)) as u32;
+    if *x >= n {
+        return Err("Crunch palette index is out of range.");
+    }
+    Ok(())
 }
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 84131cc..99e1ef3 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -711,12 +711,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.color_endpoints[color_endpoint_index]
+                            *self.color_endpoints.get(color_endpoint_index).ok_or("Crunch palette index is out of range.")?
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 1,
-                            self.color_selectors[color_selector_index]
+                            *self.color_selectors.get(color_selector_index).ok_or("Crunch palette index is out of range.")?
                         );
                     }
                     data_pos += 2;
@@ -804,11 +804,11 @@ impl<'slice> CrnUnpacker<'slice> {
                         Err(_) => return Err("Failed to decode DXT5 Texture."),
                     } as usize;
                     if visible {
-                        let p_alpha0_selectors = &self.alpha_selectors[alpha0_selector_index * 3..];
+                        let p_alpha0_selectors = self.alpha_selectors.get(alpha0_selector_index * 3..alpha0_selector_index * 3 + 3).ok_or("Crunch palette index is out of range.")?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            *self.alpha_endpoints.get(alpha0_endpoint_index).ok_or("Crunch palette index is out of range.")? as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -819,12 +819,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 2,
-                            self.color_endpoints[color_endpoint_index]
+                            *self.color_endpoints.get(color_endpoint_index).ok_or("Crunch palette index is out of range.")?
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 3,
-                            self.color_selectors[color_selector_index]
+                            *self.color_selectors.get(color_selector_index).ok_or("Crunch palette index is out of range.")?
                         );
                     }
                     data_pos += 4;
@@ -894,11 +894,11 @@ impl<'slice> CrnUnpacker<'slice> {
                         Err(_) => return Err("Failed to decode DXT5A Texture."),
                     } as usize;
                     if visible {
-                        let p_alpha0_selectors = &self.alpha_selectors[alpha0_selector_index * 3..];
+                        let p_alpha0_selectors = self.alpha_selectors.get(alpha0_selector_index * 3..alpha0_selector_index * 3 + 3).ok_or("Crunch palette index is out of range.")?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            *self.alpha_endpoints.get(alpha0_endpoint_index).ok_or("Crunch palette index is out of range.")? as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -992,12 +992,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         Err(_) => return Err("Failed to decode DXN Texture."),
                     } as usize;
                     if visible {
-                        let p_alpha0_selectors = &self.alpha_selectors[alpha0_selector_index * 3..];
-                        let p_alpha1_selectors = &self.alpha_selectors[alpha1_selector_index * 3..];
+                        let p_alpha0_selectors = self.alpha_selectors.get(alpha0_selector_index * 3..alpha0_selector_index * 3 + 3).ok_or("Crunch palette index is out of range.")?;
+                        let p_alpha1_selectors = self.alpha_selectors.get(alpha1_selector_index * 3..alpha1_selector_index * 3 + 3).ok_or("Crunch palette index is out of range.")?;
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            *self.alpha_endpoints.get(alpha0_endpoint_index).ok_or("Crunch palette index is out of range.")? as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -1008,7 +1008,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 2,
-                            self.alpha_endpoints[alpha1_endpoint_index] as u32
+                            *self.alpha_endpoints.get(alpha1_endpoint_index).ok_or("Crunch palette index is out of range.")? as u32
                                 | ((p_alpha1_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -1081,7 +1081,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         color_endpoint_index = buffer.color_endpoint_index as usize;
                     }
                     endpoint_reference >>= 2;
-                    let e0 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e0 = self.color_endpoints.get(color_endpoint_index).ok_or("Crunch palette index is out of range.")?.to_le_bytes();
                     let selector_index: usize = match self.codec.decode(&self.selector_delta_dm[0])
                     {
                         Ok(s) => s,
@@ -1101,7 +1101,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         self.block_buffer[x << 1 | 1].color_endpoint_index as usize;
                     self.block_buffer[x << 1 | 1].color_endpoint_index =
                         color_endpoint_index as u16;
-                    let e1 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e1 = self.color_endpoints.get(color_endpoint_index).ok_or("Crunch palette index is out of range.")?.to_le_bytes();
                     if visible {
                         let flip: u8 = endpoint_reference >> 1 ^ 1;
                         let mut diff: u8 = 1;
@@ -1129,7 +1129,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 1,
-                            self.color_selectors[selector_index << 1 | (flip as usize)]
+                            *self.color_selectors.get(selector_index << 1 | (flip as usize)).ok_or("Crunch palette index is out of range.")?
                         );
                     }
                     data_pos += 2;
@@ -1212,7 +1212,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         alpha0_endpoint_index = buffer.alpha0_endpoint_index as usize;
                     }
                     endpoint_reference >>= 2;
-                    let e0 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e0 = self.color_endpoints.get(color_endpoint_index).ok_or("Crunch palette index is out of range.")?.to_le_bytes();
                     let color_selector_index: usize =
                         match self.codec.decode(&self.selector_delta_dm[0]) {
                             Ok(s) => s,
@@ -1233,7 +1233,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
                     }
-                    let e1 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e1 = self.color_endpoints.get(color_endpoint_index).ok_or("Crunch palette index is out of range.")?.to_le_bytes();
                     diagonal_color_endpoint_index =
                         self.block_buffer[x << 1 | 1].color_endpoint_index as usize;
                     diagonal_alpha0_endpoint_index =
@@ -1263,14 +1263,14 @@ impl<'slice> CrnUnpacker<'slice> {
                         }
                         block_endpoint[3] = e0[3] << 5 | e1[3] << 2 | diff << 1 | flip;
                         let p_alpha0_selectors: &[u16] = if flip != 0 {
-                            &self.alpha_selectors[alpha0_selector_index * 6 + 3..]
+                            self.alpha_selectors.get(alpha0_selector_index * 6 + 3..alpha0_selector_index * 6 + 6).ok_or("Crunch palette index is out of range.")?
                         } else {
-                            &self.alpha_selectors[alpha0_selector_index * 6..]
+                            self.alpha_selectors.get(alpha0_selector_index * 6..alpha0_selector_index * 6 + 3).ok_or("Crunch palette index is out of range.")?
                         };
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            *self.alpha_endpoints.get(alpha0_endpoint_index).ok_or("Crunch palette index is out of range.")? as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -1285,7 +1285,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 3,
-                            self.color_selectors[color_selector_index << 1 | (flip as usize)]
+                            *self.color_selectors.get(color_selector_index << 1 | (flip as usize)).ok_or("Crunch palette index is out of range.")?
                         );
                     }
                     data_pos += 4;
-- 
2.43.0


From b286139fc92a6eefb9800adedc23d0566f860c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 24/31] fix: crunch faces start a whole face apart

---
 src/crunch/crn_unpacker.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index ea865fa..74e83d9 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -540,8 +540,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for face in 0..num_faces as usize {
+            let mut row_dst = face * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -709,8 +709,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for face in 0..num_faces as usize {
+            let mut row_dst = face * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -867,8 +867,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for face in 0..num_faces as usize {
+            let mut row_dst = face * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -987,8 +987,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for face in 0..num_faces as usize {
+            let mut row_dst = face * (row_pitch_in_bytes * blocks_y) as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
-- 
2.43.0


From 8d993bff57adce495a20dc552c0be0421fa396cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 25/31] fix: unity crunch rows and faces start where they
 belong

---
 src/unitycrunch/crn_unpacker.rs | 42 ++++++++++++++-------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 99e1ef3..e217ee8 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -659,17 +659,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for face in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
                 let mut visible = y < output_height;
+                let mut data_pos = (face * output_height as usize + y as usize)
+                    * (output_pitch_in_bytes >> 2) as usize;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
                     if (y & 1) == 0 && (x & 1) == 0 {
@@ -721,7 +721,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -737,7 +736,6 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -745,10 +743,11 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for face in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
                 let mut visible = y < output_height;
+                let mut data_pos = (face * output_height as usize + y as usize)
+                    * (output_pitch_in_bytes >> 2) as usize;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
                     if (y & 1) == 0 && (x & 1) == 0 {
@@ -829,7 +828,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -844,17 +842,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for face in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
                 let mut visible = y < output_height;
+                let mut data_pos = (face * output_height as usize + y as usize)
+                    * (output_pitch_in_bytes >> 2) as usize;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
                     if (y & 1) == 0 && (x & 1) == 0 {
@@ -909,7 +907,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -924,7 +921,6 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -932,10 +928,11 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for face in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
                 let mut visible = y < output_height;
+                let mut data_pos = (face * output_height as usize + y as usize)
+                    * (output_pitch_in_bytes >> 2) as usize;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
                     if (y & 1) == 0 && (x & 1) == 0 {
@@ -1019,7 +1016,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1034,7 +1030,6 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1042,10 +1037,11 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for face in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
                 let mut visible = y < output_height;
+                let mut data_pos = (face * output_height as usize + y as usize)
+                    * (output_pitch_in_bytes >> 2) as usize;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
                     let buffer = &mut self.block_buffer[x << 1];
@@ -1134,7 +1130,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1150,7 +1145,6 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1160,10 +1154,11 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for face in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
                 let mut visible = y < output_height;
+                let mut data_pos = (face * output_height as usize + y as usize)
+                    * (output_pitch_in_bytes >> 2) as usize;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
                     let buffer = &mut self.block_buffer[x << 1];
@@ -1290,7 +1285,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
-- 
2.43.0


From 5689c137ad004cb9a49d12e1346d0605f4bf0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 26/31] fix: crunch sizes that overflow or exceed the level
 data are rejected

---
 src/crunch.rs                   |  4 +++-
 src/crunch/crn_unpacker.rs      | 14 +++++++++++---
 src/unitycrunch.rs              |  4 +++-
 src/unitycrunch/crn_unpacker.rs | 10 +++++++++-
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index 6f41e1f..10e7ef9 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -31,7 +31,9 @@ pub fn crunch_unpack_level(
     let blocks_x: u32 = max(1, (width + 3) >> 2);
     let blocks_y: u32 = max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("Crunch texture is too large.")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 74e83d9..6c3e2a1 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -452,16 +452,24 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
-        let chunks_x: u32 = (blocks_x + 1) >> 1;
-        let chunks_y: u32 = (blocks_y + 1) >> 1;
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
         }
+        // every block, including those that pad the last column and row,
+        // takes one bit or more
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let coded_blocks =
+            (((blocks_x + 1) & !1) as usize * ((blocks_y + 1) & !1) as usize).saturating_mul(num_faces);
+        if (src_size_in_bytes as usize).saturating_mul(8) < coded_blocks {
+            return Err("Not enough data in the crunch level.");
+        }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces];
+        let chunks_x: u32 = (blocks_x + 1) >> 1;
+        let chunks_y: u32 = (blocks_y + 1) >> 1;
         let format = match self.p_header.format.cast_to_uint() {
             0 => CrnFormat::Dxt1,
             1 => CrnFormat::Dxt3,
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ae4940e..d4dba08 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -22,7 +22,9 @@ pub fn unity_crunch_unpack_level(
     let blocks_x: u32 = core::cmp::max(1, (width + 3) >> 2);
     let blocks_y: u32 = core::cmp::max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("Crunch texture is too large.")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index e217ee8..b5f6d1f 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -591,7 +591,6 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
@@ -599,6 +598,15 @@ impl<'slice> CrnUnpacker<'slice> {
         if !res {
             return Err("Failed to initialize the decoding process.");
         }
+        // every block, including those that pad the last column and row,
+        // takes one bit or more
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let coded_blocks =
+            (((blocks_x + 1) & !1) as usize * ((blocks_y + 1) & !1) as usize).saturating_mul(num_faces);
+        if (src_size_in_bytes as usize).saturating_mul(8) < coded_blocks {
+            return Err("Not enough data in the crunch level.");
+        }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces];
         let format = match self.p_header.format.cast_to_uint() {
             0 => CrnFormat::Dxt1,
             1 => CrnFormat::Dxt3,
-- 
2.43.0


From 915d16ac3439ac1523bbb76304dc296a20c3651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 27/31] fix: 48-bit index fields keep all their bits on 32-bit
 hosts

---
 src/bcn/bc3.rs  | 4 ++--
 src/etc/eac.rs  | 8 ++++----
 src/etc/etc2.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 5e78978..fa82173 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,12 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
     outbuf.iter_mut().for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b10a5f7..f6a9d35 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,10 +8,10 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
+        let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
@@ -32,10 +32,10 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
+        let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
diff --git a/src/etc/etc2.rs b/src/etc/etc2.rs
index f8c15ec..ae278cf 100644
--- a/src/etc/etc2.rs
+++ b/src/etc/etc2.rs
@@ -314,9 +314,9 @@ pub fn decode_etc2_a8_block(data: &[u8], outbuf: &mut [u32]) {
         // multiplier != 0
         let multiplier: i32 = (data[1] >> 4) as i32;
         let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-        let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+        let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
         for i in 0..16 {
-            let alpha = (clamp((data[0] as i32) + multiplier * (table[l & 7] as i32)) as u32)
+            let alpha = (clamp((data[0] as i32) + multiplier * (table[(l & 7) as usize] as i32)) as u32)
                 << TRANSPARENT_SHIFT;
             let x: &mut u32 = &mut outbuf[WRITE_ORDER_TABLE_REV[i]];
             *x = (*x & TRANSPARENT_MASK) | alpha;
-- 
2.43.0


From 691d13e7429af3e9ee962bb738ae29eb444a97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 28/31] fix: alpha of ETC2 pixels is in the same bits on
 big-endian hosts

---
 src/color.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index e107ac0..4adfd69 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -1,26 +1,9 @@
 #![allow(clippy::too_many_arguments)]
 
-pub static TRANSPARENT_MASK: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        0x00ffffff
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0xffffff00
-    }
-};
+// pixels are u32 values 0xAARRGGBB on every host, see color()
+pub static TRANSPARENT_MASK: u32 = 0x00ffffff;
 
-pub static TRANSPARENT_SHIFT: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        24
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0
-    }
-};
+pub static TRANSPARENT_SHIFT: u32 = 24;
 
 #[inline]
 pub const fn color(r: u8, g: u8, b: u8, a: u8) -> u32 {
-- 
2.43.0


From 9aa356f397227ef9c31e780a508cda334987169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 29/31] fix: crunch decodes on big-endian hosts as on
 little-endian ones

---
 src/crunch/crn_consts.rs   |  10 ---
 src/crunch/crn_unpacker.rs | 138 +++++--------------------------------
 src/macros.rs              |   3 -
 3 files changed, 19 insertions(+), 132 deletions(-)

diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index f16fc2f..1830953 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -68,16 +68,6 @@ pub const MOST_PROBABLE_CODELENGTH_CODES: [u8; 21] = [
 
 // pub const cNumMostProbableCodelengthCodes: usize = 21;
 
-#[cfg(target_endian = "little")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = true;
-// #[cfg(target_endian = "little")]
-// pub const c_crnd_big_endian_platform: bool = false;
-
-#[cfg(target_endian = "big")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = false;
-// #[cfg(target_endian = "big")]
-// pub const c_crnd_big_endian_platform: bool = true;
-
 // pub const cDXTBlockShift: usize = 2;
 // pub const cDXTBlockSize: usize = 1 << cDXTBlockShift;
 // pub const cDXT1BytesPerBlock: usize = 8;
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 6c3e2a1..971ae8d 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -178,13 +178,8 @@ impl<'slice> CrnUnpacker<'slice> {
             e = (e + de) & 63;
             CRND_HUFF_DECODE!(self.codec, &dm[0], df);
             f = (f + df) & 31;
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = f | (e << 5) | (d << 11) | (c << 16) | (b << 21) | (a << 27);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -237,43 +232,23 @@ impl<'slice> CrnUnpacker<'slice> {
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[8] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = (p_from_linear[cur[8] as usize] as u32)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[0] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
+                | ((p_from_linear[cur[1] as usize] as u32) << 2)
+                | ((p_from_linear[cur[2] as usize] as u32) << 4)
+                | ((p_from_linear[cur[3] as usize] as u32) << 6)
+                | ((p_from_linear[cur[4] as usize] as u32) << 8)
+                | ((p_from_linear[cur[5] as usize] as u32) << 10)
+                | ((p_from_linear[cur[6] as usize] as u32) << 12)
+                | ((p_from_linear[cur[7] as usize] as u32) << 14)
+                | ((p_from_linear[cur[8] as usize] as u32) << 16)
+                | ((p_from_linear[cur[9] as usize] as u32) << 18)
+                | ((p_from_linear[cur[10] as usize] as u32) << 20)
+                | ((p_from_linear[cur[11] as usize] as u32) << 22)
+                | ((p_from_linear[cur[12] as usize] as u32) << 24)
+                | ((p_from_linear[cur[13] as usize] as u32) << 26)
+                | ((p_from_linear[cur[14] as usize] as u32) << 28)
+                | ((p_from_linear[cur[15] as usize] as u32) << 30);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -791,34 +766,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha_selectors = &self.alpha_selectors
                                     [(prev_alpha_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha_endpoints[tile_index as usize] << 16)
-                                            | pAlpha_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha_selectors[1] as u32) << 16)
-                                            | (pAlpha_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (self.m_color_selectors
-                                            [prev_color_selector_index as usize])
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
@@ -930,23 +877,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
                                     [(prev_alpha0_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
@@ -1070,36 +1000,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                     [(prev_alpha0_selector_index * 3) as usize..];
                                 let p_alpha1_selectors = &self.alpha_selectors
                                     [(prev_alpha1_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        ((alpha1_endpoints[tile_index as usize] << 16)
-                                            | pAlpha1_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (((pAlpha1_selectors[1] as u32) << 16)
-                                            | (pAlpha1_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
diff --git a/src/macros.rs b/src/macros.rs
index d93c0c8..d240363 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -55,10 +55,7 @@ macro_rules! CRND_HUFF_DECODE {
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
-        #[cfg(target_endian = "little")]
         let tiles = $val.to_le_bytes();
-        #[cfg(target_endian = "big")]
-        let tiles = $val.to_be_bytes();
         $buf[t_index] = tiles[0];
         $buf[t_index + 1] = tiles[1];
         $buf[t_index + 2] = tiles[2];
-- 
2.43.0


From 8151bea1a84058f1f968e2e2e35bf0d62057755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 30/31] fix: BC3 alpha fills a longer output past the block

decode_bc3_alpha wrote every pixel of the slice it was given, so the BC3, BC4,
BC5 and ATC RGBA block decoders overwrote what lay behind their 16 texels. All
other block decoders leave it alone.
---
 src/bcn/bc3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index fa82173..cac93b7 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -24,7 +24,7 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
-    outbuf.iter_mut().for_each(|p| {
+    outbuf[0..16].iter_mut().for_each(|p| {
         *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
-- 
2.43.0


From 1dc204a73bf489f1dc93548d595b48197eb6bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 31/31] fix: an image of no width and a huge height decodes at
 once

---
 src/astc.rs   | 5 +++++
 src/macros.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/astc.rs b/src/astc.rs
index 0daaaf6..7f89393 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1820,6 +1820,11 @@ pub fn decode_astc(
         return Err("Image buffer is too small!");
     }
 
+    // an empty image has no block, whatever its height
+    if num_blocks_x == 0 {
+        return Ok(());
+    }
+
     (0..num_blocks_y).for_each(|by| {
         (0..num_blocks_x).for_each(|bx| {
             decode_astc_block(&data[data_offset..], block_width, block_height, &mut buffer);
diff --git a/src/macros.rs b/src/macros.rs
index d240363..8409746 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -19,6 +19,11 @@ macro_rules! block_decoder{
                     return Err("Image buffer is too small!");
                 }
 
+                // an empty image has no block, whatever its height
+                if num_blocks_x == 0 {
+                    return Ok(());
+                }
+
                 let mut data_offset = 0;
                 (0..num_blocks_y).for_each(|by| {
                     (0..num_blocks_x).for_each(|bx| {
-- 
2.43.0

