From eaddc66c4b7f3d9be9b7983136a536d8fb55cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 01/14] fix: is_greater_or_equal on multi-word values must hold
 for equal values

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From 92002a944dcd34d161436a9c87fc5aa86b23edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 02/14] fix: shift_left by a multiple of the word size must
 clear the unused most significant bits

---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From b2c889743494db7661b7171446f2cb7038cbdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 03/14] fix: to_i64 must recognize small negative values with a
 width that is not a multiple of 64

---
 src/bv/ops.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..ad134ed 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,10 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // the unused bits of the most significant word are always zero
+            let msb_word = self.words().len() - 1;
+            let all_max_msbs = self.words()[1..msb_word].iter().all(|w| *w == Word::MAX)
+                && self.words()[msb_word] == crate::bv::arithmetic::mask(self.width() % Word::BITS);
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From d1ce4cd3abb10b448bc7410bc96e1aff19e337f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 04/14] fix: dense to sparse conversion must count all 256
 possible byte values

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2440e9b 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; u8::MAX as usize + 1];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 99a98cda401ac6af4df985a4a411328aa86bc1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 05/14] fix: sparse to dense conversion of wide elements must
 use the index width for the index

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2440e9b..7302716 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From 8318df5c343b5fee644dcb09549e81a9c25ee664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 06/14] fix: sparse arrays with an index of more than 64 bits
 must not panic on access

---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 7302716..bd0f04f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From 06ee88710771e53dc5ba92e059bde68d5f5db7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 07/14] fix: fixed-point conversion with 64 or more fraction
 bits must not overflow

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index ad134ed..ca3075d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,7 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From f3a6addc1b538c5bab7eb2efae305f748b8cee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 08/14] fix: assigning zero to a zero-width bit-vector must not
 panic

---
 src/bv/ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index ca3075d..18ac3c9 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -423,6 +423,10 @@ pub trait BitVecMutOps: BitVecOps {
 
     fn assign_from_u64(&mut self, value: u64) {
         debug_assert_eq!(Word::BITS, u64::BITS, "basic assumption of this function");
+        if self.width() == 0 {
+            debug_assert_eq!(value, 0, "value {value} does not fit into 0 bits");
+            return;
+        }
         // clear all words
         self.clear();
         // assign lsb
-- 
2.43.0


From f725005b9a2ce67587d0ab51eece03f3c3777d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 09/14] fix: to_bit_str_signed must select the right words and
 print the full magnitude of the smallest value

---
 src/bv/io/strings.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..318515f 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,15 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        // the magnitude of the smallest value needs all bits
+        let digits = if is_neg(&copy, width) {
+            width
+        } else {
+            width - 1
+        };
+        to_bit_str_internal(select_words_for_width(&copy, digits), digits, out)
     } else {
-        to_bit_str(values, width - 1)
+        to_bit_str(select_words_for_width(values, width - 1), width - 1)
     }
 }
 
-- 
2.43.0


From 4224a5e3ca6d4e249b63ed9728aff9b0fe5e5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 10/14] fix: to_hex_str_signed must print the full magnitude of
 the smallest value

---
 src/bv/io/strings.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 318515f..7e15fce 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -82,7 +82,13 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        // the magnitude of the smallest value needs all bits
+        let digits = if is_neg(&copy, width) {
+            width
+        } else {
+            width - 1
+        };
+        to_hex_str_internal(select_words_for_width(&copy, digits), digits, out)
     } else {
         to_hex_str(select_words_for_width(values, width - 1), width - 1)
     }
-- 
2.43.0


From 6944e1a56cbb152c11f825b79d7a2147c67b56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 11/14] fix: sparse arrays with different defaults can still
 have the same elements

---
 src/array/owned.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index bd0f04f..6145b91 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -625,8 +625,9 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(self.is_equal_with_different_default(other, map_a.len(), map_b.len()))
             }
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
@@ -637,8 +638,9 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(self.is_equal_with_different_default(other, map_a.len(), map_b.len()))
             }
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
@@ -649,8 +651,9 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(self.is_equal_with_different_default(other, map_a.len(), map_b.len()))
             }
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
@@ -658,6 +661,28 @@ impl SparseArrayValue {
         }
     }
 
+    /// Two arrays with different default values can only be equal if every single index carries
+    /// a non-default entry in at least one of them.
+    fn is_equal_with_different_default(
+        &self,
+        other: &Self,
+        num_entries: usize,
+        num_other_entries: usize,
+    ) -> bool {
+        if self.index_width >= usize::BITS
+            || self.num_elements() > num_entries.saturating_add(num_other_entries)
+        {
+            return false;
+        }
+        for ii in 0..self.num_elements() {
+            let index = BitVecValue::from_u64(ii as u64, self.index_width);
+            if self.select(&index) != other.select(&index) {
+                return false;
+            }
+        }
+        true
+    }
+
     pub fn default(&self) -> BitVecValue {
         match &self.data {
             SparseArrayImpl::U64U64(default, _) => BitVecValue::from_u64(*default, self.data_width),
-- 
2.43.0


From 92dd32e2e65cb2249f6b9c4e29e73dc3fb4db3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 12/14] fix: parsing wide numbers must ignore leading zeros,
 reject too large numbers and overwrite all words

---
 src/bv/io/strings.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 7e15fce..be7dbf8 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -294,7 +294,7 @@ pub(crate) fn from_str_radix(
             match radix {
                 2 => parse_base_2(digits, out, width)?,
                 10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                16 => parse_base_16(digits, out, width)?,
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
@@ -316,8 +316,36 @@ pub(crate) fn from_str_radix(
     Ok(())
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+/// Removes leading zeros, they do not have any influence on the value of a number.
+#[inline]
+fn strip_leading_zeros(digits: &[u8]) -> &[u8] {
+    let mut zeros = 0;
+    while zeros < digits.len() && digits[zeros] == b'0' {
+        zeros += 1;
+    }
+    &digits[zeros..]
+}
+
+fn parse_base_16(
+    digits: &[u8],
+    out: &mut [Word],
+    max_width: WidthInt,
+) -> Result<WidthInt, ParseIntError> {
+    // words that are not covered by the digits need to be zero
+    clear(out);
+    let digits = strip_leading_zeros(digits);
+    if digits.is_empty() {
+        return Ok(0);
+    }
     let num_digits = digits.len();
+    let bits_in_first_digit = u8::BITS - hex_digit_value(digits[0])?.leading_zeros();
+    let width = (num_digits - 1) as WidthInt * BITS_PER_HEX_DIGIT + bits_in_first_digit;
+    if width > max_width {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
+
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
@@ -352,8 +380,13 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
+    // words that are not covered by the digits need to be zero
+    clear(out);
+    let digits = strip_leading_zeros(digits);
+    if digits.is_empty() {
+        return Ok(0);
+    }
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From fca130745f25cadafcdea0f1c14f838c87bb817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 13/14] fix: parsing a number of up to 128 bits must reject
 values that exceed the width

---
 src/bv/io/strings.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index be7dbf8..1c1cffa 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{clear, is_neg, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, mask, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -245,7 +245,7 @@ pub(crate) fn from_str_radix(
     match out {
         [out] => {
             debug_assert!(width <= 64);
-            *out = match u64::from_str_radix(value, radix) {
+            let value = match u64::from_str_radix(value, radix) {
                 Ok(v) => v,
                 Err(e) => {
                     let kind = match e.kind() {
@@ -256,6 +256,12 @@ pub(crate) fn from_str_radix(
                     return Err(ParseIntError { kind });
                 }
             };
+            if value > mask(width) {
+                return Err(ParseIntError {
+                    kind: IntErrorKind::ExceedsWidth,
+                });
+            }
+            *out = value;
         }
         [lsb, msb] => {
             debug_assert!(width <= 128);
@@ -270,6 +276,11 @@ pub(crate) fn from_str_radix(
                     return Err(ParseIntError { kind });
                 }
             };
+            if (out >> Word::BITS) as Word > mask(width % Word::BITS) {
+                return Err(ParseIntError {
+                    kind: IntErrorKind::ExceedsWidth,
+                });
+            }
             *lsb = out as Word;
             *msb = (out >> Word::BITS) as Word;
         }
@@ -300,16 +311,6 @@ pub(crate) fn from_str_radix(
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
-
     if is_negative {
         negate_in_place(out, width)
     }
-- 
2.43.0


From 798c8f4821f961e2638a3515e7060ea2a02aa73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 14/14] fix: decimal conversion of very wide values must not
 overflow the capacity estimate

---
 src/bv/io/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 1c1cffa..fe119ba 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -129,7 +129,7 @@ fn to_hex_str_internal(values: &[Word], width: WidthInt, mut out: String) -> Str
 }
 
 pub(crate) fn to_dec_str(values: &[Word], width: WidthInt) -> String {
-    let out = String::with_capacity((width * 3 / 10) as usize);
+    let out = String::with_capacity(width as usize * 3 / 10);
     to_dec_str_internal(values, out)
 }
 
-- 
2.43.0

