From 531811376cb6f57dd9f1dfa1921a942d382b2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:38 +0000
Subject: [PATCH 01/13] fix: add the divisor back over its own limbs in long
 division

The correction step ran one limb past the divisor. With a divisor that fills
its array this read out of bounds and panicked, and otherwise the carry was
added in twice the wrong place, giving a wrong quotient or remainder.
---
 src/math/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 2a78581..38a857b 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -401,7 +401,7 @@ fn div_rem_knuth<const M: usize, const N: usize>(
             // Add back one multiple of divisor
             i = 0;
             c = false;
-            while i < n + 1 {
+            while i < n {
                 let x = numerator.get(i + j);
                 let y = divisor[i];
                 let (res1, overflow1) = y.overflowing_add(c as ULimb);
-- 
2.43.0


From 66be1958e96871a31b6fd5aa30e4033d7cd88993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:38 +0000
Subject: [PATCH 02/13] fix: panic on division by zero in every division
 routine

Dividing zero by zero returned a value, and dividing a large value by zero in
a release build raised a hardware exception that killed the process.
---
 src/math/div.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/div.rs b/src/math/div.rs
index 38a857b..f55a900 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -49,6 +49,7 @@ pub fn full<const M: usize, const N: usize>(
     if N == 1 {
         return limb_padded(numerator, divisor[0]);
     }
+    assert!(!is_zero(divisor, 0), "attempt to divide by zero");
 
     match cmp(numerator, divisor) {
         Ordering::Less => ([0; M], truncate(*numerator)),
@@ -72,6 +73,8 @@ pub fn full<const M: usize, const N: usize>(
 #[inline]
 #[must_use]
 pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb; M], UWide) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
@@ -104,6 +107,7 @@ pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb;
 #[allow(clippy::assertions_on_constants)]
 pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULimb; M], u128) {
     assert!(ULimb::BITS == 32);
+    assert!(divisor != 0, "attempt to divide by zero");
 
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
@@ -132,6 +136,8 @@ pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULi
 #[inline]
 #[must_use]
 pub fn limb<const M: usize>(numerator: &[ULimb; M], divisor: ULimb) -> ([ULimb; M], ULimb) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // quick path optinmization for small values
     if M >= 2 && is_zero(numerator, 2) {
         let lo = numerator[0] as UWide;
-- 
2.43.0


From d703f9f97465edc4c739f92c33daeeafd3058086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:38 +0000
Subject: [PATCH 03/13] fix: accept in-range shifts by u8 and i8

The width was truncated to the type of the shift amount. For 8-bit amounts it
became zero, so every shift panicked when overflow checks were on.
---
 src/shared/shift.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/shift.rs b/src/shared/shift.rs
index ae400c1..2390b6c 100644
--- a/src/shared/shift.rs
+++ b/src/shared/shift.rs
@@ -10,7 +10,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift left with overflow");
+                    assert!(other >= 0 && (other as u128) < Self::BITS as u128, "attempt to shift left with overflow");
                 }
                 self.wrapping_shl(other as u32)
             }
@@ -24,7 +24,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift right with overflow");
+                    assert!(other >= 0 && (other as u128) < Self::BITS as u128, "attempt to shift right with overflow");
                 }
                 self.wrapping_shr(other as u32)
             }
-- 
2.43.0


From 472c68e27faf000fa9fb64acc4e87eb21e2bfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:38 +0000
Subject: [PATCH 04/13] fix: keep 128-bit operands in limb order with 32-bit
 limbs

The second and fourth limbs were swapped when a 128-bit operand was widened,
so signed multiplication by u128 and i128 gave wrong products.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bb87e7b..9460bfb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -127,9 +127,9 @@ pub(crate) const fn u128_to_limb_n<const N: usize>(value: u128) -> [u32; N] {
 
     let mut result = [0; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
@@ -157,9 +157,9 @@ pub(crate) const fn i128_to_limb_n<const N: usize>(value: i128) -> [u32; N] {
     let value = value as u128;
     let mut result = [sign_bit; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
-- 
2.43.0


From 120f0c3751f5c7a3f981c168e009cd147ab2089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:38 +0000
Subject: [PATCH 05/13] fix: add and subtract 128-bit operands on signed types
 with 32-bit limbs

The operand is widened to the full width first, but the routine for a shorter
unsigned operand was called. It asserts that the operand is shorter, so every
call panicked, and it would have reported unsigned overflow.
---
 src/int/limb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/int/limb.rs b/src/int/limb.rs
index 7f7363f..d281b67 100644
--- a/src/int/limb.rs
+++ b/src/int/limb.rs
@@ -1001,7 +1001,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1022,7 +1022,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1044,7 +1044,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1066,7 +1066,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1652,7 +1652,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1673,7 +1673,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1694,7 +1694,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1715,7 +1715,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
-- 
2.43.0


From dde09208cd58bfdfa46db1db2036234362e75503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:10 +0000
Subject: [PATCH 06/13] fix: convert the unsigned value of MAX to the signed
 type

The bound excluded the largest value that fits.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index e43bc7d..72afb4e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -132,7 +132,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn try_from(u: $u_t) -> Result<Self, $crate::TryFromIntError> {
-                if u < Self::MAX.as_unsigned() {
+                if u <= Self::MAX.as_unsigned() {
                     Ok(u.as_signed())
                 } else {
                     Err($crate::TryFromIntError {})
-- 
2.43.0


From d4832227bb756fda319cf0da5dd02556ea7547c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:10 +0000
Subject: [PATCH 07/13] fix: reject a sign with no digits when parsing

A lone "+" or "-" was read as zero.
---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e3dcef8..af7c616 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -143,6 +143,9 @@ macro_rules! define {
                 Some(&b'-') => return Err(ParseIntError::new(IntErrorKind::NegOverflow)),
                 _ => false,
             };
+            if index == digits.len() {
+                return Err(ParseIntError::new(IntErrorKind::InvalidDigit));
+            }
             let overflow_digits = overflow_digits::<Self>(radix, $is_signed);
             let cannot_overflow = (digits.len() - index) <= overflow_digits;
 
-- 
2.43.0


From 91e92453cf7b4aaae1a498b299c5de9817d39967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:10 +0000
Subject: [PATCH 08/13] fix: write the digits of negative values in
 to_str_radix

The digits were taken from the signed value. Negative values produced a single
garbage character or a panic instead of a sign and the magnitude.
---
 src/write.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index adf1ff9..e0d1bff 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -27,7 +27,7 @@ macro_rules! define {
         /// This function panics if `radix` is not in the range from 2 to 36,
         /// or the buffer isn't large enough to hold the significant digits.
         #[inline]
-        pub fn to_str_radix(mut self, buffer: &mut [u8], radix: u32) -> &[u8] {
+        pub fn to_str_radix(self, buffer: &mut [u8], radix: u32) -> &[u8] {
             if !(2..=36).contains(&radix) {
                 core::panic!("from_str_radix_int: must lie in the range `[2, 36]`");
             }
@@ -44,21 +44,27 @@ macro_rules! define {
             } else {
                 1
             };
+            let magnitude = if is_negative {
+                self.wrapping_neg()
+            } else {
+                self
+            };
+            let mut value = magnitude.as_unsigned();
 
             // This isn't optimized at all.
             let mut rem: $crate::ULimb;
             let mut index = buffer.len();
-            let limit = Self::from_u32(radix);
-            while self.ge_const(limit) && index > start_index {
+            let limit = Self::from_u32(radix).as_unsigned();
+            while value.ge_const(limit) && index > start_index {
                 index -= 1;
-                (self, rem) = self.div_rem_ulimb(radix as $crate::ULimb);
+                (value, rem) = value.div_rem_ulimb(radix as $crate::ULimb);
                 buffer[index] = $crate::write::digit_to_char(rem as u32, radix);
             }
 
             // always have one trailing digit
-            assert!(self.lt_const(limit), "overflowed our buffer");
+            assert!(value.lt_const(limit), "overflowed our buffer");
             index -= 1;
-            buffer[index] = $crate::write::digit_to_char(self.get_limb(0) as u32, radix);
+            buffer[index] = $crate::write::digit_to_char(value.get_limb(0) as u32, radix);
 
             // write our negative sign, if required
             if is_negative {
-- 
2.43.0


From 111574e19ea5e7f8067cfbcb73073c22314807d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:10 +0000
Subject: [PATCH 09/13] fix: return None from checked_ilog for base one

The documented contract requires a base of at least two. With base one the
search loop never ended.
---
 src/uint/checked.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 27f454a..22087da 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -54,7 +54,8 @@ macro_rules! define {
         #[inline(always)]
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
-            if self == zero || base <= zero || self < base {
+            let one = Self::from_u8(1);
+            if self == zero || base <= one || self < base {
                 return None;
             }
 
-- 
2.43.0


From 8d2b5f7f025146e1bd5e7937d7d413431c0ea000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:55 +0000
Subject: [PATCH 10/13] fix: detect signed multiplication overflow just below
 MIN

Only the top limb of the magnitude was compared with that of MIN. A negative
product whose magnitude had that top limb and lower bits set was taken for
MIN, so checked multiplication returned a wrapped value.
---
 src/math/mul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mul.rs b/src/math/mul.rs
index ae516ec..4491f40 100644
--- a/src/math/mul.rs
+++ b/src/math/mul.rs
@@ -464,9 +464,9 @@ macro_rules! signed_define {
                 // wrap and it shouldn't be negative
                 // NOTE: We want to negate this, which will always work since
                 // `::MAX + 1` will wrap to min as expected.
-                let is_min = msl == <$s>::MIN;
                 r = negate!(r, M, $u);
-                (r, overflowed | (r_is_negative ^ is_min))
+                let is_min = (ne_index!(r[M - 1]) as $s) < 0;
+                (r, overflowed | (r_is_negative & !is_min))
             }
         }
 
-- 
2.43.0


From 17d28e9f60766276edcbee743c73e9159d5082b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:51 +0000
Subject: [PATCH 11/13] fix: give logarithm zero for numbers below the base

checked_ilog refused such numbers and ilog panicked, although both are
documented to fail only for zero or for a base below two. The signed
checked_ilog even panicked instead of refusing.
---
 src/uint/checked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 22087da..2ac578b 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -55,9 +55,12 @@ macro_rules! define {
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
             let one = Self::from_u8(1);
-            if self == zero || base <= one || self < base {
+            if self == zero || base <= one {
                 return None;
             }
+            if self < base {
+                return Some(0);
+            }
 
             // Since base >= self, n >= 1
             let mut n = 1;
-- 
2.43.0


From c98020b4bfab5e50cbc0fb6712576da6121528f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:51 +0000
Subject: [PATCH 12/13] fix: report overflow of signed carrying_add and
 borrowing_sub exactly

When the two partial steps overflow in opposite directions the result fits.
Unsigned steps never both overflow, so nothing changes for them.
---
 src/shared/bigint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/bigint.rs b/src/shared/bigint.rs
index b5b613f..ed6845f 100644
--- a/src/shared/bigint.rs
+++ b/src/shared/bigint.rs
@@ -23,7 +23,7 @@ macro_rules! define {
         pub const fn carrying_add(self, rhs: Self, carry: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_add(rhs);
             let (c, d) = a.overflowing_add_ulimb(carry as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
 
         /// Calculates `self` &minus; `rhs` &minus; `borrow` and returns a tuple
@@ -42,7 +42,7 @@ macro_rules! define {
         pub const fn borrowing_sub(self, rhs: Self, borrow: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_sub(rhs);
             let (c, d) = a.overflowing_sub_ulimb(borrow as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
     };
 }
-- 
2.43.0


From b950e4e3fd74d9f58f50a310bfb868ffef9958fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:59 +0000
Subject: [PATCH 13/13] fix: answer is_positive of zero with false in the
 num-traits impl

---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 72afb4e..9324f9e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -169,7 +169,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn is_positive(&self) -> bool {
-                *self >= <Self as ::num_traits::ConstZero>::ZERO
+                *self > <Self as ::num_traits::ConstZero>::ZERO
             }
 
             #[inline(always)]
-- 
2.43.0

