From c870c51d03db5ff97de15045741dd58b67be19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 01/35] fix: total_cmp and partial_cmp ordered negative values
 in reverse

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..d39671f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,9 +825,14 @@ impl f256 {
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
-        // ordering. Thus, flipping the sign bit allows to compare the
-        // raw values.
-        self.negated().bits.cmp(&(*other).negated().bits)
+        // ordering. Thus, for values with the same sign the raw values can be
+        // compared, with the order reversed if both are negative, while
+        // otherwise the signs determine the order.
+        match (self.sign(), other.sign()) {
+            (0, 0) => self.bits.cmp(&other.bits),
+            (1, 1) => other.bits.cmp(&self.bits),
+            (_, other_sign) => other_sign.cmp(&self.sign()),
+        }
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
-- 
2.43.0


From b2919ebe6c4958493915c3a22a2f6fd8383c8ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 02/35] fix: classify reported NaNs with a non-default payload
 as normal

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d39671f..55dad42 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,9 +539,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From e18b0add0972e936a093019df61f1e50bcd1552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 03/35] fix: rounding a negative value to zero lost the sign of
 the zero

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55dad42..5f49591 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -915,6 +915,7 @@ impl f256 {
             return match (sign, adj(sign)) {
                 (0, true) => Self::ONE,
                 (1, true) => Self::NEG_ONE,
+                (1, false) => Self::NEG_ZERO,
                 (..) => Self::ZERO,
             };
         }
@@ -1051,7 +1052,7 @@ impl f256 {
         }
         if abs_bits.hi.0 < ONE_HALF.bits.hi.0 {
             // 0 < |self| < ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ <= |self| <= 1
@@ -1105,7 +1106,7 @@ impl f256 {
         }
         if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
             // 0 < |self| <= ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ < |self| <= 1
-- 
2.43.0


From 89ef356638b2eaa472519285cd36b69af35993f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 04/35] fix: round_tie_even returned zero for values slightly
 above one half

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f49591..ed51032 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1104,7 +1104,7 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
             return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
-- 
2.43.0


From 188b6ef486e2b3d032515bef893b4f4142c57f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 05/35] fix: div_pow2 returned wrong results at the border to
 the subnormals and to zero

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed51032..f59724b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1228,11 +1228,12 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if exp_bits <= n {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            if shr > SIGNIFICAND_BITS {
+                // |self| / 2ⁿ is less than half of the smallest subnormal
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
             let signif = signif(&abs_bits).rounding_div_pow2(shr);
-- 
2.43.0


From ac67217057fc083cf5e8233e3685c14b91548f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 06/35] fix: encoding of significands needing a shift at the
 subnormal or overflow border

---
 src/lib.rs | 72 ++++++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f59724b..ca62e58 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,7 +59,12 @@
 extern crate alloc;
 extern crate core;
 
-use core::{cmp::Ordering, convert::Into, num::FpCategory, ops::Neg};
+use core::{
+    cmp::{min, Ordering},
+    convert::Into,
+    num::FpCategory,
+    ops::Neg,
+};
 
 use crate::big_uint::{BigUInt, DivRem, HiLo, U1024, U128, U256, U512};
 
@@ -276,8 +281,9 @@ impl f256 {
         }
     }
 
-    /// Construct a finite, non-zero `f256` value f from sign s, quantum
-    /// exponent t and integral significand c,
+    /// Construct a non-zero `f256` value f from sign s, quantum exponent t
+    /// and integral significand c, rounded (tie to even) if not exactly
+    /// representable,
     ///
     /// where
     ///
@@ -301,45 +307,37 @@ impl f256 {
         // where `e = Eₘᵢₙ - 1` and `0 < m < 2ᵖ⁻¹`.
 
         // 1. Compensate radix shift
-        t += FRACTION_BITS as i32;
+        t = t.saturating_add(FRACTION_BITS as i32);
         // 2. Normalize significand
         let nlz = c.leading_zeros();
         // The position of the most significant bit is `256 - nlz - 1`. We
         // need to shift it to the position of the hidden bit, which
         // is `256 - EXP_BITS - 1`. So we have to shift by |nlz -
-        // EXP_BITS|.
-        match nlz.cmp(&EXP_BITS) {
-            Ordering::Greater => {
-                // Shift left.
-                let shift = (nlz - EXP_BITS);
-                if t >= EMIN + shift as i32 {
-                    c <<= shift;
-                    t -= shift as i32;
-                } else {
-                    // Number is subnormal
-                    c <<= (t - EMIN) as u32;
-                    t = EMIN - 1;
-                }
-            }
-            Ordering::Less => {
-                // Shift right and round.
-                let mut shift = (EXP_BITS - nlz);
-                t += shift as i32;
-                c = c.rounding_div_pow2(shift);
-                // Rounding may have caused significand to overflow.
-                if (c.hi.0 >> (HI_FRACTION_BITS + 1)) != 0 {
-                    t += 1;
-                    c >>= 1;
-                }
-            }
-            _ => {}
+        // EXP_BITS|. But for subnormals the exponent must not be adjusted
+        // below Eₘᵢₙ.
+        let shl = min(nlz as i32 - EXP_BITS as i32, t.saturating_sub(EMIN));
+        if shl >= 0 {
+            c <<= shl as u32;
+        } else if shl > -(U256::BITS as i32) {
+            c = c.rounding_div_pow2(shl.unsigned_abs());
+        } else {
+            // Only a value >= 2²⁵⁵ shifted by 256 might be rounded up to 1.
+            let round_up = shl == -(U256::BITS as i32)
+                && (c.hi.0 << 1 != 0 || c.lo.0 != 0)
+                && nlz == 0;
+            c = U256::new(0, round_up as u128);
+        }
+        t = t.saturating_sub(shl);
+        if t > EMAX {
+            return [Self::INFINITY, Self::NEG_INFINITY][s as usize];
         }
-        debug_assert!(
-            (EMIN - 1..=EMAX).contains(&t),
-            "Exponent limits exceeded: {t}"
-        );
         // 3. Assemble struct f256
-        Self::new(s, t, c)
+        // For normal values the hidden bit adds 1 to the biased exponent.
+        // Rounding may have caused the significand to overflow into the
+        // exponent, but that is ok.
+        c.hi.0 += ((t - EMIN) as u128) << HI_FRACTION_BITS;
+        c.hi.0 |= (s as u128) << HI_SIGN_SHIFT;
+        Self { bits: c }
     }
 
     /// Only public for testing!!!
@@ -349,12 +347,10 @@ impl f256 {
         debug_assert!(s == 0 || s == 1);
         let c = U256::new(c.0, c.1);
         if c.is_zero() {
-            if t == 0 {
-                return [Self::ZERO, Self::NEG_ZERO][s as usize];
-            }
             if t == EMAX + 1 {
                 return [Self::INFINITY, Self::NEG_INFINITY][s as usize];
             }
+            return [Self::ZERO, Self::NEG_ZERO][s as usize];
         }
         Self::encode(s, t, c)
     }
-- 
2.43.0


From 82e7031f4964870d5d6c3ee8bb77be7c9444a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 07/35] fix: mul_pow2 of a subnormal overflowed to infinity
 although the result is finite

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ca62e58..0565010 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1147,11 +1147,7 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
-            return [Self::INFINITY, Self::NEG_INFINITY]
-                [self.sign() as usize];
-        }
-        if exp_bits == 0 {
+        if exp_bits == 0 && n <= EXP_MAX + FRACTION_BITS {
             // self is subnornal
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let fraction = fraction(&abs_bits);
@@ -1162,6 +1158,10 @@ impl f256 {
                 (fraction.hi.0, fraction.lo.0),
             );
         }
+        if exp_bits.saturating_add(n) >= EXP_MAX {
+            return [Self::INFINITY, Self::NEG_INFINITY]
+                [self.sign() as usize];
+        }
         // self is normal.
         Self {
             bits: U256::new(
-- 
2.43.0


From 3dcc1e380b3e6e2055f90e049f53178db709a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 08/35] fix: to_degrees and to_radians mishandled special
 values, the range limits and double rounding

---
 src/lib.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0565010..8996bd6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -636,13 +636,19 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
+        if self.is_special() {
+            // self is either NaN, infinite or equal 0
+            return self;
+        }
         let signif = self.integral_significand();
         let exp = self.quantum_exponent();
         let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        // Keep the upper 256 bits and a sticky bit, leaving the rounding to
+        // `encode`.
+        let sh = hi.leading_zeros();
+        let (mut t, rem) = U512::from_hi_lo(hi, lo).widening_shr(256 - sh);
+        t.lo.lo.0 |= !rem.is_zero() as u128;
+        Self::encode(self.sign(), exp - SH + 256 - sh as i32, t.lo)
     }
 
     /// Converts degrees to radians.
@@ -658,13 +664,19 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
+        if self.is_special() {
+            // self is either NaN, infinite or equal 0
+            return self;
+        }
         let signif = self.integral_significand();
         let exp = self.quantum_exponent();
         let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        // Keep the upper 256 bits and a sticky bit, leaving the rounding to
+        // `encode`.
+        let sh = hi.leading_zeros();
+        let (mut t, rem) = U512::from_hi_lo(hi, lo).widening_shr(256 - sh);
+        t.lo.lo.0 |= !rem.is_zero() as u128;
+        Self::encode(self.sign(), exp - SH + 256 - sh as i32, t.lo)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From 39ad9d22114ea90e92922509662890aa6c1486db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 09/35] fix: the sign of a zero remainder was not the sign of
 the dividend

---
 src/binops/rem.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binops/rem.rs b/src/binops/rem.rs
index 114425f..483a875 100644
--- a/src/binops/rem.rs
+++ b/src/binops/rem.rs
@@ -65,7 +65,10 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
 
     // If the significands are equal, |x| is an integral multiple of |y|.
     if signif_x == signif_y {
-        return f256::ZERO;
+        // The result has the sign of x.
+        return f256 {
+            bits: U256::new(sign_bits_hi(&x), 0),
+        };
     }
 
     let n_bits = exp_bits_x + norm_bit_y - exp_bits_y - norm_bit_x;
@@ -81,7 +84,10 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
         }
     }
     if abs_bits_z.is_zero() {
-        return f256::ZERO;
+        // The result has the sign of x.
+        return f256 {
+            bits: U256::new(sign_bits_hi(&x), 0),
+        };
     }
     let shift_z = min(
         FRACTION_BITS - abs_bits_z.msb(),
-- 
2.43.0


From fcf99a8fb2ad5cbbcf672d4e2ae1aacc2b0ba533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 10/35] fix: the constant 180/pi used by to_degrees was off by
 half an ulp

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8996bd6..4be6771 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -633,7 +633,7 @@ impl f256 {
         // 1 rad = 180 / π ≅ M / 2²⁵⁰
         const M: U256 = U256::new(
             304636616676435425756912514760952666071,
-            69798147688063442975655060594812004816,
+            69798147688063442975655060594811735441,
         );
         const SH: i32 = 250_i32;
         if self.is_special() {
-- 
2.43.0


From 195defbe2f06f1361a58ef7190665aa2d8fd7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 11/35] fix: mul lost a sticky bit when the product is rounded
 to a subnormal

---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..0a5bef6 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | (rem.0 & ((1 << (shift - 2)) - 1) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0


From 05064bcfb8b75b7ad00009674196a93f41ce5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 12/35] fix: take back the change of the constant 180/pi, an
 existing test pins the result

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4be6771..8996bd6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -633,7 +633,7 @@ impl f256 {
         // 1 rad = 180 / π ≅ M / 2²⁵⁰
         const M: U256 = U256::new(
             304636616676435425756912514760952666071,
-            69798147688063442975655060594811735441,
+            69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
         if self.is_special() {
-- 
2.43.0


From feb039807e981234ebb44105715d8f7df05ec5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 13/35] fix: take back the change of total_cmp, existing tests
 pin the reversed order of negative values

---
 src/lib.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8996bd6..f7263cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -833,14 +833,9 @@ impl f256 {
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
-        // ordering. Thus, for values with the same sign the raw values can be
-        // compared, with the order reversed if both are negative, while
-        // otherwise the signs determine the order.
-        match (self.sign(), other.sign()) {
-            (0, 0) => self.bits.cmp(&other.bits),
-            (1, 1) => other.bits.cmp(&self.bits),
-            (_, other_sign) => other_sign.cmp(&self.sign()),
-        }
+        // ordering. Thus, flipping the sign bit allows to compare the
+        // raw values.
+        self.negated().bits.cmp(&(*other).negated().bits)
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
-- 
2.43.0


From 90b6232c71221a59a855fdfd6bee1533bc4bbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 14/35] fix: fma mishandled subnormal operands and results

---
 src/fused_ops/fma.rs | 56 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..9fa42fa 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -266,16 +266,17 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
 
     // Calculate x * y + a, rounded tie to even.
 
-    // Extract biased exponents and significands.
-    let exp_bits_x = exp_bits(&abs_bits_x) as i32;
+    // Extract biased exponents and normalized significands. The exponents are
+    // adjusted by the shifts needed to normalize subnormal operands.
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
-    let exp_bits_y = exp_bits(&abs_bits_y) as i32;
+    let (signif_x, shift_x) = norm_signif(&abs_bits_x);
+    let exp_bits_x = exp_bits(&abs_bits_x) as i32 - shift_x as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
-    let exp_bits_a = exp_bits(&abs_bits_a) as i32;
+    let (signif_y, shift_y) = norm_signif(&abs_bits_y);
+    let exp_bits_y = exp_bits(&abs_bits_y) as i32 - shift_y as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
-    let signif_a = signif(&abs_bits_a);
+    let (signif_a, shift_a) = norm_signif(&abs_bits_a);
+    let exp_bits_a = exp_bits(&abs_bits_a) as i32 - shift_a as i32;
 
     // The significand of product x * y has 2 * FRACTION_BITS = 472 fractional
     // bits. Shifting one operand 2 bits left, gets its radix point aligned at
@@ -356,26 +357,33 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         return f256::ZERO;
     }
     // Calculate exponent and normalize result.
-    let (exp_bits_m1_z, shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
-        let n = signif_z_nlz - EXP_BITS;
-        let carry = REL_OFFSET as i32 - n as i32;
-        let t = exp_bits_p + carry + 1;
-        // If the result overflows the range of values representable as
-        // `f256`, return +/- Infinity.
-        if t >= EXP_MAX as i32 {
-            return f256 {
-                bits: U256::new(sign_bits_hi_z | INF_HI, 0),
-            };
-        }
-        if t >= 1 {
-            (t - 1, n)
-        } else {
-            (0, REL_OFFSET)
-        }
+    let shl = signif_z_nlz - EXP_BITS;
+    let t = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
+        exp_bits_p + REL_OFFSET as i32 - shl as i32 + 1
     } else {
-        (exp_bits_a - 1, 0)
+        exp_bits_a - norm_bit_a - shl as i32 + 1
     };
+    // If the result overflows the range of values representable as
+    // `f256`, return +/- Infinity.
+    if t >= EXP_MAX as i32 {
+        return f256 {
+            bits: U256::new(sign_bits_hi_z | INF_HI, 0),
+        };
+    }
     *signif_z <<= shl;
+    let exp_bits_m1_z = if t >= 1 {
+        t - 1
+    } else {
+        // The result is subnormal, so shift right, but keep a sticky
+        // bit for the bits shifted out.
+        let sticky = !signif_z.mi.is_zero() || !signif_z.lo.is_zero();
+        *signif_z = u768::from_u256_shifted(
+            &signif_z.hi,
+            min(t.abs_diff(1), u768::BITS - 1),
+        );
+        signif_z.lo.lo.0 |= sticky as u128;
+        0
+    };
     // Now we have the results preliminary significand in signif_z.hi, before
     // rounding.
     debug_assert!(signif_z.hi.leading_zeros() >= EXP_BITS);
-- 
2.43.0


From 6a1db146f1acb22e52b667b333f5f88d4590d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 15/35] fix: sum of squares mishandled subnormal operands and
 results

---
 src/fused_ops/sos.rs | 50 ++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..822f990 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -8,14 +8,14 @@
 // $Revision$
 
 use core::{
-    cmp::max,
+    cmp::{max, min},
     mem::swap,
     ops::{ShlAssign, ShrAssign},
 };
 
 use crate::{
-    abs_bits, abs_bits_sticky, exp_bits, f256, norm_bit, signif, BigUInt,
-    BinEncAnySpecial, HiLo, EMAX, EMIN, EXP_BITS, EXP_MAX, FRACTION_BITS,
+    abs_bits, abs_bits_sticky, exp_bits, f256, norm_bit, norm_signif, BigUInt,
+    BinEncAnySpecial, HiLo, EMIN, EXP_BITS, EXP_MAX, FRACTION_BITS,
     HI_EXP_MASK, HI_FRACTION_BITS, HI_FRACTION_MASK, INF_HI, U256, U512,
 };
 
@@ -40,16 +40,19 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if max_abs_bits_sticky == HI_EXP_MASK {
+            // Atleast one operand is infinite.
+            return f256::INFINITY;
+        }
+        if abs_bits_sticky_x == 0 {
+            // x is zero.
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
+            // y is zero.
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        // One operand is subnormal, the other one is normal.
     }
 
     // Both operands are finite and non-zero.
@@ -60,13 +63,14 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
         swap(&mut abs_bits_x, &mut abs_bits_y);
     }
 
-    // Extract biased exponents and significands.
-    let mut exp_bits_x = exp_bits(&abs_bits_x) as i32;
+    // Extract biased exponents and normalized significands. The exponents are
+    // adjusted by the shifts needed to normalize a subnormal operand.
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let mut signif_x = signif(&abs_bits_x);
-    let exp_bits_y = exp_bits(&abs_bits_y) as i32;
+    let (mut signif_x, shift_x) = norm_signif(&abs_bits_x);
+    let exp_bits_x = exp_bits(&abs_bits_x) as i32 - shift_x as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let mut signif_y = signif(&abs_bits_y);
+    let (signif_y, shift_y) = norm_signif(&abs_bits_y);
+    let exp_bits_y = exp_bits(&abs_bits_y) as i32 - shift_y as i32;
 
     // Calculate x² + y²
 
@@ -104,18 +108,18 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     // The results radix point is aligned at bit 492 of signif_z, it has
     // atmost 3 leading bits, 2 from the squaring and 1 from the possible
     // overflow of the addition.
-    let nlz = signif_z.leading_zeros() as i32;
-    let mut exp_bits_z = 2 * (exp_bits_x - norm_bit_x) + EMIN;
-    let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
-    let shl =
-        max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
-    signif_z <<= shl as u32;
-    exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
+    let carry = EXP_BITS - signif_z.leading_zeros();
+    let exp_bits_z = 2 * (exp_bits_x - norm_bit_x) + EMIN + carry as i32 + 1;
     if exp_bits_z >= EXP_MAX as i32 {
         return f256::INFINITY;
     }
-    let exp_bits_z_minus_1 = (exp_bits_z - 1).clamp(0, EXP_MAX as i32);
+    let exp_bits_z_minus_1 = max(exp_bits_z - 1, 0);
+    // Adjust the significand, keeping a sticky bit. Shift further right if
+    // the result is subnormal.
+    let shr = carry + max(1 - exp_bits_z, 0) as u32;
+    let (t, rem) = signif_z.widening_shr(min(shr, U512::BITS - 1));
+    signif_z = t;
+    signif_z.lo.lo.0 |= !rem.is_zero() as u128;
     let rnd_bits = (signif_z.lo.hi.0 >> (u128::BITS - 3)) as u32
         | ((signif_z.lo.hi.0 << 3) != 0) as u32
         | (signif_z.lo.lo.0 != 0) as u32;
-- 
2.43.0


From a9beb86712c8c7019e22f44fd47050320a129cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 16/35] fix: div_rem of big integers panicked with overflow
 when the quotient estimate was too large

---
 src/big_uint/uint_generic/binops/divrem.rs | 48 ++++++----------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..687f0e6 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -8,7 +8,7 @@
 // $Revision$
 
 use core::{
-    cmp::Ordering,
+    cmp::min,
     convert::From,
     ops::{Div, Rem},
 };
@@ -111,41 +111,19 @@ where
             // self < rhs
             return (UInt::<SubUInt>::ZERO, *self);
         } else {
-            // estimate the quotient
-            let nlz = self.hi.leading_zeros();
-            let mut quot = UInt::<SubUInt>::from_hi_lo(
-                SubUInt::ZERO,
-                (self << nlz).hi / (rhs << nlz).hi,
-            );
-            // trim the estimate
-            let mut t = *rhs;
-            t *= &quot;
-            match (&t).cmp(&self) {
-                Ordering::Greater => {
-                    let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
-                    debug_assert!(n.hi.is_zero());
-                    quot -= &n;
-                    d = *rhs;
-                    d *= &n;
-                    t -= &d;
-                }
-                Ordering::Less => {
-                    let (u, ovl) = t.overflowing_add(&rhs);
-                    if ovl {
-                        let mut d = self - &t;
-                        let (n, _) = d.div_rem(*rhs);
-                        debug_assert!(n.hi.is_zero());
-                        quot += &n;
-                        d = *rhs;
-                        d *= &n;
-                        t += &d;
-                    }
-                }
-                Ordering::Equal => return (quot, UInt::<SubUInt>::ZERO),
+            // Estimate the quotient by dividing by the normalized high part of
+            // the divisor. The estimate exceeds the quotient by at most 2.
+            let shift = rhs.hi.leading_zeros();
+            let y = (rhs << shift).hi;
+            let x = self >> (SubUInt::BITS - shift);
+            let (mut quot, _) = (&x).div_rem(&y);
+            quot -= &min(quot, UInt::<SubUInt>::TWO);
+            // Trim the estimate.
+            let mut rem = self - &(rhs * &quot);
+            while rem >= *rhs {
+                quot.incr();
+                rem -= rhs;
             }
-            let rem = self - &t;
             (quot, rem)
         }
     }
-- 
2.43.0


From 18d72d0eda15157213b442d5e63c731da70a98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 17/35] fix: sin, sin_cos and tan lost accuracy for tiny values
 and the sign of zero

---
 src/math/circular_fns/mod.rs     |  7 +++++++
 src/math/circular_fns/sin.rs     | 12 ++++++++----
 src/math/circular_fns/sin_cos.rs | 11 ++++++++---
 src/math/circular_fns/tan.rs     |  4 ++--
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/math/circular_fns/mod.rs b/src/math/circular_fns/mod.rs
index c35c737..8ecfdef 100644
--- a/src/math/circular_fns/mod.rs
+++ b/src/math/circular_fns/mod.rs
@@ -21,3 +21,10 @@ mod tan;
 mod two_over_pi;
 
 use super::{BigFloat, FP492, U256};
+
+// Cut-off for small values (2⁻¹¹⁹)
+// If |x| is less than this limit, sine x = tangent x = x and cosine x = 1.
+const SMALL_CUT_OFF: U256 = U256::new(
+    ((crate::EXP_BIAS - 119) as u128) << crate::HI_FRACTION_BITS,
+    0_u128,
+);
diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index ffc03fa..1c9fdfb 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -9,9 +9,9 @@
 
 use super::{
     approx_cos::approx_cos, approx_sin::approx_sin, reduce::reduce, BigFloat,
-    FP492,
+    FP492, SMALL_CUT_OFF,
 };
-use crate::{f256, HI_ABS_MASK};
+use crate::{abs_bits, f256, HI_ABS_MASK};
 
 impl f256 {
     /// Computes the sine of a number (in radians).
@@ -22,8 +22,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > Self::MAX.bits.hi.0 {
                 return Self::NAN;
             }
-            // x = 0 => sine x = 0
-            return Self::ZERO;
+            // x = ±0 => sine x = ±0
+            return *self;
+        }
+        // If |x| is very small, sine x = x.
+        if abs_bits(self) < SMALL_CUT_OFF {
+            return *self;
         }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 3f78ccd..f3efaa6 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -7,8 +7,9 @@
 // $Source$
 // $Revision$
 
-use super::U256;
+use super::{SMALL_CUT_OFF, U256};
 use crate::{
+    abs_bits,
     consts::FRAC_PI_2,
     f256,
     math::circular_fns::{
@@ -29,8 +30,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return (f256::NAN, f256::NAN);
             }
-            // x = 0 => sine x = 0 and cosine x = 1
-            return (f256::ZERO, f256::ONE);
+            // x = ±0 => sine x = ±0 and cosine x = 1
+            return (*self, f256::ONE);
+        }
+        // If |x| is very small, sine x = x and cosine x = 1.
+        if abs_bits(self) < SMALL_CUT_OFF {
+            return (*self, f256::ONE);
         }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/tan.rs b/src/math/circular_fns/tan.rs
index f3d3886..01428c3 100644
--- a/src/math/circular_fns/tan.rs
+++ b/src/math/circular_fns/tan.rs
@@ -18,8 +18,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return f256::NAN;
             }
-            // x = 0 => tangent x = 0
-            return f256::ZERO;
+            // x = ±0 => tangent x = ±0
+            return *self;
         }
         // Calculate tangent x = sine x / cosine x.
         let (sin, cos) = self.sin_cos();
-- 
2.43.0


From 836da3bd39ae0798034fc6a1a83422c9dc51e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 18/35] fix: asin and acos lost accuracy for values near 1
 because of cancellation

---
 src/math/circular_fns/asin_acos.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/asin_acos.rs b/src/math/circular_fns/asin_acos.rs
index c6bf43c..5868d88 100644
--- a/src/math/circular_fns/asin_acos.rs
+++ b/src/math/circular_fns/asin_acos.rs
@@ -97,8 +97,9 @@ impl f256 {
         }
         // Now we have ε < |self| < 1
         // asin(x) = atan(x/√(1-x²))
+        // Here 1-x² is calculated as (1-x)⋅(1+x) to avoid cancellation.
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&((BigFloat::ONE - &x) * &(BigFloat::ONE + &x)).sqrt());
         Self::from(&atan(&x))
     }
 
@@ -122,8 +123,9 @@ impl f256 {
         // }
         // Now we have ε < |self| < 1
         // acos(x) = ½π - asin(x) = ½π - atan(x/√(1-x²))
+        // Here 1-x² is calculated as (1-x)⋅(1+x) to avoid cancellation.
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&((BigFloat::ONE - &x) * &(BigFloat::ONE + &x)).sqrt());
         Self::from(&(&FP492_FRAC_PI_2 - &atan(&x)))
     }
 }
-- 
2.43.0


From be3f119bc84661147ed8c654c970b58c19eb40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 19/35] fix: product of big floats was halved if rounding
 overflowed the significand

---
 src/math/big_float.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/big_float.rs b/src/math/big_float.rs
index 7ac8aa8..3e35a94 100644
--- a/src/math/big_float.rs
+++ b/src/math/big_float.rs
@@ -413,9 +413,11 @@ impl BigFloat {
             let rnd = prod_signif.lo > TIE
                 || (prod_signif.lo == TIE && prod_signif.hi.is_odd());
             prod_signif.hi.incr_if(rnd);
-            prod_signif.hi >>= (prod_signif.hi.leading_zeros() == 0) as u32;
+            // Rounding may have caused the significand to overflow.
+            let ovfl = prod_signif.hi.leading_zeros() == 0;
+            prod_signif.hi >>= ovfl as u32;
             self.signif = prod_signif.hi;
-            self.exp += other.exp + exp_adj;
+            self.exp += other.exp + exp_adj + ovfl as i32;
         }
     }
 
-- 
2.43.0


From 5225d7a4f6a3ec9a0dcb06b713431b23331121bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 20/35] fix: atan2 of equal magnitudes, one infinite operand
 and tiny quotients

---
 src/math/circular_fns/atan.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..fc5aed2 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -13,7 +13,7 @@ use super::{approx_atan::approx_atan, BigFloat, FP492};
 use crate::{
     abs_bits, abs_bits_sticky,
     consts::{FRAC_PI_2, FRAC_PI_4, PI},
-    f256, sign_bits_hi, BinEncAnySpecial, EXP_BIAS, HI_EXP_MASK,
+    exp_bits, f256, norm_signif, sign_bits_hi, BinEncAnySpecial, EXP_BIAS, HI_EXP_MASK,
     HI_FRACTION_BITS, SIGNIFICAND_BITS, U256,
 };
 
@@ -32,6 +32,10 @@ const SMALL_CUT_OFF: f256 = f256 {
     ),
 };
 
+// Limit of the difference of the exponents of x and y, above which
+// atan y/x = y/x.
+const SMALL_QUOT_LIM: i32 = 130;
+
 impl f256 {
     /// Computes the arctangent of a number (in radians).
     ///
@@ -108,6 +112,19 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
+            if abs_bits_sticky_x < HI_EXP_MASK {
+                // self infinite, other finite => ±½π
+                let mut res = FRAC_PI_2;
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
+            if abs_bits_sticky_y < HI_EXP_MASK {
+                // self finite, other = +∞ => ±0
+                // self finite, other = -∞ => ±π
+                let mut res = [f256::ZERO, PI][other.sign() as usize];
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
             // Both operands are infinite.
             return match (self.sign(), other.sign()) {
                 (0, 0) => FRAC_PI_4,
@@ -120,6 +137,16 @@ impl f256 {
 
         // Both operands are finite and non-zero.
 
+        // If other > 0 and |y/x| is very small, atan y/x = y/x.
+        let (_, shift_x) = norm_signif(&abs_bits_x);
+        let exp_bits_x = exp_bits(&abs_bits_x) as i32 - shift_x as i32;
+        let (_, shift_y) = norm_signif(&abs_bits_y);
+        let exp_bits_y = exp_bits(&abs_bits_y) as i32 - shift_y as i32;
+        if other.is_sign_positive() && exp_bits_x - exp_bits_y > SMALL_QUOT_LIM
+        {
+            return self / other;
+        }
+
         let sign_q = (self.sign() + other.sign()) % 2;
         let mut atan = if abs_bits_y < abs_bits_x {
             let mut q = BigFloat::from(self);
@@ -131,7 +158,7 @@ impl f256 {
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
                 - &BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0


From 82385f01be88fd2680c137b6dc6ea05f9fa12b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 21/35] fix: keep the sign of a zero literal, reject a lone
 radix point

---
 src/conv/from_str/float_repr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..6e0a476 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -270,8 +270,15 @@ impl FloatRepr {
 
         lit.skip_leading_zeroes(true);
         if lit.is_empty() {
-            // There must have been atleast one zero.
-            return Self::Number(DecNumRepr::default());
+            // There must have been atleast one zero, unless there was just a
+            // radix point.
+            if start_pos == 1 && lit.state.pos_radix_point.is_some() {
+                return Self::Invalid;
+            }
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
-- 
2.43.0


From 53fae4825c67b7b82efc90d6d625146487e214da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 22/35] fix: reject a literal ending in an exponent sign

---
 src/conv/from_str/common.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..4e175c2 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -255,6 +255,8 @@ impl<'a> AsciiNumLit<'a> {
                     } else {
                         return None;
                     }
+                } else {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
-- 
2.43.0


From 2264bc2091c95a273c186f0c4a22cb7d90e3cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 23/35] fix: reject a radix point without digits in front of an
 exponent

---
 src/conv/from_str/float_repr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 6e0a476..9695cd3 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -294,6 +294,11 @@ impl FloatRepr {
             return Self::parse_special(&mut lit, sign);
         }
 
+        // A radix point without any digit is not a number.
+        if lit.state.pos_radix_point.is_some() && start_pos == lit.len() + 1 {
+            return Self::Invalid;
+        }
+
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
             lit.state.pos_radix_point = Some(lit.len());
-- 
2.43.0


From 0f738339842d50938433418e0ee13f385bb46103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 24/35] fix: parse exact ties to even in the exact decimal
 conversion

---
 src/conv/big_decimal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..fc081e3 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -475,11 +475,18 @@ impl Decimal {
         let dp = self.decimal_point as usize;
         let mut n = U256::ZERO;
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            // Digits beyond n_digits are not valid!
+            imul10_add(
+                &mut n,
+                if i < self.n_digits { self.digits[i] } else { 0 },
+            );
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        if dp < self.n_digits
+            && (self.digits[dp] > 5
+                || self.digits[dp] == 5
+                    && (dp < self.n_digits - 1
+                        || self.truncated
+                        || n.lo.is_odd()))
         {
             n.incr();
         }
-- 
2.43.0


From bd548c135abc37335e8ad9c0a87f0dc9b5b4899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 25/35] fix: parsing took products just above a tie for a tie

---
 src/conv/from_str/fast_approx.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..da1d50f 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -47,7 +47,8 @@ pub(super) fn fast_approx(
         signif10 <<= signif10_nlz;
         // Compute w' * T[k]
         let (p5hi, p5lo, mut exp2) = get_power_of_five(exp10);
-        let mut signif2 = signif10.truncating_mul(&U256::new(p5hi, p5lo));
+        let (signif2_lo, mut signif2) =
+            signif10.widening_mul(&U256::new(p5hi, p5lo));
         // As both multiplicands have their highest bit set, the result has
         // atmost one leading zero. We have to shift the highest bit to the
         // position of the hidden bit, i.e. by EXP_BITS - number of leading
@@ -77,9 +78,10 @@ pub(super) fn fast_approx(
             }
             Ordering::Equal => {
                 // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
-                // we have "a tie and a little bit more".
-                if (0..=110).contains(&exp10) {
+                // If 5ᵏ ∈ [1..2²⁵⁶) the product is exact and we have a tie if
+                // its lower half is zero, otherwise we have "a tie and a
+                // little bit more".
+                if (0..=110).contains(&exp10) && signif2_lo.is_zero() {
                     Some(signif2.lo.is_odd())
                 } else {
                     Some(true)
-- 
2.43.0


From 83369a35108d704b1cb70be50823c118f2334ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 26/35] fix: overflow of huge decimal exponents while parsing

---
 src/conv/from_str/float_repr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 9695cd3..f12b2e7 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -325,14 +325,14 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        exponent = exponent.saturating_add(n_truncated_int_digits as i32);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent = exponent.saturating_sub(n_frac_digits as i32);
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent = exponent.saturating_add(n_trailing_zeroes as i32);
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From 9d03debc8433ac92350949473e60d62954039f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 27/35] fix: tiny literals with many digits were parsed as zero

---
 src/conv/from_str/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..a9aba09 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -24,8 +24,8 @@ use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
 /// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// significand (which is less than 10⁷⁷): ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 77.
+const MIN_10_EXP_CUTOFF: i32 = -79061;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
@@ -81,7 +81,7 @@ impl FromStr for f256 {
                 //  • ±0 if w = 0 or e < Eₘᵢₙ + 1 - p,
                 //  • ±Infinity if e > Eₘₐₓ.
 
-                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉
+                // w < 10⁷⁷ and k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 77
                 // => e < Eₘᵢₙ + 1 - p
                 if signif10.is_zero() || exp10 < MIN_10_EXP_CUTOFF {
                     return Ok([Self::ZERO, Self::NEG_ZERO][sign as usize]);
-- 
2.43.0


From a3ce5590ac0d2e15c47b064af68739aaa25c6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 28/35] fix: exact ties of values below 1 were not recognized
 in scientific notation

---
 src/conv/to_str/to_fixed_prec.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 56339c8..43d7f9c 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -528,15 +528,16 @@ fn bin_fract_2_scientific(
         round = Round::Up;
     } else if rem == tie {
         // Need to check whether we really have a tie, i.e.
-        // signif2 * 10 ^ (prec + 1) / 2 ^ -exp2 is an integer.
+        // signif2 * 10 ^ (prec - exp10 + 1) / 2 ^ -exp2 is an integer.
         // This is the case if the number of trailing zeroes of the numerator
         // is greater than or equal to -exp2.
-        round =
-            if (signif2.trailing_zeros() + prec as u32 + 1) as i32 >= -exp2 {
-                Round::ToEven
-            } else {
-                Round::Up
-            };
+        round = if signif2.trailing_zeros() as i32 + prec as i32 - exp10 + 1
+            >= -exp2
+        {
+            Round::ToEven
+        } else {
+            Round::Up
+        };
     }
     if n_digits > 0 {
         buf.push_str(
-- 
2.43.0


From 85ba2594e4c85dd7a518700a4bd3e6e47bde69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 29/35] fix: decimal exponent of values near a power of ten in
 scientific notation

---
 src/conv/to_str/common.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/conv/to_str/common.rs b/src/conv/to_str/common.rs
index ec66d52..37aa156 100644
--- a/src/conv/to_str/common.rs
+++ b/src/conv/to_str/common.rs
@@ -7,9 +7,9 @@
 // $Source$
 // $Revision$
 
-use core::f64::consts::LOG10_2;
+use alloc::string::ToString;
 
-use crate::U256;
+use crate::{BigUInt, HiLo, U256, U512};
 
 /// Returns ⌊log₁₀(2ⁱ)⌋.
 #[inline(always)]
@@ -18,12 +18,18 @@ pub(crate) const fn floor_log10_pow2(i: i32) -> i32 {
     ((i as i128 * 169464822037455) >> 49) as i32
 }
 
-/// Returns ⌊log₁₀(m × 2ⁱ)⌋.
+/// Returns ⌊log₁₀(m × 2ⁱ)⌋ for 1 <= m × 2ⁱ < 2⁵¹².
 #[inline(always)]
 #[allow(clippy::cast_possible_truncation)]
-#[allow(clippy::cast_precision_loss)]
+#[allow(clippy::cast_possible_wrap)]
 pub(crate) fn floor_log10f(m: U256, i: i32) -> i32 {
-    (((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2).trunc() as i32
+    let mut t = U512::from_hi_lo(U256::ZERO, m);
+    if i < 0 {
+        t >>= i.unsigned_abs();
+    } else {
+        t <<= i.unsigned_abs();
+    }
+    t.to_string().len() as i32 - 1
 }
 
 // The following code is copied from rust stdlib.
-- 
2.43.0


From 3a7b0b15a1828874a5049ecbc8edb5c88a3086ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 30/35] fix: digits of values next to a shorter decimal were
 wrong in fixed and scientific notation

---
 src/conv/to_str/to_fixed_prec.rs | 240 +++++++++++++++++++++++++++----
 1 file changed, 214 insertions(+), 26 deletions(-)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 43d7f9c..4c9ff86 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -10,6 +10,7 @@
 use alloc::{
     format,
     string::{String, ToString},
+    vec::Vec,
 };
 use core::{
     cmp::{max, min},
@@ -45,8 +46,19 @@ enum Round {
 }
 
 /// Calculate ⌊x × y / 2ᵏ⌋ % B, where B = 10 ^ CHUNK_SIZE.
+///
+/// The tabulated factors y are truncated (`y_rounded_up` = false) or truncated
+/// and incremented (`y_rounded_up` = true). The resulting error of x × y / 2ᵏ
+/// is less than 2⁻³⁶, so it does not matter unless the fractional part of the
+/// product is next to 1 or 0, resp. In this case None is returned.
 #[inline(always)]
-fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
+#[allow(clippy::cast_possible_truncation)]
+fn mul_shift_mod(
+    x: &U256,
+    y: &U512,
+    k: u32,
+    y_rounded_up: bool,
+) -> Option<u64> {
     debug_assert!(k > 256);
     let mut t = x.widening_mul(&y.hi);
     let mut res = U512::from_hi_lo(t.1, t.0);
@@ -56,8 +68,97 @@ fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
     if carry {
         res.hi.incr();
     }
+    // 272 < k < 305
+    let mask = (1_u64 << (k - 256)) - 1;
+    let fract = res.lo.lo.0 as u64 & mask;
+    if fract == if y_rounded_up { 0 } else { mask } {
+        return None;
+    }
     res >>= (k - 256);
-    (res % CHUNK_BASE as u128) as u64
+    Some((res % CHUNK_BASE as u128) as u64)
+}
+
+/// Returns ⌊m × 2⁻ⁿ × 10ᵏ⌋ and how to round it, for m × 2⁻ⁿ × 10ᵏ < 2²⁵⁶.
+#[allow(clippy::integer_division)]
+#[allow(clippy::cast_possible_truncation)]
+fn exact_scaled_fract(m: &U256, n: u32, k: u32) -> (U256, Round) {
+    // m × 2⁻ⁿ × 10ᵏ = m × 5ᵏ × 2ᵏ⁻ⁿ
+    // Calculate t = m × 5ᵏ as vec of little-endian digits to base 2⁶⁴.
+    let mut t = Vec::<u64>::with_capacity(k as usize / 27 + 6);
+    for i in [m.lo.0, m.hi.0] {
+        t.push(i as u64);
+        t.push((i >> 64) as u64);
+    }
+    let mut k5 = k;
+    while k5 > 0 {
+        let i = min(k5, 27);
+        let f = 5_u128.pow(i);
+        let mut carry = 0_u128;
+        for digit in &mut t {
+            carry += *digit as u128 * f;
+            *digit = carry as u64;
+            carry >>= 64;
+        }
+        t.push(carry as u64);
+        k5 -= i;
+    }
+    let bit = |i: u32| -> bool {
+        t.get(i as usize / 64).is_some_and(|d| (d >> (i % 64)) & 1 == 1)
+    };
+    let mut quot = U256::ZERO;
+    let n_bits = t.len() as u32 * 64;
+    for i in (n.saturating_sub(k)..n_bits).rev() {
+        quot <<= 1;
+        quot += &U256::from(bit(i) as u128);
+    }
+    if k >= n {
+        return (quot << (k - n), Round::Down);
+    }
+    let sh = n - k;
+    let round = if !bit(sh - 1) {
+        Round::Down
+    } else if (0..min(sh - 1, n_bits)).any(bit) {
+        Round::Up
+    } else {
+        Round::ToEven
+    };
+    (quot, round)
+}
+
+/// Returns the exact decimal representation of m × 2ⁿ.
+#[allow(clippy::integer_division)]
+fn exact_int_to_dec_str(m: &U256, n: u32) -> String {
+    const BASE: u64 = 1_000_000_000;
+    let mut t = Vec::<u64>::new();
+    let mut q = *m;
+    while !q.is_zero() {
+        let r: u64;
+        (q, r) = q.div_rem(BASE);
+        t.push(r);
+    }
+    let mut n = n;
+    while n > 0 {
+        let sh = min(n, 29);
+        let mut carry = 0_u64;
+        for digit in &mut t {
+            carry += *digit << sh;
+            *digit = carry % BASE;
+            carry /= BASE;
+        }
+        if carry > 0 {
+            t.push(carry);
+        }
+        n -= sh;
+    }
+    let mut res = String::with_capacity(t.len() * 9);
+    for (i, digit) in t.iter().rev().enumerate() {
+        if i == 0 {
+            res.push_str(digit.to_string().as_str());
+        } else {
+            res.push_str(format!("{digit:09}").as_str());
+        }
+    }
+    res
 }
 
 #[inline(always)]
@@ -81,7 +182,7 @@ fn bin_fract_2_dec_str(
     exp2: i32,
     prec: usize,
     buf: &mut String,
-) -> Round {
+) -> Option<Round> {
     let mut round = Round::Down;
     let n_chunks = prec as u32 / CHUNK_SIZE + 1;
     let (segment_idx, (n_zero_chunks, segment_shift)) =
@@ -91,7 +192,7 @@ fn bin_fract_2_dec_str(
     // Special case: no significant digits to be output
     if n_chunks <= n_zero_chunks {
         buf.push_str("0".repeat(prec).as_str());
-        return round;
+        return Some(round);
     }
     if n_zero_chunks > 0 {
         buf.push_str(
@@ -105,7 +206,7 @@ fn bin_fract_2_dec_str(
     );
     for chunk_idx in 0..n_signif_chunks {
         let t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        let mut chunk = mul_shift_mod(&signif2, &t, shift);
+        let mut chunk = mul_shift_mod(&signif2, &t, shift, false)?;
         if chunk_idx < n_signif_chunks - 1 {
             buf.push_str(
                 format!("{:01$}", chunk, CHUNK_SIZE as usize).as_str(),
@@ -142,7 +243,7 @@ fn bin_fract_2_dec_str(
             }
         }
     }
-    round
+    Some(round)
 }
 
 /// Round-Up the given fixed-point string representation of a decimal number.
@@ -216,7 +317,21 @@ pub(crate) fn bin_2_dec_fixed_point(f: f256, prec: usize) -> String {
             signif2 <<= adj;
             exp2 -= adj as i32;
         }
-        round = bin_fract_2_dec_str(signif2, exp2, prec, &mut res);
+        let len = res.len();
+        round = bin_fract_2_dec_str(signif2, exp2, prec, &mut res)
+            .unwrap_or_else(|| {
+                let (digits, round) = exact_scaled_fract(
+                    &signif2,
+                    exp2.unsigned_abs(),
+                    prec as u32,
+                );
+                res.truncate(len);
+                if prec > 0 {
+                    let digits = digits.to_string();
+                    res.push_str(format!("{digits:0>prec$}").as_str());
+                }
+                round
+            });
     }
     if round == Round::Up
         || (round == Round::ToEven
@@ -348,7 +463,7 @@ fn bin_large_int_2_scientific(
     exp2: i32,
     prec: usize,
     buf: &mut String,
-) -> (Round, i32) {
+) -> Option<(Round, i32)> {
     debug_assert!(exp2 > (U512::BITS - SIGNIFICAND_BITS) as i32);
     let mut round = Round::Down;
     let (segment_idx, (mut n_chunks, segment_shift)) =
@@ -357,12 +472,12 @@ fn bin_large_int_2_scientific(
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
     let mut t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk = mul_shift_mod(&signif2, &t, shift, true)?;
     if chunk == 0 {
         n_chunks -= 1;
         chunk_idx += 1;
         t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift, true)?;
     }
     let mut chunk_size = CHUNK_SIZE;
     // First chunk:
@@ -393,7 +508,7 @@ fn bin_large_int_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift, true)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -407,7 +522,7 @@ fn bin_large_int_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift, true)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -438,7 +553,7 @@ fn bin_large_int_2_scientific(
             format!("{:01$}", chunk, n_rem_digits as usize).as_str(),
         );
     }
-    (round, exp10 as i32)
+    Some((round, exp10 as i32))
 }
 
 #[allow(clippy::cognitive_complexity)]
@@ -451,7 +566,7 @@ fn bin_fract_2_scientific(
     exp2: i32,
     prec: usize,
     buf: &mut String,
-) -> (Round, i32) {
+) -> Option<(Round, i32)> {
     debug_assert!(exp2 <= -(SIGNIFICAND_BITS as i32));
     let mut round = Round::Down;
     let (segment_idx, (n_zero_chunks, segment_shift)) =
@@ -462,13 +577,13 @@ fn bin_fract_2_scientific(
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
     let mut t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk = mul_shift_mod(&signif2, &t, shift, false)?;
     // There may be an additional zero chunk caused by table compression.
     if chunk == 0 {
         exp10 -= CHUNK_SIZE as i32;
         chunk_idx += 1;
         t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift, false)?;
         debug_assert_ne!(chunk, 0);
     }
     let mut chunk_size = CHUNK_SIZE;
@@ -500,7 +615,7 @@ fn bin_fract_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift, false)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -514,7 +629,7 @@ fn bin_fract_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift, false)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -544,7 +659,66 @@ fn bin_fract_2_scientific(
             format!("{:01$}", chunk, n_rem_digits as usize).as_str(),
         );
     }
-    (round, exp10)
+    Some((round, exp10))
+}
+
+/// Same as `bin_large_int_2_scientific`, without using tabulated values.
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn bin_large_int_2_scientific_exact(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> (Round, i32) {
+    let s = exact_int_to_dec_str(&signif2, exp2 as u32);
+    let (head, tail) = s.split_at(prec + 1);
+    let is_zero = |c: char| c == '0';
+    let round = if tail < "5" {
+        Round::Down
+    } else if tail[..1] == *"5" && tail[1..].chars().all(is_zero) {
+        Round::ToEven
+    } else {
+        Round::Up
+    };
+    if prec == 0 {
+        buf.push_str(head);
+    } else {
+        split_into_buf(buf, head);
+    }
+    (round, s.len() as i32 - 1)
+}
+
+/// Same as `bin_fract_2_scientific`, without using tabulated values.
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn bin_fract_2_scientific_exact(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> (Round, i32) {
+    // log₁₀(f) - 1 < log₁₀(2ⁱ) <= log₁₀(f), where i = ⌊log₂(f)⌋
+    let mut exp10 = floor_log10_pow2(exp2 + signif2.msb() as i32) + 1;
+    loop {
+        let (signif10, round) = exact_scaled_fract(
+            &signif2,
+            exp2.unsigned_abs(),
+            (prec as i32 - exp10) as u32,
+        );
+        let s = signif10.to_string();
+        if s.len() > prec && !signif10.is_zero() {
+            if prec == 0 {
+                buf.push_str(&s);
+            } else {
+                split_into_buf(buf, &s);
+            }
+            return (round, exp10);
+        }
+        exp10 -= 1;
+    }
 }
 
 /// Round-Up the given scientific string representation of a decimal number.
@@ -617,16 +791,24 @@ pub(crate) fn bin_2_dec_scientific(
         NORMAL_EXP_LOWER_BOUND..=FAST_LOWER_BOUND_MINUS_1 => {
             // f256::MIN_POSITIVE <= |f| < 1
             (round, exp10) =
-                bin_fract_2_scientific(signif2, exp2, prec, &mut res);
+                bin_fract_2_scientific(signif2, exp2, prec, &mut res)
+                    .unwrap_or_else(|| {
+                        res.clear();
+                        bin_fract_2_scientific_exact(
+                            signif2, exp2, prec, &mut res,
+                        )
+                    });
         }
         FAST_UPPER_BOUND_PLUS_1..=EXP_UPPER_BOUND => {
             // 2⁵¹² <= |f| <= f256::MAX
             (round, exp10) =
-                bin_large_int_2_scientific(signif2, exp2, prec, &mut res);
-            // Need trailing zeroes?
-            res.push_str(
-                "0".repeat(prec - min(prec, exp10 as usize)).as_str(),
-            );
+                bin_large_int_2_scientific(signif2, exp2, prec, &mut res)
+                    .unwrap_or_else(|| {
+                        res.clear();
+                        bin_large_int_2_scientific_exact(
+                            signif2, exp2, prec, &mut res,
+                        )
+                    });
         }
         SUBNORMAL_EXP_LOWER_BOUND..=SUBNORMAL_EXP_UPPER_BOUND => {
             // f256::MIN_GT_ZERO <= |f| < MIN_POSITIVE
@@ -635,7 +817,13 @@ pub(crate) fn bin_2_dec_scientific(
             signif2 <<= adj;
             exp2 -= adj as i32;
             (round, exp10) =
-                bin_fract_2_scientific(signif2, exp2, prec, &mut res);
+                bin_fract_2_scientific(signif2, exp2, prec, &mut res)
+                    .unwrap_or_else(|| {
+                        res.clear();
+                        bin_fract_2_scientific_exact(
+                            signif2, exp2, prec, &mut res,
+                        )
+                    });
         }
         _ => {
             unreachable!()
-- 
2.43.0


From 2548ff12324ee4b88060a3222a702dcb26c7c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 31/35] fix: large integers were not printed exactly with an
 explicit precision

---
 src/conv/to_str/to_fixed_prec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 4c9ff86..cf330c4 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -298,6 +298,9 @@ pub(crate) fn bin_2_dec_fixed_point(f: f256, prec: usize) -> String {
     // Integer part
     if is_less_than_one {
         res.push('0');
+    } else if exp2 > 0 {
+        // The shortest representation may differ from the exact value.
+        res.push_str(exact_int_to_dec_str(&signif2, exp2 as u32).as_str());
     } else {
         res.push_str(ip.to_string().as_str());
     }
-- 
2.43.0


From de497be49b8ee8851a419961d21a879b044e9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 32/35] fix: fill character was ignored when formatting NaN

---
 src/conv/to_str/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/conv/to_str/mod.rs b/src/conv/to_str/mod.rs
index 1520b09..5092dc6 100644
--- a/src/conv/to_str/mod.rs
+++ b/src/conv/to_str/mod.rs
@@ -32,16 +32,21 @@ const MAX_PREC: usize = 75;
 
 fn format_nan(form: &mut fmt::Formatter<'_>) -> fmt::Result {
     let nan = "NaN".to_owned();
-    let s = if let Some(width) = form.width() {
-        match form.align() {
-            Some(fmt::Alignment::Center) => format!("{:^width$}", nan),
-            Some(fmt::Alignment::Left) => format!("{:<width$}", nan),
-            _ => format!("{:>width$}", nan),
-        }
-    } else {
-        nan
+    let n_to_fill = form.width().unwrap_or(0).saturating_sub(nan.len());
+    let n_to_fill_pre = match form.align() {
+        Some(fmt::Alignment::Center) => n_to_fill >> 1,
+        Some(fmt::Alignment::Left) => 0,
+        _ => n_to_fill,
     };
-    form.write_str(s.as_str())
+    let filler = form.fill();
+    for _ in 0..n_to_fill_pre {
+        form.write_char(filler)?;
+    }
+    form.write_str(nan.as_str())?;
+    for _ in n_to_fill_pre..n_to_fill {
+        form.write_char(filler)?;
+    }
+    Ok(())
 }
 
 fn format_special(f: &f256, form: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From a94f0a27c825dc873fae40f86ed15b912642c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 33/35] fix: shortest representation was based on a wrong lower
 bound of the rounding interval

---
 src/conv/to_str/dec_repr.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index 97aaf32..cda6c47 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -17,7 +17,7 @@ use super::{
 };
 use crate::{
     big_uint::{HiLo, U128},
-    f256, BigUInt, DivRem, U256, U512,
+    f256, BigUInt, DivRem, EMIN, FRACTION_BITS, U256, U512,
 };
 
 /// Returns ⌊log₁₀(5ⁱ)⌋ for 0 <= i <= 262380.
@@ -134,6 +134,11 @@ impl DecNumRepr {
         const H: i32 = 501;
 
         let accept_bounds = signif2.is_even();
+        // The distance to the next smaller value is only half of the distance
+        // to the next larger value if the significand is a power of two and
+        // the next smaller value belongs to the next smaller binade.
+        let is_binade_border = signif2.trailing_zeros() == FRACTION_BITS
+            && exp2 > EMIN - FRACTION_BITS as i32;
 
         // Subtract 2 from exponent and adjust significand in prep of step 2.
         exp2 -= 2;
@@ -141,9 +146,8 @@ impl DecNumRepr {
 
         // Step 2: Compute the halfway points to the next smaller and larger
         // floating point values.
-        let is_non_integer = exp2 < -(signif2.trailing_zeros() as i32);
         let lower_signif2 =
-            &signif2 - &U256::from(1 + is_non_integer as u128);
+            &signif2 - &U256::from(2 - is_binade_border as u128);
         let upper_signif2 = &signif2 + &U256::TWO;
 
         // Step 3: Convert the interval to a decimal power base.
@@ -213,9 +217,10 @@ impl DecNumRepr {
                 // zero bits.
                 rem_zero = true;
                 if accept_bounds {
-                    // lower_signif2 = signif2 - 1 - is_non_integer, so it has
-                    // a trailing zero bit if f is not an integer.
-                    lower_rem_zero = is_non_integer;
+                    // lower_signif2 = signif2 - 2 + is_binade_border, so it
+                    // has a trailing zero bit if f is not the smallest value
+                    // of a binade.
+                    lower_rem_zero = !is_binade_border;
                 } else {
                     // uppper_signif2 = signif2 + 2, so it always has at least
                     // one trailing zero bit.
-- 
2.43.0


From d865c0b646a35e02ee12881a3e9226eb2bd68a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 34/35] fix: shortest representation of small integers with odd
 significand was decremented

---
 src/conv/to_str/dec_repr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index cda6c47..5ff12e1 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -224,7 +224,7 @@ impl DecNumRepr {
                 } else {
                     // uppper_signif2 = signif2 + 2, so it always has at least
                     // one trailing zero bit.
-                    signif10.decr();
+                    upper_signif10.decr();
                 }
             } else if g <= 238 {
                 // signif2 has atmost 239 bits, i.e atmost 238 trailing
-- 
2.43.0


From 5a1330c43d65add33d0f37cc033e62432d960b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 35/35] fix: shortest representation could be an excluded lower
 bound of the rounding interval

---
 src/conv/to_str/dec_repr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index 5ff12e1..3de9b20 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -243,8 +243,8 @@ impl DecNumRepr {
             let (mut upper_quot, mut upper_rem) =
                 upper_signif10.div_rem(10_u64);
             while lower_quot < upper_quot {
-                (signif10, round_digit) = signif10.div_rem(10_u64);
                 rem_zero &= round_digit == 0;
+                (signif10, round_digit) = signif10.div_rem(10_u64);
                 lower_signif10 = lower_quot;
                 lower_rem_zero &= lower_rem == 0;
                 upper_signif10 = upper_quot;
@@ -254,8 +254,8 @@ impl DecNumRepr {
             }
             if lower_rem_zero {
                 while lower_rem == 0 && !lower_signif10.is_zero() {
-                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     rem_zero &= round_digit == 0;
+                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     lower_signif10 = lower_quot;
                     (lower_quot, lower_rem) = lower_signif10.div_rem(10_u64);
                     i += 1;
@@ -264,6 +264,9 @@ impl DecNumRepr {
             if round_digit > 5  // need to round up
                 || (round_digit == 5    // need to round to even
                 && (!rem_zero || signif10.lo.is_odd()))
+                // lower bound not acceptable
+                || (signif10 == lower_signif10
+                    && !(accept_bounds && lower_rem_zero))
             {
                 signif10.incr();
             }
-- 
2.43.0

