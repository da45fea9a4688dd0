From 30f727aca20f002bfdfc0c58a5a1f70c10d3310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 01/11] fix: fmaximum_num(-0.0, NaN) must return -0.0, not NaN

---
 libm/src/math/generic/fmaximum_num.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..2366314 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -15,12 +15,14 @@ use super::super::Float;
 
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
-    let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
-            x
-        };
+    let res = if x.is_nan()
+        || x < y
+        || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive() && !y.is_nan())
+    {
+        y
+    } else {
+        x
+    };
 
     // Canonicalize
     res * F::ONE
-- 
2.43.0


From 44728c8f41b7f731e719bb9d0062ec174ea8c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 02/11] fix: acosh/acoshf return NaN for every argument below 1

For some x <= -2 the intermediate x + sqrt(x*x - 1) rounds to zero or to a tiny
number of either sign, and 2x - 1/(...) became positive, so the logarithm was finite.
---
 libm/src/math/acosh.rs  | 6 +++---
 libm/src/math/acoshf.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..c2827b3 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -18,10 +18,10 @@ pub fn acosh(x: f64) -> f64 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
         return log1p(x - 1.0 + sqrt((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if e < 0x3ff + 26 {
-        /* |x| < 0x1p26 */
+    if e < 0x3ff + 26 && x > 0.0 {
+        /* 2 <= x < 0x1p26 */
         return log(2.0 * x - 1.0 / (x + sqrt(x * x - 1.0)));
     }
-    /* |x| >= 0x1p26 or nan */
+    /* x >= 0x1p26, x <= -2 (invalid) or nan */
     return log(x) + LN2;
 }
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..ffbce12 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -17,10 +17,10 @@ pub fn acoshf(x: f32) -> f32 {
         /* up to 2ulp error in [1,1.125] */
         return log1pf(x - 1.0 + sqrtf((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if a < 0x3f800000 + (12 << 23) {
-        /* |x| < 0x1p12 */
+    if a < 0x3f800000 + (12 << 23) && x > 0.0 {
+        /* 2 <= x < 0x1p12 */
         return logf(2.0 * x - 1.0 / (x + sqrtf(x * x - 1.0)));
     }
-    /* x >= 0x1p12 */
+    /* x >= 0x1p12, x <= -2 (invalid) or nan */
     return logf(x) + LN2;
 }
-- 
2.43.0


From 46fb5e7a01f892a61b3df583250cd30fe6c0c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 03/11] fix: expm1f overflows only where the result does

The threshold was below log(FLT_MAX), so expm1f returned +inf for 88.72168 < x < 88.72284,
where the result is finite, and sinhf, which computes t + t/(t + 1) from it, returned NaN.
---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From 8fa498980d1c78b4c20bc26781de9a24c813b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 04/11] fix: floor, ceil and trunc report inexact for powers of
 two below 1

---
 libm/src/math/generic/ceil.rs  | 2 +-
 libm/src/math/generic/floor.rs | 4 ++--
 libm/src/math/generic/trunc.rs | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/generic/ceil.rs b/libm/src/math/generic/ceil.rs
index 5c5bb47..dfe93f7 100644
--- a/libm/src/math/generic/ceil.rs
+++ b/libm/src/math/generic/ceil.rs
@@ -47,7 +47,7 @@ pub fn ceil_status<F: Float>(x: F) -> FpResult<F> {
         F::from_bits(ix)
     } else {
         // |x| < 1.0, raise an inexact exception since truncation will happen (unless x == 0).
-        if ix & F::SIG_MASK == F::Int::ZERO {
+        if ix << 1 == zero {
             status = Status::OK;
         } else {
             status = Status::INEXACT;
diff --git a/libm/src/math/generic/floor.rs b/libm/src/math/generic/floor.rs
index 2438046..ecce14d 100644
--- a/libm/src/math/generic/floor.rs
+++ b/libm/src/math/generic/floor.rs
@@ -46,8 +46,8 @@ pub fn floor_status<F: Float>(x: F) -> FpResult<F> {
         ix &= !m;
         F::from_bits(ix)
     } else {
-        // |x| < 1.0, raise an inexact exception since truncation will happen.
-        if ix & F::SIG_MASK == F::Int::ZERO {
+        // |x| < 1.0, raise an inexact exception since truncation will happen (unless x == 0).
+        if ix << 1 == zero {
             status = Status::OK;
         } else {
             status = Status::INEXACT;
diff --git a/libm/src/math/generic/trunc.rs b/libm/src/math/generic/trunc.rs
index 25414ec..4eb65c9 100644
--- a/libm/src/math/generic/trunc.rs
+++ b/libm/src/math/generic/trunc.rs
@@ -36,9 +36,8 @@ pub fn trunc_status<F: Float>(x: F) -> FpResult<F> {
     // C5: Otherwise the result is inexact and we will truncate. Raise `FE_INEXACT`, mask the
     // result, and return.
 
-    let status = if xi & F::SIG_MASK == F::Int::ZERO { Status::OK } else { Status::INEXACT };
     xi &= mask;
-    FpResult::new(F::from_bits(xi), status)
+    FpResult::new(F::from_bits(xi), Status::INEXACT)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3cabe9855bef6dfb5b581ac5373d56746b7d439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:51 +0000
Subject: [PATCH 05/11] fix: i256::MAX is the largest 256-bit signed integer

---
 libm/src/math/support/big.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index eae0823..14ed1ba 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -66,7 +66,7 @@ impl MinInt for i256 {
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
     const MIN: Self = Self { lo: 0, hi: 1 << 127 };
-    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX << 1 };
+    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX >> 1 };
 }
 
 macro_rules! impl_common {
-- 
2.43.0


From 4c9839dcaf71efce5431d7c5b3af699b3f18cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:51 +0000
Subject: [PATCH 06/11] fix: compare u256 and i256 by their most significant
 limb first

---
 libm/src/math/support/big.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index 14ed1ba..7572870 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -3,7 +3,7 @@
 #[cfg(test)]
 mod tests;
 
-use core::ops;
+use core::{cmp, ops};
 
 use super::{DInt, HInt, Int, MinInt};
 
@@ -11,7 +11,7 @@ const U128_LO_MASK: u128 = u64::MAX as u128;
 
 /// A 256-bit unsigned integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct u256 {
     pub lo: u128,
     pub hi: u128,
@@ -29,7 +29,7 @@ impl u256 {
 
 /// A 256-bit signed integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct i256 {
     pub lo: u128,
     pub hi: u128,
@@ -43,6 +43,19 @@ impl i256 {
     }
 }
 
+// The high limb is the most significant one, so the field order cannot be used for comparison.
+impl PartialOrd for u256 {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        (self.hi, self.lo).partial_cmp(&(other.hi, other.lo))
+    }
+}
+
+impl PartialOrd for i256 {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        (self.hi as i128, self.lo).partial_cmp(&(other.hi as i128, other.lo))
+    }
+}
+
 impl MinInt for u256 {
     type OtherSign = i256;
 
-- 
2.43.0


From e63ceffd5c366ae91f94e5fdad1cc097588bf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 07/11] fix: hex float parsing with extreme exponents

---
 libm/src/math/support/hex_float.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 819e2f5..872b858 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -123,6 +123,11 @@ const fn parse_finite(
         Ok(Parsed { sig, exp }) => (sig, exp),
     };
 
+    // Any larger exponent overflows just the same, but would also overflow the arithmetic below
+    if exp > max_msb + 1 {
+        exp = max_msb + 1;
+    }
+
     let mut round_bits = u128_ilog2(sig) as i32 - sig_bits as i32;
 
     // Round at least up to min_lsb
@@ -289,8 +294,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
-- 
2.43.0


From 62b8e5ef29caa0efbb1fa1c7f06e468de16a04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 08/11] verification hooks behind unstable-public-internals

---
 libm/src/math/generic/mod.rs |  6 ++++++
 libm/src/math/mod.rs         | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/libm/src/math/generic/mod.rs b/libm/src/math/generic/mod.rs
index 3584635..85565c4 100644
--- a/libm/src/math/generic/mod.rs
+++ b/libm/src/math/generic/mod.rs
@@ -36,3 +36,9 @@ pub use round::round;
 pub use scalbn::scalbn;
 pub use sqrt::sqrt;
 pub use trunc::trunc;
+
+// Hook for the verification contracts: the variants that also report a status.
+#[cfg(feature = "unstable-public-internals")]
+pub use self::{
+    ceil::ceil_status, floor::floor_status, sqrt::sqrt_round, trunc::trunc_status,
+};
diff --git a/libm/src/math/mod.rs b/libm/src/math/mod.rs
index 949c18b..a300a2b 100644
--- a/libm/src/math/mod.rs
+++ b/libm/src/math/mod.rs
@@ -122,6 +122,25 @@ use self::rem_pio2f::rem_pio2f;
 #[allow(unused_imports)]
 use self::support::{CastFrom, CastInto, DFloat, DInt, Float, HFloat, HInt, Int, IntTy, MinInt};
 
+// Hook for the verification contracts: callees that other functions rely on.
+#[cfg(feature = "unstable-public-internals")]
+pub mod verif_hooks {
+    pub use super::fma::fma_round;
+    pub use super::fma_wide::fma_wide_round;
+
+    pub fn rem_pio2(x: f64) -> (i32, f64, f64) {
+        super::rem_pio2::rem_pio2(x)
+    }
+
+    pub fn rem_pio2f(x: f32) -> (i32, f64) {
+        super::rem_pio2f::rem_pio2f(x)
+    }
+
+    pub fn rem_pio2_large(x: &[f64], y: &mut [f64], e0: i32, prec: usize) -> i32 {
+        super::rem_pio2_large::rem_pio2_large(x, y, e0, prec)
+    }
+}
+
 // Public modules
 mod acos;
 mod acosf;
-- 
2.43.0


From 7462a01df0be2d2e8021c956e87a8cfed67fdf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 09/11] fix: i256 is a signed integer

---
 libm/src/math/support/big.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index 7572870..b2d266a 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -74,7 +74,7 @@ impl MinInt for i256 {
 
     type Unsigned = u256;
 
-    const SIGNED: bool = false;
+    const SIGNED: bool = true;
     const BITS: u32 = 256;
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
-- 
2.43.0


From e283378f02d5376803590862b5c49e1ed8a723dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:44 +0000
Subject: [PATCH 10/11] fix: fma must not lose the sticky bit of a product
 shifted below the addend

---
 libm/src/math/fma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..c31d2db 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,9 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // Set the sticky bit from what is shifted out
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 662de2ef5afe16a6c86bb6e45b13a39a522ccf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 11/11] fix: fmaf must not round a subnormal result twice

---
 libm/src/math/fma_wide.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..4e784ee 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -44,8 +44,12 @@ where
     let re = result.ex();
     let zb: B = z.widen();
 
-    let prec_diff = B::SIG_BITS - F::SIG_BITS;
-    let excess_prec = ui & ((one << prec_diff) - one);
+    // Bits of the significand that do not fit in `F`; there are more of them if the result is
+    // subnormal in `F`, up to all of them (then it can't be halfway).
+    let min_normal_exp = (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+    let prec_diff = B::SIG_BITS - F::SIG_BITS + min_normal_exp.saturating_sub(re);
+    let prec_diff = prec_diff.min(B::SIG_BITS + 2);
+    let excess_prec = ((ui & B::SIG_MASK) | B::IMPLICIT_BIT) & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
     // Common case: the larger precision is fine if...
-- 
2.43.0

