//! C08: scalbn/ldexp return x * 2^n correctly rounded (nearest, ties to even) for every n.
macro_rules! scale_spec { ($m:ident) => {
    pub mod $m {
        use crate::spec::$m::*;
        /// round(m / 2^sh), nearest even
        #[inline]
        pub fn shr_rne(m: U, sh: u32) -> U {
            if sh == 0 { return m; }
            if sh > SIG + 1 { return 0; }
            let t = m >> sh;
            let rem = m & (((1 as U) << sh) - 1);
            let half = (1 as U) << (sh - 1);
            if rem > half || (rem == half && t & 1 == 1) { t + 1 } else { t }
        }
        /// bits of |x| * 2^n rounded once, for finite nonzero x
        #[inline]
        pub fn scaled(x: F, n: i32) -> U {
            let (m0, q) = sigexp(x);
            let s = m0.leading_zeros() - (BITS - SIG - 1);
            let m = m0 << s;
            // |x| = m * 2^(q - s), leading bit at SIG
            let e = (q - s as i32 + SIG as i32) as i64 + n as i64;
            if e > EMAX as i64 { return INF; }
            if e >= 1 - EMAX as i64 {
                return ((e + EMAX as i64) as U) << SIG | (m & FRAC);
            }
            let sh = 1 - EMAX as i64 - e;
            if sh > SIG as i64 + 1 { 0 } else { shr_rne(m, sh as u32) }
        }
    }
} }
scale_spec!(h);
scale_spec!(s);
scale_spec!(d);
scale_spec!(q);
// The domain is split by the size of n and by normal/subnormal x so that each obligation is one
// multiplication path; the cases cover everything (the first contract takes the rest).
macro_rules! c08 { ($( $m:ident, $t:ty, $f:ident, $l:ident, [$sp:ident, $up:ident, $upsub:ident, $mid:ident, $midsub:ident, $midup:ident, $dn1:ident, $dn:ident, $dnsub:ident]; )*) => {
    contracts! { $(
        $sp(x: $t, n: i32) {
            use crate::spec::$m::*;
            let r = libm::$f(x, n);
            if is_nan(x) { ensures!(is_nan(r), "NaN propagates"); }
            else if is_inf(x) || is_zero(x) { ensures!(b(r) == b(x), "zeros and infinities are unchanged"); }
        }
        $up(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(is_fin(x) && bexp(x) != 0 && n > EMAX);
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::scaled(x, n), "x * 2^n rounded once to nearest even");
        }
        $upsub(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(bexp(x) == 0 && !is_zero(x) && n > EMAX);
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::scaled(x, n), "x * 2^n rounded once to nearest even");
        }
        $mid(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(is_fin(x) && bexp(x) != 0 && n <= EMAX && n >= 1 - EMAX);
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::scaled(x, n), "x * 2^n rounded once to nearest even");
        }
        $midsub(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(bexp(x) == 0 && !is_zero(x) && n <= 0 && n >= 1 - EMAX);
            // stays subnormal: shift the significand right, one rounding
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::shr_rne(abs(x), n.unsigned_abs()), "x * 2^n rounded once to nearest even");
        }
        $midup(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(bexp(x) == 0 && !is_zero(x) && n <= EMAX && n > 0);
            let r = libm::$f(x, n);
            let m = abs(x);
            // exact: the significands agree after aligning the exponents, nothing is lost
            let (mr, qr) = sigexp(r);
            let (_, q) = sigexp(x);
            let sh = q + n - qr;
            ensures!(neg(r) == neg(x) && is_fin(r) && sh >= 0 && sh <= SIG as i32 && mr == m << sh as u32 && mr >> sh as u32 == m, "x * 2^n exactly");
        }
        $dn1(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(is_fin(x) && bexp(x) != 0 && n < 1 - EMAX && n >= 2 * (1 - EMAX) + SIG as i32 + 1);
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::scaled(x, n), "x * 2^n rounded once to nearest even");
        }
        $dn(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(is_fin(x) && bexp(x) != 0 && n < 1 - EMAX && n < 2 * (1 - EMAX) + SIG as i32 + 1);
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::scaled(x, n), "x * 2^n rounded once to nearest even");
        }
        $dnsub(x: $t, n: i32) {
            use crate::spec::$m::*;
            requires!(bexp(x) == 0 && !is_zero(x) && n < 1 - EMAX);
            ensures!(b(libm::$f(x, n)) == (b(x) & SIGN) | self::$m::scaled(x, n), "x * 2^n rounded once to nearest even");
        }
        $l(x: $t, n: i32) {
            use crate::spec::$m::*;
            ensures!(same(libm::$l(x, n), libm::$f(x, n)), "ldexp and scalbn are the same function");
        }
    )* }
} }
c08! {
    h, f16, scalbnf16, ldexpf16, [scalbnf16_special, scalbnf16_up, scalbnf16_up_sub, scalbnf16_mid, scalbnf16_mid_sub, scalbnf16_mid_sub_up, scalbnf16_down, scalbnf16_far_down, scalbnf16_down_sub];
    s, f32, scalbnf, ldexpf, [scalbnf_special, scalbnf_up, scalbnf_up_sub, scalbnf_mid, scalbnf_mid_sub, scalbnf_mid_sub_up, scalbnf_down, scalbnf_far_down, scalbnf_down_sub];
    d, f64, scalbn, ldexp, [scalbn_special, scalbn_up, scalbn_up_sub, scalbn_mid, scalbn_mid_sub, scalbn_mid_sub_up, scalbn_down, scalbn_far_down, scalbn_down_sub];
    q, f128, scalbnf128, ldexpf128, [scalbnf128_special, scalbnf128_up, scalbnf128_up_sub, scalbnf128_mid, scalbnf128_mid_sub, scalbnf128_mid_sub_up, scalbnf128_down, scalbnf128_far_down, scalbnf128_down_sub];
}
