//! Specification vocabulary, independent of libm: IEEE-754 values as sign/exponent/significand
//! integers.  Nothing here calls into libm.

macro_rules! spec_float { ($m:ident, $f:ty, $u:ty, $i:ty, $bits:literal, $sig:literal) => {
pub mod $m {
    pub type F = $f;
    pub type U = $u;
    pub type I = $i;
    pub const BITS: u32 = $bits;
    /// explicit fraction bits
    pub const SIG: u32 = $sig;
    pub const EXPW: u32 = BITS - 1 - SIG;
    pub const EMAX: i32 = (1 << (EXPW - 1)) - 1; // also the bias
    pub const ESAT: u32 = (1 << EXPW) - 1;
    pub const SIGN: U = 1 << (BITS - 1);
    pub const FRAC: U = (1 << SIG) - 1;
    pub const IMPL: U = 1 << SIG;
    pub const INF: U = (ESAT as U) << SIG;
    pub const ONE: U = (EMAX as U) << SIG;
    pub const QNAN: U = INF | (1 << (SIG - 1));
    // multiples of pi rounded to nearest (f32 and f64 only)
    pub const PI: U = if BITS == 64 { 0x400921fb54442d18u64 as U } else { 0x40490fdbu32 as U };
    pub const PIO2: U = if BITS == 64 { 0x3ff921fb54442d18u64 as U } else { 0x3fc90fdbu32 as U };
    pub const PIO4: U = if BITS == 64 { 0x3fe921fb54442d18u64 as U } else { 0x3f490fdbu32 as U };
    pub const PI3O4: U = if BITS == 64 { 0x4002d97c7f3321d2u64 as U } else { 0x4016cbe4u32 as U };
    #[inline] pub fn b(x: F) -> U { x.to_bits() }
    #[inline] pub fn abs(x: F) -> U { x.to_bits() & !SIGN }
    #[inline] pub fn neg(x: F) -> bool { x.to_bits() & SIGN != 0 }
    #[inline] pub fn is_nan(x: F) -> bool { abs(x) > INF }
    #[inline] pub fn is_inf(x: F) -> bool { abs(x) == INF }
    #[inline] pub fn is_zero(x: F) -> bool { abs(x) == 0 }
    #[inline] pub fn is_fin(x: F) -> bool { abs(x) < INF }
    #[inline] pub fn bexp(x: F) -> u32 { (abs(x) >> SIG) as u32 }
    /// same value and same bits, all NaNs identified
    #[inline] pub fn same(x: F, y: F) -> bool { b(x) == b(y) || (is_nan(x) && is_nan(y)) }
    /// map to a totally ordered signed integer: -0 -> -1, +0 -> 0  (strict total order of non-NaNs)
    #[inline] pub fn ord(x: F) -> I { let v = b(x) as I; if v < 0 { I::MIN - v - 1 } else { v } }
    /// numeric order on non-NaNs (zeros equal)
    #[inline] pub fn lt(x: F, y: F) -> bool {
        !(is_zero(x) && is_zero(y)) && ord(x) < ord(y)
    }
    /// magnitude within one unit in the last place of the constant
    #[inline] pub fn near(x: F, c: U) -> bool { abs(x).wrapping_sub(c).wrapping_add(1) <= 2 }
    /// finite with no fractional part
    #[inline] pub fn is_integer(x: F) -> bool {
        let e = bexp(x) as i32 - EMAX;
        is_zero(x) || (is_fin(x) && e >= 0 && (e >= SIG as i32 || b(x) & (FRAC >> e) == 0))
    }
    /// an odd integer
    #[inline] pub fn is_odd(x: F) -> bool {
        let e = bexp(x) as i32 - EMAX;
        is_fin(x) && is_integer(x) && e >= 0 && e <= SIG as i32 && ((b(x) & FRAC) | IMPL) >> (SIG as i32 - e) & 1 == 1
    }
    /// (significand, exponent of its lsb) of a finite value
    #[inline] pub fn sigexp(x: F) -> (U, i32) {
        let e = bexp(x);
        if e == 0 { (abs(x), 1 - EMAX - SIG as i32) }
        else { ((abs(x) & FRAC) | IMPL, e as i32 - EMAX - SIG as i32) }
    }
}
} }
spec_float!(h, f16, u16, i16, 16, 10);
spec_float!(s, f32, u32, i32, 32, 23);
spec_float!(d, f64, u64, i64, 64, 52);
spec_float!(q, f128, u128, i128, 128, 112);
