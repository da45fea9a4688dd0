//! C11: fused multiply-add.  The specification aligns the exact product and the exact addend in a
//! window wide enough that the bits that fall off (kept as one sticky bit) cannot matter, adds, and
//! rounds once to nearest-even.

/// little-endian limbs of 128 bits
#[derive(Clone, Copy)]
pub struct Big<const N: usize>(pub [u128; N]);
impl<const N: usize> Big<N> {
    pub const T: i32 = 128 * N as i32;
    #[inline] pub fn len(self) -> i32 {
        let mut n = 0; let mut k = 0;
        while k < N { if self.0[k] != 0 { n = 128 * k as i32 + 128 - self.0[k].leading_zeros() as i32; } k += 1; }
        n
    }
    #[inline] pub fn same(self, o: Self) -> bool { let mut d = 0; let mut k = 0; while k < N { d |= self.0[k] ^ o.0[k]; k += 1; } d == 0 }
    #[inline] pub fn zero(self) -> bool { let mut o = 0; let mut k = 0; while k < N { o |= self.0[k]; k += 1; } o == 0 }
    /// shift left by 0 <= n < T
    #[inline] pub fn shl(self, n: i32) -> Self {
        let (w, b) = ((n / 128) as usize, (n % 128) as u32);
        let mut r = [0; N]; let mut k = 0;
        while k < N {
            if k >= w { r[k] = self.0[k - w] << b; if b != 0 && k > w { r[k] |= self.0[k - w - 1] >> (128 - b); } }
            k += 1;
        }
        Big(r)
    }
    /// shift right by n >= 0
    #[inline] pub fn shr(self, n: i32) -> Self {
        if n >= Self::T { return Big([0; N]); }
        let (w, b) = ((n / 128) as usize, (n % 128) as u32);
        let mut r = [0; N]; let mut k = 0;
        while k < N {
            if k + w < N { r[k] = self.0[k + w] >> b; if b != 0 && k + w + 1 < N { r[k] |= self.0[k + w + 1] << (128 - b); } }
            k += 1;
        }
        Big(r)
    }
    /// shift right, lost bits kept as a sticky lowest bit
    #[inline] pub fn jam(self, n: i32) -> Self {
        let mut r = self.shr(n);
        let lost = if n >= Self::T { !self.zero() } else { !r.shl(n).same(self) };
        if lost { r.0[0] |= 1; }
        r
    }
    #[inline] pub fn ge(self, o: Self) -> bool {
        let mut r = true; let mut k = 0;
        while k < N { if self.0[k] != o.0[k] { r = self.0[k] > o.0[k]; } k += 1; }
        r
    }
    #[inline] pub fn add(self, o: Self) -> Self {
        let mut r = [0; N]; let mut c = false; let mut k = 0;
        while k < N { let (s, a) = self.0[k].overflowing_add(o.0[k]); let (s, b) = s.overflowing_add(c as u128); r[k] = s; c = a || b; k += 1; }
        Big(r)
    }
    #[inline] pub fn sub(self, o: Self) -> Self {
        let mut r = [0; N]; let mut c = false; let mut k = 0;
        while k < N { let (s, a) = self.0[k].overflowing_sub(o.0[k]); let (s, b) = s.overflowing_sub(c as u128); r[k] = s; c = a || b; k += 1; }
        Big(r)
    }
}
/// exact product of two significands of at most 64 bits
#[inline] fn mul64(a: u128, b: u128) -> Big<2> { Big([a * b, 0]) }
/// exact product of two significands of at most 128 bits
#[inline] fn mul128(a: u128, b: u128) -> Big<4> {
    const M: u128 = u64::MAX as u128;
    let (a0, a1, b0, b1) = (a & M, a >> 64, b & M, b >> 64);
    let (ll, lh, hl, hh) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
    Big([ll, hh, 0, 0]).add(Big([lh << 64, lh >> 64, 0, 0])).add(Big([hl << 64, hl >> 64, 0, 0]))
}

macro_rules! fma_spec { ($m:ident, $s:ident, $n:literal, $mul:ident) => { pub mod $m {
    use super::*;
    use crate::spec::$s::*;
    const EMIN: i32 = 1 - EMAX - SIG as i32;
    /// nearest-even of m * 2^e, the sign bit apart
    #[inline] pub fn round(m: Big<$n>, e: i32) -> U {
        let lsb = { let l = m.len() + e - (SIG as i32 + 1); if l < EMIN { EMIN } else { l } };
        let s = lsb - e;
        let q = if s <= 0 { m.shl(-s).0[0] } else {
            let q = m.shr(s).0[0];
            // the discarded part against one half
            let h = m.shr(s - 1).0[0] & 1 == 1;
            let rest = s - 1 >= Big::<$n>::T || !m.shr(s - 1).shl(s - 1).same(m);
            q + (h && (rest || q & 1 == 1)) as u128
        };
        if lsb > EMAX - SIG as i32 { return INF; }
        let r = (((lsb - EMIN) as u128) << SIG) + q;
        if r >= INF as u128 { INF } else { r as U }
    }
    /// significand with its top bit at SIG, and the exponent of the lowest bit
    #[inline] fn norm(x: F) -> (U, i32) {
        let (m, e) = sigexp(x);
        let k = m.leading_zeros() - (BITS - 1 - SIG);
        (m << k, e - k as i32)
    }
    /// None stands for NaN
    pub fn fma(x: F, y: F, z: F) -> Option<U> {
        let sp = (b(x) ^ b(y)) & SIGN;
        let sz = b(z) & SIGN;
        if is_nan(x) || is_nan(y) || is_nan(z) { return None; }
        if is_inf(x) || is_inf(y) {
            if is_zero(x) || is_zero(y) || (is_inf(z) && sp != sz) { return None; }
            return Some(sp | INF);
        }
        if is_inf(z) { return Some(b(z)); }
        if is_zero(x) || is_zero(y) {
            return Some(if !is_zero(z) { b(z) } else if sp == sz { sp } else { 0 });
        }
        let ((mx, ex), (my, ey)) = (norm(x), norm(y));
        let (p, ep) = ($mul(mx as u128, my as u128), ex + ey);
        if is_zero(z) { return Some(sp | round(p, ep)); }
        let (mz, ez) = norm(z);
        let mut z3 = [0u128; $n];
        z3[0] = mz as u128;
        let z3 = Big(z3);
        let (tp, tz) = (ep + p.len(), ez + SIG as i32 + 1);
        let top = if tp > tz { tp } else { tz };
        let e = top - (Big::<$n>::T - 2);
        let at = |m: Big<$n>, k: i32| if k >= e { m.shl(k - e) } else { m.jam(e - k) };
        let (p, z3) = (at(p, ep), at(z3, ez));
        if sp == sz { return Some(sp | round(p.add(z3), e)); }
        let (m, s) = if p.ge(z3) { (p.sub(z3), sp) } else { (z3.sub(p), sz) };
        Some(if m.zero() { 0 } else { s | round(m, e) })
    }
    #[inline] pub fn ok(r: F, want: Option<U>) -> bool { match want { None => is_nan(r), Some(w) => b(r) == w } }
} } }
fma_spec!(s, s, 2, mul64);
fma_spec!(d, d, 2, mul64);
fma_spec!(q, q, 4, mul128);


/// The significand product as an arbitrary function: one point per harness, with the facts the
/// product of two normalised significands has (the multiplication itself is proved in C12).
#[cfg(kani)]
pub mod mulstub {
    static mut ON: bool = false;
    static mut KEY: (u64, u64) = (0, 0);
    static mut VAL: u128 = 0;
    /// product of two 53-bit normalised significands
    pub fn product(a: u64, b: u64) -> u128 {
        let top = 1u64 << 52;
        assert!(a >> 52 == 1 && b >> 52 == 1, "VH-STUB: operands are normalised significands");
        unsafe {
            if !ON {
                ON = true; KEY = (a, b);
                let p: u128 = kani::any();
                kani::assume(p >= (a as u128) << 52 && p >= (b as u128) << 52 && p < 1u128 << 106 && p <= (a as u128) << 53 && p <= (b as u128) << 53);
                VAL = p;
            }
            assert!(KEY.0 == a && KEY.1 == b, "VH-STUB: one product only");
            VAL
        }
    }
    /// fma_round multiplies the significands with one guard bit each
    pub fn widen_mul_u64(a: u64, b: u64) -> u128 { product(a >> 1, b >> 1) << 2 }
}
#[cfg(kani)]
#[inline] fn mul64_stub(a: u128, b: u128) -> Big<2> { Big([mulstub::product(a as u64, b as u64), 0]) }
#[cfg(not(kani))]
#[inline] fn mul64_stub(a: u128, b: u128) -> Big<2> { mul64(a, b) }
fma_spec!(ds, d, 2, mul64_stub);

contracts! {
    fmaf(x: f32, y: f32, z: f32) {
        ensures!(s::ok(libm::fmaf(x, y, z), s::fma(x, y, z)), "x*y+z rounded once");
    }
    fmaf128(x: f128, y: f128, z: f128) {
        ensures!(q::ok(libm::fmaf128(x, y, z), q::fma(x, y, z)), "x*y+z rounded once");
    }
    fma_special(x: f64, y: f64, z: f64) {
        use crate::spec::d::*;
        requires!(!(is_fin(x) && !is_zero(x) && is_fin(y) && !is_zero(y) && is_fin(z) && !is_zero(z)));
        let r = libm::fma(x, y, z);
        if is_zero(z) && is_fin(x) && is_fin(y) && !is_zero(x) && !is_zero(y) {
            ensures!(b(r) == b(x * y), "a zero addend leaves the rounded product");
        } else {
            ensures!(d::ok(r, d::fma(x, y, z)), "x*y+z rounded once");
        }
    }
    #[kani::stub(<u64 as libm::support::HInt>::widen_mul, crate::c11::mulstub::widen_mul_u64)]
    fma(x: f64, y: f64, z: f64) {
        use crate::spec::d::*;
        requires!(is_fin(x) && !is_zero(x) && is_fin(y) && !is_zero(y) && is_fin(z) && !is_zero(z));
        ensures!(ds::ok(libm::fma(x, y, z), ds::fma(x, y, z)), "x*y+z rounded once");
    }
}
