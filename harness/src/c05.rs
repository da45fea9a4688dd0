//! C05 / C06: exact remainders.  The specification works on the integer significands: with
//! x = X * 2^e and y = Y * 2^e for a common e, the remainders are those of the integers.
macro_rules! rem_spec { ($m:ident) => { pub mod $m {
    use crate::spec::$m::*;
    /// m * 2^k mod n, 0 < n < 2^120
    pub fn mulpow_mod(m: u128, mut k: u32, n: u128) -> u128 {
        let z = n.leading_zeros();
        let mut r = m % n;
        while k > 0 {
            let s = if k < z { k } else { z };
            r = (r << s) % n;
            k -= s;
        }
        r
    }
    /// bits of r * 2^e, exactly representable, r < 2^(SIG + 1)
    fn exact(r: u128, e: i32) -> U {
        if r == 0 { return 0; }
        let r = r as U;
        const EMIN: i32 = 1 - EMAX - SIG as i32;
        let up = r.leading_zeros() as i32 - (BITS - 1 - SIG) as i32;
        let s = if e - up < EMIN { e - EMIN } else { up };
        let r = r << s as u32;
        if r >> SIG == 0 { r } else { r + (((e - s - EMIN) as U) << SIG) }
    }
    fn invalid(x: F, y: F) -> bool { is_nan(x) || is_nan(y) || is_inf(x) || is_zero(y) }
    /// (X mod cY, Y, e) on the common exponent e, for finite x and finite nonzero y; c*Y >= X possible
    fn reduce(x: F, y: F, c: u128) -> (u128, u128, i32) {
        let ((mx, ex), (my, ey)) = (sigexp(x), sigexp(y));
        let (mx, my) = (mx as u128, my as u128);
        if ex >= ey { return (mulpow_mod(mx, (ex - ey) as u32, my * c), my, ey); }
        let d = (ey - ex) as u32;
        if d > SIG + 8 || (my << (d - 1)) >> (d - 1) != my { return (mx, u128::MAX, ex); }
        // c * my << d may overflow, but then it exceeds mx anyway
        let n = (my * c).checked_shl(d).filter(|v| v >> d == my * c).unwrap_or(u128::MAX);
        (mx % n, if (my << d) >> d == my { my << d } else { u128::MAX }, ex)
    }
    /// None: NaN
    pub fn fmod(x: F, y: F) -> Option<U> {
        if invalid(x, y) { return None; }
        if is_inf(y) || is_zero(x) { return Some(b(x)); }
        let (r, _, e) = reduce(x, y, 1);
        Some(sbit(x) | exact(r, e))
    }
    fn sbit(x: F) -> U { b(x) & SIGN }
    /// (bits of the remainder, |n| mod 8, whether n is exactly 0); None: NaN
    pub fn remquo(x: F, y: F) -> Option<(U, u32)> {
        if invalid(x, y) { return None; }
        if is_inf(y) || is_zero(x) { return Some((b(x), 0)); }
        let (r8, yy, e) = reduce(x, y, 8);
        let (q, r) = ((r8 / yy) as u32, r8 % yy);
        let up = r > yy - r || (r == yy - r && q & 1 == 1);
        if up { Some(((sbit(x) ^ SIGN) | exact(yy - r, e), (q + 1) & 7)) } else { Some((sbit(x) | exact(r, e), q & 7)) }
    }
    pub fn fmod_ok(x: F, y: F, r: F) -> bool { match fmod(x, y) { None => is_nan(r), Some(w) => b(r) == w } }
    pub fn rem_ok(x: F, y: F, r: F) -> bool { match remquo(x, y) { None => is_nan(r), Some((w, _)) => b(r) == w } }
    pub fn quo_ok(x: F, y: F, n: i32) -> bool {
        match remquo(x, y) { None => true, Some((_, q)) => n.unsigned_abs() & 7 == q && (n == 0 || (n < 0) == (neg(x) != neg(y))) }
    }
} } }
rem_spec!(h);
rem_spec!(s);
rem_spec!(d);
rem_spec!(q);

#[cfg(feature = "c05")]
pub mod fmod {
use super::*;
macro_rules! c05 { ($( $m:ident, $t:ty, $f:ident, $sp:ident; )*) => {
    contracts! { $(
        $f(x: $t, y: $t) {
            ensures!(self::$m::fmod_ok(x, y, libm::$f(x, y)), "x - trunc(x/y)*y exactly, with the sign of x");
        }
        $sp(x: $t, y: $t) {
            use crate::spec::$m::*;
            requires!(is_nan(x) || is_nan(y) || is_inf(x) || is_zero(y) || abs(x) <= abs(y));
            let r = libm::$f(x, y);
            if is_nan(x) || is_nan(y) || is_inf(x) || is_zero(y) { ensures!(is_nan(r), "NaN for invalid operands"); }
            else if abs(x) < abs(y) { ensures!(b(r) == b(x), "a smaller |x| is its own remainder"); }
            else { ensures!(b(r) == b(x) & SIGN, "equal magnitudes leave a zero with the sign of x"); }
        }
    )* }
} }
c05! {
    h, f16, fmodf16, fmodf16_trivial;
    s, f32, fmodf, fmodf_trivial;
    d, f64, fmod, fmod_trivial;
    q, f128, fmodf128, fmodf128_trivial;
}
}
#[cfg(feature = "c06")]
pub mod rem {
use super::*;
macro_rules! c06 { ($( $m:ident, $t:ty, $f:ident, $r:ident; )*) => {
    contracts! { $(
        $f(x: $t, y: $t) {
            ensures!(self::$m::rem_ok(x, y, libm::$f(x, y)), "x - n*y exactly, n the nearest integer to x/y");
        }
        $r(x: $t, y: $t) {
            let (r, n) = libm::$r(x, y);
            ensures!(self::$m::rem_ok(x, y, r), "x - n*y exactly, n the nearest integer to x/y");
            ensures!(self::$m::quo_ok(x, y, n), "sign of x/y and the low three bits of |n|");
        }
    )* }
} }
c06! {
    s, f32, remainderf, remquof;
    d, f64, remainder, remquo;
}
}
