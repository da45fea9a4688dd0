//! C10: square root.  With x = M * 2^E and a result R * 2^F, R of full precision, the result is the
//! nearest when (2R-1)^2 * 2^(2F) < 4 * M * 2^E < (2R+1)^2 * 2^(2F) (a tie is impossible), and the
//! lower gap is half as wide when R is a power of two.
use crate::c11::Big;

fn sq(a: u128) -> Big<2> {
    const M: u128 = u64::MAX as u128;
    let (h, l) = (a >> 64, a & M);
    Big([l * l, 0]).add(Big([(h * l) << 65, (h * l) >> 63])).add(Big([0, h * h]))
}
fn less(a: Big<2>, b: Big<2>) -> bool { !a.ge(b) }

macro_rules! sqrt_spec { ($( $m:ident; )*) => { $( pub mod $m {
    use super::*;
    use crate::spec::$m::*;
    /// significand with its top bit at SIG, exponent of the lowest bit
    fn norm(x: F) -> (u128, i32) {
        let (m, e) = sigexp(x);
        let k = m.leading_zeros() - (BITS - 1 - SIG);
        ((m << k) as u128, e - k as i32)
    }
    pub fn special(x: F) -> bool { is_nan(x) || is_zero(x) || neg(x) || is_inf(x) }
    pub fn special_ok(x: F, r: F) -> bool {
        if is_nan(x) || (neg(x) && !is_zero(x)) { is_nan(r) } else { b(r) == b(x) }
    }
    pub fn nearest(x: F, r: F) -> bool {
        if !is_fin(r) || neg(r) || b(r) >> SIG == 0 { return false; }
        let ((m, e), (q, f)) = (norm(x), norm(r));
        let d = e - 2 * f;
        if d < SIG as i32 - 2 || d > SIG as i32 + 3 { return false; }
        // 16 * x and the squares of 4q-2 (or 4q-1), 4q+2, all in units of 2^(2f)
        let v = Big([m, 0]).shl(d + 4);
        let lo = if q == 1 << SIG { 4 * q - 1 } else { 4 * q - 2 };
        less(sq(lo), v) && less(v, sq(4 * q + 2))
    }
    pub fn ok(x: F, r: F) -> bool { if special(x) { special_ok(x, r) } else { nearest(x, r) } }
    /// the float nearest (2q + h)^2 / 4 scaled to an exponent of the same parity as e, moved by k ulps
    pub fn near_square(y: F, h: bool, e: i32, k: i8) -> F {
        let (q, _) = norm(if is_fin(y) && !is_zero(y) { y } else { F::from_bits(1 as U) });
        let p = sq(2 * q + h as u128);
        let n = p.len() - (SIG as i32 + 1);
        let m = p.shr(n).0[0] as U;
        // biased exponent of the argument: parity as the square's
        let t = ((e as i64).rem_euclid(((1i64 << (BITS - 1 - SIG)) - 4) / 2) * 2 + 1 + ((n + SIG as i32) & 1) as i64) as U;
        F::from_bits(((t << SIG) + (m & ((1 << SIG) - 1))).wrapping_add(k as U))
    }
} )* } }
sqrt_spec! { h; s; d; q; }

macro_rules! c10 { ($( $m:ident, $t:ty, $f:ident, $sp:ident, $hard:ident; )*) => {
    contracts! { $(
        $sp(x: $t) {
            requires!(self::$m::special(x));
            ensures!(self::$m::special_ok(x, libm::$f(x)), "zeros and +inf are kept, negative and NaN give NaN");
        }
        $f(x: $t) {
            requires!(!self::$m::special(x));
            ensures!(self::$m::nearest(x, libm::$f(x)), "nearest to the exact root");
        }
        $hard(y: $t, half: u8, e: i32, k: i8) {
            let x = self::$m::near_square(y, half & 1 == 1, e, k % 3);
            requires!(!self::$m::special(x));
            ensures!(self::$m::nearest(x, libm::$f(x)), "nearest to the exact root");
        }
    )* }
} }
c10! {
    h, f16, sqrtf16, sqrtf16_special, sqrtf16_square;
    s, f32, sqrtf, sqrtf_special, sqrtf_square;
    d, f64, sqrt, sqrt_special, sqrt_square;
    q, f128, sqrtf128, sqrtf128_special, sqrtf128_square;
}
