//! C01: rounding to an integral value.
//!
//! The specification: for finite x with |x| < 2^SIG, clear the fraction bits (magnitude
//! truncation), decide from the discarded bits and the sign whether to step away from zero, and
//! if so add one unit of the integer position to the magnitude; the sign bit is x's.  Larger
//! magnitudes and infinities return themselves, NaN gives NaN.


macro_rules! rounders { ($m:ident) => {
    pub mod $m {
        use crate::spec::$m::*;
        #[derive(Clone, Copy, PartialEq)]
        pub enum Dir { Floor, Ceil, Trunc, Away, Even }
        /// bits of the correctly rounded integral value of a non-NaN x
        #[inline]
        pub fn spec(x: F, dir: Dir) -> U {
            let a = abs(x);
            let sign = b(x) & SIGN;
            if a >= ((EMAX as u32 + SIG) as U) << SIG { return b(x); }
            let n = neg(x);
            if a < ONE {
                // |x| < 1: the result is 0 or 1 in magnitude
                let half = ((EMAX - 1) as U) << SIG;
                let up = match dir {
                    Dir::Floor => n && a != 0,
                    Dir::Ceil => !n && a != 0,
                    Dir::Trunc => false,
                    Dir::Away => a >= half,
                    Dir::Even => a > half,
                };
                return sign | if up { ONE } else { 0 };
            }
            let fbits = EMAX as u32 + SIG - bexp(x); // 1..=SIG fraction bits
            let unit: U = 1 << fbits;
            let frac = a & (unit - 1);
            let t = a & !(unit - 1);
            let half = unit >> 1;
            let odd = if fbits == SIG { true } else { t & unit != 0 };
            let up = match dir {
                Dir::Floor => n && frac != 0,
                Dir::Ceil => !n && frac != 0,
                Dir::Trunc => false,
                Dir::Away => frac >= half,
                Dir::Even => frac > half || (frac == half && odd),
            };
            sign | if up { t + unit } else { t }
        }
        #[inline]
        pub fn ok(x: F, r: F, dir: Dir) -> bool {
            if is_nan(x) { is_nan(r) } else { b(r) == spec(x, dir) }
        }
    }
} }
rounders!(h);
rounders!(s);
rounders!(d);
rounders!(q);

macro_rules! c01 { ($( $name:ident, $t:ty, $m:ident, $dir:ident, $f:path; )*) => {
    contracts! { $(
        $name(x: $t) {
            let r = $f(x);
            ensures!(self::$m::ok(x, r, self::$m::Dir::$dir), "result is the correctly rounded integral value (sign of zero included)");
        }
    )* }
} }

c01! {
    floorf16, f16, h, Floor, libm::floorf16;
    floorf, f32, s, Floor, libm::floorf;
    floor, f64, d, Floor, libm::floor;
    floorf128, f128, q, Floor, libm::floorf128;
    ceilf16, f16, h, Ceil, libm::ceilf16;
    ceilf, f32, s, Ceil, libm::ceilf;
    ceil, f64, d, Ceil, libm::ceil;
    ceilf128, f128, q, Ceil, libm::ceilf128;
    truncf16, f16, h, Trunc, libm::truncf16;
    truncf, f32, s, Trunc, libm::truncf;
    trunc, f64, d, Trunc, libm::trunc;
    truncf128, f128, q, Trunc, libm::truncf128;
    roundf16, f16, h, Away, libm::roundf16;
    roundf, f32, s, Away, libm::roundf;
    round, f64, d, Away, libm::round;
    roundf128, f128, q, Away, libm::roundf128;
    rintf16, f16, h, Even, libm::rintf16;
    rintf, f32, s, Even, libm::rintf;
    rint, f64, d, Even, libm::rint;
    rintf128, f128, q, Even, libm::rintf128;
    roundevenf16, f16, h, Even, libm::roundevenf16;
    roundevenf, f32, s, Even, libm::roundevenf;
    roundeven, f64, d, Even, libm::roundeven;
    roundevenf128, f128, q, Even, libm::roundevenf128;
}
