//! C02: sign-bit operations are exact on every bit pattern.
macro_rules! c02 { ($( $m:ident, $t:ty, $fabs:ident, $copysign:ident; )*) => {
    contracts! { $(
        $fabs(x: $t) {
            use crate::spec::$m::*;
            let r = libm::$fabs(x);
            ensures!(b(r) == abs(x), "fabs clears the sign bit and nothing else");
        }
        $copysign(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$copysign(x, y);
            ensures!(b(r) == (abs(x) | (b(y) & SIGN)), "copysign takes magnitude bits from x and the sign bit from y");
        }
    )* }
} }
c02! {
    h, f16, fabsf16, copysignf16;
    s, f32, fabsf, copysignf;
    d, f64, fabs, copysign;
    q, f128, fabsf128, copysignf128;
}
