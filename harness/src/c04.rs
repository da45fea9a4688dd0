//! C04: positive difference.
macro_rules! c04 { ($( $m:ident, $t:ty, $fdim:ident; )*) => {
    contracts! { $(
        $fdim(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fdim(x, y);
            if is_nan(x) || is_nan(y) { ensures!(is_nan(r), "NaN propagates"); }
            else if lt(y, x) {
                // x > y: the IEEE difference, strictly positive because subnormals are kept
                ensures!(b(r) == b(x - y), "the rounded difference x - y");
                ensures!(!neg(r) && !is_zero(r) && !is_nan(r), "a strictly positive difference");
            }
            else { ensures!(b(r) == 0, "+0 when x <= y"); }
        }
    )* }
} }
c04! {
    h, f16, fdimf16;
    s, f32, fdimf;
    d, f64, fdim;
    q, f128, fdimf128;
}
