//! C03: the three minimum/maximum families.
macro_rules! c03 { ($( $m:ident, $t:ty, $fmin:ident, $fmax:ident, $fminimum:ident, $fmaximum:ident, $fminimum_num:ident, $fmaximum_num:ident; )*) => {
    contracts! { $(
        $fmin(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fmin(x, y);
            if is_nan(x) && is_nan(y) { ensures!(is_nan(r), "NaN when both are NaN"); }
            else if is_nan(x) { ensures!(b(r) == b(y), "the non-NaN operand"); }
            else if is_nan(y) { ensures!(b(r) == b(x), "the non-NaN operand"); }
            else if lt(x, y) { ensures!(b(r) == b(x), "the lesser operand"); }
            else if lt(y, x) { ensures!(b(r) == b(y), "the lesser operand"); }
            else { ensures!(b(r) == b(x) || b(r) == b(y), "one of the equal operands"); }
        }
        $fmax(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fmax(x, y);
            if is_nan(x) && is_nan(y) { ensures!(is_nan(r), "NaN when both are NaN"); }
            else if is_nan(x) { ensures!(b(r) == b(y), "the non-NaN operand"); }
            else if is_nan(y) { ensures!(b(r) == b(x), "the non-NaN operand"); }
            else if lt(y, x) { ensures!(b(r) == b(x), "the greater operand"); }
            else if lt(x, y) { ensures!(b(r) == b(y), "the greater operand"); }
            else { ensures!(b(r) == b(x) || b(r) == b(y), "one of the equal operands"); }
        }
        $fminimum(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fminimum(x, y);
            if is_nan(x) || is_nan(y) { ensures!(is_nan(r), "NaN propagates"); }
            else { ensures!(b(r) == if ord(x) < ord(y) { b(x) } else { b(y) }, "the lesser operand, -0 below +0"); }
        }
        $fmaximum(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fmaximum(x, y);
            if is_nan(x) || is_nan(y) { ensures!(is_nan(r), "NaN propagates"); }
            else { ensures!(b(r) == if ord(x) > ord(y) { b(x) } else { b(y) }, "the greater operand, -0 below +0"); }
        }
        $fminimum_num(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fminimum_num(x, y);
            if is_nan(x) && is_nan(y) { ensures!(is_nan(r), "NaN when both are NaN"); }
            else if is_nan(x) { ensures!(b(r) == b(y), "the non-NaN operand"); }
            else if is_nan(y) { ensures!(b(r) == b(x), "the non-NaN operand"); }
            else { ensures!(b(r) == if ord(x) < ord(y) { b(x) } else { b(y) }, "the lesser operand, -0 below +0"); }
        }
        $fmaximum_num(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$fmaximum_num(x, y);
            if is_nan(x) && is_nan(y) { ensures!(is_nan(r), "NaN when both are NaN"); }
            else if is_nan(x) { ensures!(b(r) == b(y), "the non-NaN operand"); }
            else if is_nan(y) { ensures!(b(r) == b(x), "the non-NaN operand"); }
            else { ensures!(b(r) == if ord(x) > ord(y) { b(x) } else { b(y) }, "the greater operand, -0 below +0"); }
        }
    )* }
} }
c03! {
    h, f16, fminf16, fmaxf16, fminimumf16, fmaximumf16, fminimum_numf16, fmaximum_numf16;
    s, f32, fminf, fmaxf, fminimumf, fmaximumf, fminimum_numf, fmaximum_numf;
    d, f64, fmin, fmax, fminimum, fmaximum, fminimum_num, fmaximum_num;
    q, f128, fminf128, fmaxf128, fminimumf128, fmaximumf128, fminimum_numf128, fmaximum_numf128;
}
