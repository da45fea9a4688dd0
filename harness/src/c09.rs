//! C09: nextafter is the adjacent representable value in the direction of y.
macro_rules! c09 { ($( $m:ident, $t:ty, $f:ident; )*) => {
    contracts! { $(
        $f(x: $t, y: $t) {
            use crate::spec::$m::*;
            let r = libm::$f(x, y);
            // position on the number line in units of representable values; both zeros at 0
            fn pos(v: F) -> I { let a = abs(v) as I; if neg(v) { -a } else { a } }
            if is_nan(x) || is_nan(y) { ensures!(is_nan(r), "NaN propagates"); }
            else if pos(x) == pos(y) { ensures!(b(r) == b(y), "equal arguments return y"); }
            else {
                let step = if pos(y) > pos(x) { 1 } else { -1 };
                ensures!(!is_nan(r) && pos(r) == pos(x) + step, "exactly one representable step toward y");
                if pos(r) == 0 { ensures!(neg(r) == neg(x), "a zero result keeps the sign of x"); }
            }
        }
    )* }
} }
c09! { s, f32, nextafterf; d, f64, nextafter; }
