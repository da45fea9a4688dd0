//! C18: results stay inside the mathematical range (bounds such as pi/2 are rounded to the type).
macro_rules! unary18 { ( $( $d:ident $t:ident $name:ident ( $x:ident, $r:ident ) { $($c:tt)* } )* ) => {
    contracts! { $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2::rem_pio2, crate::fw::stubs::rem_pio2)]
        #[kani::stub(libm::math::rem_pio2f::rem_pio2f, crate::fw::stubs::rem_pio2f)]
        $name($x: $t) {
            use crate::spec::$d::*;
            requires!(!is_nan($x));
            let $r = libm::$name($x);
            $($c)*
        }
    )* }
} }
macro_rules! when { ($c:expr => $e:expr, $m:literal) => { if $c { ensures!($e, $m); } } }
macro_rules! both18 { ( $( $f64:ident $f32:ident ($x:ident, $r:ident) { $($c:tt)* } )* ) => {
    pub mod f64s { unary18! { $( d f64 $f64 ($x, $r) { $($c)* } )* } }
    pub mod f32s { unary18! { $( s f32 $f32 ($x, $r) { $($c)* } )* } }
} }
both18! {
    sin sinf (x, r) { when!(is_fin(x) => abs(r) <= ONE, "|sin| is at most 1"); }
    cos cosf (x, r) { when!(is_fin(x) => abs(r) <= ONE, "|cos| is at most 1"); }
    tanh tanhf (x, r) { ensures!(abs(r) <= ONE && neg(r) == neg(x), "tanh lies in [-1, 1] with the sign of x"); }
    erf erff (x, r) { ensures!(abs(r) <= ONE && neg(r) == neg(x), "erf lies in [-1, 1] with the sign of x"); }
    erfc erfcf (x, r) { ensures!(r >= 0.0 && r <= 2.0, "erfc lies in [0, 2]"); }
    exp expf (x, r) { ensures!(r >= 0.0 && !neg(r), "exp is non-negative"); }
    exp2 exp2f (x, r) { ensures!(r >= 0.0 && !neg(r), "exp2 is non-negative"); }
    exp10 exp10f (x, r) { ensures!(r >= 0.0 && !neg(r), "exp10 is non-negative"); }
    expm1 expm1f (x, r) { ensures!(r >= -1.0 && neg(r) == neg(x), "expm1 is at least -1 and has the sign of x"); }
    cosh coshf (x, r) { ensures!(r >= 1.0, "cosh is at least 1"); }
    sinh sinhf (x, r) { ensures!(!is_nan(r) && neg(r) == neg(x), "sinh has the sign of x"); }
    asinh asinhf (x, r) { ensures!(!is_nan(r) && neg(r) == neg(x), "asinh has the sign of x"); }
    cbrt cbrtf (x, r) { ensures!(!is_nan(r) && neg(r) == neg(x), "cbrt has the sign of x"); }
    atanh atanhf (x, r) { when!(abs(x) < ONE => !is_nan(r) && neg(r) == neg(x), "atanh has the sign of x"); }
    asin asinf (x, r) { when!(abs(x) <= ONE => abs(r) <= PIO2 && neg(r) == neg(x), "asin lies in [-pi/2, pi/2] with the sign of x"); }
    acos acosf (x, r) { when!(abs(x) <= ONE => !neg(r) && abs(r) <= PI, "acos lies in [0, pi]"); }
    atan atanf (x, r) { ensures!(abs(r) <= PIO2 && neg(r) == neg(x), "atan lies in [-pi/2, pi/2] with the sign of x"); }
    acosh acoshf (x, r) { when!(x >= 1.0 => r >= 0.0, "acosh is non-negative"); }
    log logf (x, r) { when!(x >= 1.0 => r >= 0.0, "log is non-negative from 1 on"); when!(x < 1.0 && x >= 0.0 => r < 0.0, "log is negative below 1"); }
    log2 log2f (x, r) { when!(x >= 1.0 => r >= 0.0, "log2 is non-negative from 1 on"); when!(x < 1.0 && x >= 0.0 => r < 0.0, "log2 is negative below 1"); }
    log10 log10f (x, r) { when!(x >= 1.0 => r >= 0.0, "log10 is non-negative from 1 on"); when!(x < 1.0 && x >= 0.0 => r < 0.0, "log10 is negative below 1"); }
    log1p log1pf (x, r) { when!(x > -1.0 => !is_nan(r) && neg(r) == neg(x), "log1p has the sign of x"); }
    j0 j0f (x, r) { ensures!(abs(r) <= ONE, "|j0| is at most 1"); }
    j1 j1f (x, r) { ensures!(abs(r) <= ONE, "|j1| is at most 1"); }
    tgamma tgammaf (x, r) { when!(x > 0.0 => r > 0.0, "tgamma is positive for positive arguments"); }
}
macro_rules! binary18 { ($d:ident, $t:ty, $hypot:ident, $atan2:ident, $pow:ident, $sincos:ident) => {
    contracts! {
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        $hypot(x: $t, y: $t) {
            use crate::spec::$d::*;
            requires!(!is_nan(x) && !is_nan(y));
            let r = libm::$hypot(x, y);
            ensures!(!neg(r) && !is_nan(r) && abs(r) >= abs(x) && abs(r) >= abs(y), "hypot is at least the larger magnitude");
        }
        $atan2(y: $t, x: $t) {
            use crate::spec::$d::*;
            requires!(!is_nan(x) && !is_nan(y));
            let r = libm::$atan2(y, x);
            ensures!(!is_nan(r) && neg(r) == neg(y), "atan2 has the sign of y");
            if neg(x) { ensures!(abs(r) >= PIO2 - 1 && abs(r) <= PI, "atan2 lies in [pi/2, pi] on the left"); }
            else { ensures!(abs(r) <= PIO2, "atan2 lies in [0, pi/2] on the right"); }
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        $pow(x: $t, y: $t) {
            use crate::spec::$d::*;
            requires!(!is_nan(x) && !is_nan(y) && (!neg(x) || is_integer(y)));
            let r = libm::$pow(x, y);
            ensures!(!is_nan(r) && neg(r) == (neg(x) && is_odd(y)), "pow is never NaN here and negative exactly for odd powers of negative bases");
        }
        #[kani::stub(libm::math::rem_pio2::rem_pio2, crate::fw::stubs::rem_pio2)]
        #[kani::stub(libm::math::rem_pio2f::rem_pio2f, crate::fw::stubs::rem_pio2f)]
        $sincos(x: $t) {
            use crate::spec::$d::*;
            requires!(is_fin(x));
            let (s, c) = libm::$sincos(x);
            ensures!(abs(s) <= ONE && abs(c) <= ONE, "both parts are at most 1 in magnitude");
        }
    }
} }
pub mod f64b { binary18!(d, f64, hypot, atan2, pow, sincos); }
pub mod f32b { binary18!(s, f32, hypotf, atan2f, powf, sincosf); }
