//! C17: exact mirror symmetry.
//! For functions that reduce their argument modulo pi/2 the sign of a zero result is stated only
//! below pi/4 (elsewhere the contract is equality of values).
macro_rules! c17 { (odd: [$( $om:ident, $ot:ty, $of:ident; )*] trig: [$( $tm:ident, $tt:ty, $tf:ident; )*] oddfin: [$( $nm:ident, $nt:ty, $nf:ident; )*] even: [$( $em:ident, $et:ty, $ef:ident; )*] evenv: [$( $vm:ident, $vt:ty, $vf:ident; )*] evenj: [$( $jm:ident, $jt:ty, $jf:ident; )*] ) => {
    contracts! { $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        $of(x: $ot) {
            use crate::spec::$om::*;
            requires!(!is_nan(x));
            let (r, n) = (libm::$of(x), libm::$of(-x));
            ensures!((is_nan(r) && is_nan(n)) || b(n) == b(r) ^ SIGN, "f(-x) is -f(x)");
        } )* $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        $tf(x: $tt) {
            use crate::spec::$tm::*;
            requires!(!is_nan(x));
            let (r, n) = (libm::$tf(x), libm::$tf(-x));
            ensures!((is_nan(r) && is_nan(n)) || n == -r, "f(-x) equals -f(x)");
            if x > -0.785 && x < 0.785 { ensures!(b(n) == b(r) ^ SIGN, "f(-x) is -f(x)"); }
        } )* $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large_memo)]
        $nf(x: $nt) {
            use crate::spec::$nm::*;
            requires!(is_fin(x));
            let (r, n) = (libm::$nf(x), libm::$nf(-x));
            ensures!((is_nan(r) && is_nan(n)) || n == -r, "f(-x) equals -f(x)");
        } )* $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        $ef(x: $et) {
            use crate::spec::$em::*;
            requires!(!is_nan(x));
            let (r, n) = (libm::$ef(x), libm::$ef(-x));
            ensures!(same(n, r), "f(-x) is f(x)");
        } )* $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        $vf(x: $vt) {
            use crate::spec::$vm::*;
            requires!(!is_nan(x));
            let (r, n) = (libm::$vf(x), libm::$vf(-x));
            ensures!((is_nan(r) && is_nan(n)) || n == r, "f(-x) equals f(x)");
        } )* $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large_memo)]
        $jf(x: $jt) {
            use crate::spec::$jm::*;
            requires!(!is_nan(x));
            let (r, n) = (libm::$jf(x), libm::$jf(-x));
            ensures!((is_nan(r) && is_nan(n)) || n == r, "f(-x) equals f(x)");
        } )*
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        hypot(x: f64, y: f64) {
            use crate::spec::d::*;
            requires!(!is_nan(x) && !is_nan(y));
            let r = libm::hypot(x, y);
            ensures!(same(r, libm::hypot(-x, y)), "even in the first operand");
            ensures!(same(r, libm::hypot(x, -y)), "even in the second operand");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        hypotf(x: f32, y: f32) {
            use crate::spec::s::*;
            requires!(!is_nan(x) && !is_nan(y));
            let r = libm::hypotf(x, y);
            ensures!(same(r, libm::hypotf(-x, y)), "even in the first operand");
            ensures!(same(r, libm::hypotf(x, -y)), "even in the second operand");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        atan2(y: f64, x: f64) {
            use crate::spec::d::*;
            requires!(!is_nan(x) && !is_nan(y));
            ensures!(b(libm::atan2(-y, x)) == b(libm::atan2(y, x)) ^ SIGN, "odd in the first operand");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        atan2f(y: f32, x: f32) {
            use crate::spec::s::*;
            requires!(!is_nan(x) && !is_nan(y));
            ensures!(b(libm::atan2f(-y, x)) == b(libm::atan2f(y, x)) ^ SIGN, "odd in the first operand");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        sincos(x: f64) {
            use crate::spec::d::*;
            requires!(!is_nan(x));
            let ((s, c), (ms, mc)) = (libm::sincos(x), libm::sincos(-x));
            ensures!((is_nan(s) && is_nan(ms)) || ms == -s, "sine part is odd");
            if x > -0.785 && x < 0.785 { ensures!(b(ms) == b(s) ^ SIGN, "sine part is odd, zeros included"); }
            ensures!((is_nan(c) && is_nan(mc)) || mc == c, "cosine part is even");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        sincosf(x: f32) {
            use crate::spec::s::*;
            requires!(!is_nan(x));
            let ((s, c), (ms, mc)) = (libm::sincosf(x), libm::sincosf(-x));
            ensures!((is_nan(s) && is_nan(ms)) || ms == -s, "sine part is odd");
            if x > -0.785 && x < 0.785 { ensures!(b(ms) == b(s) ^ SIGN, "sine part is odd, zeros included"); }
            ensures!((is_nan(c) && is_nan(mc)) || mc == c, "cosine part is even");
        }
    }
} }
c17! {
    odd: [
        d, f64, asin; s, f32, asinf; d, f64, atan; s, f32, atanf;
        d, f64, sinh; s, f32, sinhf; d, f64, tanh; s, f32, tanhf; d, f64, asinh; s, f32, asinhf; d, f64, atanh; s, f32, atanhf;
        d, f64, erf; s, f32, erff; d, f64, cbrt; s, f32, cbrtf;
        d, f64, trunc; s, f32, truncf; d, f64, round; s, f32, roundf; d, f64, rint; s, f32, rintf;
    ]
    trig: [ d, f64, sin; s, f32, sinf; d, f64, tan; s, f32, tanf; ]
    oddfin: [ d, f64, j1; s, f32, j1f; ]
    even: [
        d, f64, cosh; s, f32, coshf;
    ]
    evenv: [ d, f64, cos; s, f32, cosf; ]
    evenj: [ d, f64, j0; s, f32, j0f; ]
}
