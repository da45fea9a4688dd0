//! C16: companion functions agree bit for bit.
contracts! {
    #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
    sincos_sin(x: f64) {
        use crate::spec::d::*;
        let (r, w) = (libm::sincos(x).0, libm::sin(x));
        // equal values are equal bits unless both are zero
        ensures!(r == w || (is_nan(r) && is_nan(w)), "sine part of sincos is sin");
        if x > -0.785 && x < 0.785 { ensures!(b(r) == b(w), "sine part of sincos is sin, sign of zero included"); }
    }
    #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
    sincos_cos(x: f64) {
        use crate::spec::d::*;
        let (r, w) = (libm::sincos(x).1, libm::cos(x));
        // equal values are equal bits unless both are zero
        ensures!(r == w || (is_nan(r) && is_nan(w)), "cosine part of sincos is cos");
        if x > -0.785 && x < 0.785 { ensures!(b(r) == b(w), "cosine part of sincos is cos, sign of zero included"); }
    }
    #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
    sincosf_sin(x: f32) {
        use crate::spec::s::*;
        let (r, w) = (libm::sincosf(x).0, libm::sinf(x));
        // equal values are equal bits unless both are zero
        ensures!(r == w || (is_nan(r) && is_nan(w)), "sine part of sincosf is sinf");
        if x > -0.785 && x < 0.785 { ensures!(b(r) == b(w), "sine part of sincosf is sinf, sign of zero included"); }
    }
    #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
    sincosf_cos(x: f32) {
        use crate::spec::s::*;
        let (r, w) = (libm::sincosf(x).1, libm::cosf(x));
        // equal values are equal bits unless both are zero
        ensures!(r == w || (is_nan(r) && is_nan(w)), "cosine part of sincosf is cosf");
        if x > -0.785 && x < 0.785 { ensures!(b(r) == b(w), "cosine part of sincosf is cosf, sign of zero included"); }
    }
    #[kani::stub(libm::lgamma_r, crate::fw::memo::f64__f64_i32)]
    lgamma(x: f64) {
        ensures!(crate::fw::eqv(libm::lgamma(x), libm::lgamma_r(x).0), "lgamma is the value of lgamma_r");
    }
    #[kani::stub(libm::lgammaf_r, crate::fw::memo::f32__f32_i32)]
    lgammaf(x: f32) {
        ensures!(crate::fw::eqv(libm::lgammaf(x), libm::lgammaf_r(x).0), "lgammaf is the value of lgammaf_r");
    }
    #[kani::stub(libm::remquo, crate::fw::memo::f64_f64__f64_i32)]
    remainder(x: f64, y: f64) {
        ensures!(crate::fw::eqv(libm::remainder(x, y), libm::remquo(x, y).0), "remainder is the first result of remquo");
    }
    #[kani::stub(libm::remquof, crate::fw::memo::f32_f32__f32_i32)]
    remainderf(x: f32, y: f32) {
        ensures!(crate::fw::eqv(libm::remainderf(x, y), libm::remquof(x, y).0), "remainderf is the first result of remquof");
    }
    #[kani::stub(libm::scalbn, crate::fw::memo::f64_i32__f64)]
    ldexp(x: f64, n: i32) {
        ensures!(crate::fw::eqv(libm::ldexp(x, n), libm::scalbn(x, n)), "ldexp is scalbn");
    }
    #[kani::stub(libm::scalbnf, crate::fw::memo::f32_i32__f32)]
    ldexpf(x: f32, n: i32) {
        ensures!(crate::fw::eqv(libm::ldexpf(x, n), libm::scalbnf(x, n)), "ldexpf is scalbnf");
    }
    #[kani::stub(libm::scalbnf16, crate::fw::memo::f16_i32__f16)]
    ldexpf16(x: f16, n: i32) {
        ensures!(crate::fw::eqv(libm::ldexpf16(x, n), libm::scalbnf16(x, n)), "ldexpf16 is scalbnf16");
    }
    #[kani::stub(libm::scalbnf128, crate::fw::memo::f128_i32__f128)]
    ldexpf128(x: f128, n: i32) {
        ensures!(crate::fw::eqv(libm::ldexpf128(x, n), libm::scalbnf128(x, n)), "ldexpf128 is scalbnf128");
    }
}
