//! C16, second part: each method of Libm<T> is the free function of the same name and width.
//! Modular: the free function is replaced by an arbitrary deterministic function of its argument bits.
contracts! {
    #[kani::stub(libm::acosf, crate::fw::memo::f32__f32)]
    f32_acos(x: f32) {
    let g = libm::Libm::<f32>::acos(x);
    let w = libm::acosf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::acoshf, crate::fw::memo::f32__f32)]
    f32_acosh(x: f32) {
    let g = libm::Libm::<f32>::acosh(x);
    let w = libm::acoshf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::asinf, crate::fw::memo::f32__f32)]
    f32_asin(x: f32) {
    let g = libm::Libm::<f32>::asin(x);
    let w = libm::asinf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::asinhf, crate::fw::memo::f32__f32)]
    f32_asinh(x: f32) {
    let g = libm::Libm::<f32>::asinh(x);
    let w = libm::asinhf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::atanf, crate::fw::memo::f32__f32)]
    f32_atan(x: f32) {
    let g = libm::Libm::<f32>::atan(x);
    let w = libm::atanf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::atan2f, crate::fw::memo::f32_f32__f32)]
    f32_atan2(y: f32, x: f32) {
    let g = libm::Libm::<f32>::atan2(y, x);
    let w = libm::atan2f(y, x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::atanhf, crate::fw::memo::f32__f32)]
    f32_atanh(x: f32) {
    let g = libm::Libm::<f32>::atanh(x);
    let w = libm::atanhf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::cbrtf, crate::fw::memo::f32__f32)]
    f32_cbrt(x: f32) {
    let g = libm::Libm::<f32>::cbrt(x);
    let w = libm::cbrtf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ceilf, crate::fw::memo::f32__f32)]
    f32_ceil(x: f32) {
    let g = libm::Libm::<f32>::ceil(x);
    let w = libm::ceilf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::copysignf, crate::fw::memo::f32_f32__f32)]
    f32_copysign(x: f32, y: f32) {
    let g = libm::Libm::<f32>::copysign(x, y);
    let w = libm::copysignf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::cosf, crate::fw::memo::f32__f32)]
    f32_cos(x: f32) {
    let g = libm::Libm::<f32>::cos(x);
    let w = libm::cosf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::coshf, crate::fw::memo::f32__f32)]
    f32_cosh(x: f32) {
    let g = libm::Libm::<f32>::cosh(x);
    let w = libm::coshf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::erff, crate::fw::memo::f32__f32)]
    f32_erf(x: f32) {
    let g = libm::Libm::<f32>::erf(x);
    let w = libm::erff(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::erfcf, crate::fw::memo::f32__f32)]
    f32_erfc(x: f32) {
    let g = libm::Libm::<f32>::erfc(x);
    let w = libm::erfcf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::expf, crate::fw::memo::f32__f32)]
    f32_exp(x: f32) {
    let g = libm::Libm::<f32>::exp(x);
    let w = libm::expf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::exp10f, crate::fw::memo::f32__f32)]
    f32_exp10(x: f32) {
    let g = libm::Libm::<f32>::exp10(x);
    let w = libm::exp10f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::exp2f, crate::fw::memo::f32__f32)]
    f32_exp2(x: f32) {
    let g = libm::Libm::<f32>::exp2(x);
    let w = libm::exp2f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::expm1f, crate::fw::memo::f32__f32)]
    f32_expm1(x: f32) {
    let g = libm::Libm::<f32>::expm1(x);
    let w = libm::expm1f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fabsf, crate::fw::memo::f32__f32)]
    f32_fabs(x: f32) {
    let g = libm::Libm::<f32>::fabs(x);
    let w = libm::fabsf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fdimf, crate::fw::memo::f32_f32__f32)]
    f32_fdim(x: f32, y: f32) {
    let g = libm::Libm::<f32>::fdim(x, y);
    let w = libm::fdimf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::floorf, crate::fw::memo::f32__f32)]
    f32_floor(x: f32) {
    let g = libm::Libm::<f32>::floor(x);
    let w = libm::floorf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaf, crate::fw::memo::f32_f32_f32__f32)]
    f32_fma(x: f32, y: f32, z: f32) {
    let g = libm::Libm::<f32>::fma(x, y, z);
    let w = libm::fmaf(x, y, z);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaxf, crate::fw::memo::f32_f32__f32)]
    f32_fmax(x: f32, y: f32) {
    let g = libm::Libm::<f32>::fmax(x, y);
    let w = libm::fmaxf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminf, crate::fw::memo::f32_f32__f32)]
    f32_fmin(x: f32, y: f32) {
    let g = libm::Libm::<f32>::fmin(x, y);
    let w = libm::fminf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmodf, crate::fw::memo::f32_f32__f32)]
    f32_fmod(x: f32, y: f32) {
    let g = libm::Libm::<f32>::fmod(x, y);
    let w = libm::fmodf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::frexpf, crate::fw::memo::f32__f32_i32)]
    f32_frexp(x: f32) {
    let g = libm::Libm::<f32>::frexp(x);
    let w = libm::frexpf(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::hypotf, crate::fw::memo::f32_f32__f32)]
    f32_hypot(x: f32, y: f32) {
    let g = libm::Libm::<f32>::hypot(x, y);
    let w = libm::hypotf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ilogbf, crate::fw::memo::f32__i32)]
    f32_ilogb(x: f32) {
    let g = libm::Libm::<f32>::ilogb(x);
    let w = libm::ilogbf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::j0f, crate::fw::memo::f32__f32)]
    f32_j0(x: f32) {
    let g = libm::Libm::<f32>::j0(x);
    let w = libm::j0f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::j1f, crate::fw::memo::f32__f32)]
    f32_j1(x: f32) {
    let g = libm::Libm::<f32>::j1(x);
    let w = libm::j1f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::jnf, crate::fw::memo::i32_f32__f32)]
    f32_jn(n: i32, x: f32) {
    let g = libm::Libm::<f32>::jn(n, x);
    let w = libm::jnf(n, x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ldexpf, crate::fw::memo::f32_i32__f32)]
    f32_ldexp(x: f32, n: i32) {
    let g = libm::Libm::<f32>::ldexp(x, n);
    let w = libm::ldexpf(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::lgammaf, crate::fw::memo::f32__f32)]
    f32_lgamma(x: f32) {
    let g = libm::Libm::<f32>::lgamma(x);
    let w = libm::lgammaf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::lgammaf_r, crate::fw::memo::f32__f32_i32)]
    f32_lgamma_r(x: f32) {
    let g = libm::Libm::<f32>::lgamma_r(x);
    let w = libm::lgammaf_r(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::logf, crate::fw::memo::f32__f32)]
    f32_log(x: f32) {
    let g = libm::Libm::<f32>::log(x);
    let w = libm::logf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::log10f, crate::fw::memo::f32__f32)]
    f32_log10(x: f32) {
    let g = libm::Libm::<f32>::log10(x);
    let w = libm::log10f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::log1pf, crate::fw::memo::f32__f32)]
    f32_log1p(x: f32) {
    let g = libm::Libm::<f32>::log1p(x);
    let w = libm::log1pf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::log2f, crate::fw::memo::f32__f32)]
    f32_log2(x: f32) {
    let g = libm::Libm::<f32>::log2(x);
    let w = libm::log2f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::modff, crate::fw::memo::f32__f32_f32)]
    f32_modf(x: f32) {
    let g = libm::Libm::<f32>::modf(x);
    let w = libm::modff(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::nextafterf, crate::fw::memo::f32_f32__f32)]
    f32_nextafter(x: f32, y: f32) {
    let g = libm::Libm::<f32>::nextafter(x, y);
    let w = libm::nextafterf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::powf, crate::fw::memo::f32_f32__f32)]
    f32_pow(x: f32, y: f32) {
    let g = libm::Libm::<f32>::pow(x, y);
    let w = libm::powf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::remainderf, crate::fw::memo::f32_f32__f32)]
    f32_remainder(x: f32, y: f32) {
    let g = libm::Libm::<f32>::remainder(x, y);
    let w = libm::remainderf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::remquof, crate::fw::memo::f32_f32__f32_i32)]
    f32_remquo(x: f32, y: f32) {
    let g = libm::Libm::<f32>::remquo(x, y);
    let w = libm::remquof(x, y);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::rintf, crate::fw::memo::f32__f32)]
    f32_rint(x: f32) {
    let g = libm::Libm::<f32>::rint(x);
    let w = libm::rintf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundf, crate::fw::memo::f32__f32)]
    f32_round(x: f32) {
    let g = libm::Libm::<f32>::round(x);
    let w = libm::roundf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundevenf, crate::fw::memo::f32__f32)]
    f32_roundeven(x: f32) {
    let g = libm::Libm::<f32>::roundeven(x);
    let w = libm::roundevenf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::scalbnf, crate::fw::memo::f32_i32__f32)]
    f32_scalbn(x: f32, n: i32) {
    let g = libm::Libm::<f32>::scalbn(x, n);
    let w = libm::scalbnf(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sinf, crate::fw::memo::f32__f32)]
    f32_sin(x: f32) {
    let g = libm::Libm::<f32>::sin(x);
    let w = libm::sinf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sincosf, crate::fw::memo::f32__f32_f32)]
    f32_sincos(x: f32) {
    let g = libm::Libm::<f32>::sincos(x);
    let w = libm::sincosf(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::sinhf, crate::fw::memo::f32__f32)]
    f32_sinh(x: f32) {
    let g = libm::Libm::<f32>::sinh(x);
    let w = libm::sinhf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sqrtf, crate::fw::memo::f32__f32)]
    f32_sqrt(x: f32) {
    let g = libm::Libm::<f32>::sqrt(x);
    let w = libm::sqrtf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::tanf, crate::fw::memo::f32__f32)]
    f32_tan(x: f32) {
    let g = libm::Libm::<f32>::tan(x);
    let w = libm::tanf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::tanhf, crate::fw::memo::f32__f32)]
    f32_tanh(x: f32) {
    let g = libm::Libm::<f32>::tanh(x);
    let w = libm::tanhf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::tgammaf, crate::fw::memo::f32__f32)]
    f32_tgamma(x: f32) {
    let g = libm::Libm::<f32>::tgamma(x);
    let w = libm::tgammaf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::truncf, crate::fw::memo::f32__f32)]
    f32_trunc(x: f32) {
    let g = libm::Libm::<f32>::trunc(x);
    let w = libm::truncf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::y0f, crate::fw::memo::f32__f32)]
    f32_y0(x: f32) {
    let g = libm::Libm::<f32>::y0(x);
    let w = libm::y0f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::y1f, crate::fw::memo::f32__f32)]
    f32_y1(x: f32) {
    let g = libm::Libm::<f32>::y1(x);
    let w = libm::y1f(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ynf, crate::fw::memo::i32_f32__f32)]
    f32_yn(n: i32, x: f32) {
    let g = libm::Libm::<f32>::yn(n, x);
    let w = libm::ynf(n, x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::acos, crate::fw::memo::f64__f64)]
    f64_acos(x: f64) {
    let g = libm::Libm::<f64>::acos(x);
    let w = libm::acos(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::acosh, crate::fw::memo::f64__f64)]
    f64_acosh(x: f64) {
    let g = libm::Libm::<f64>::acosh(x);
    let w = libm::acosh(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::asin, crate::fw::memo::f64__f64)]
    f64_asin(x: f64) {
    let g = libm::Libm::<f64>::asin(x);
    let w = libm::asin(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::asinh, crate::fw::memo::f64__f64)]
    f64_asinh(x: f64) {
    let g = libm::Libm::<f64>::asinh(x);
    let w = libm::asinh(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::atan, crate::fw::memo::f64__f64)]
    f64_atan(x: f64) {
    let g = libm::Libm::<f64>::atan(x);
    let w = libm::atan(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::atan2, crate::fw::memo::f64_f64__f64)]
    f64_atan2(y: f64, x: f64) {
    let g = libm::Libm::<f64>::atan2(y, x);
    let w = libm::atan2(y, x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::atanh, crate::fw::memo::f64__f64)]
    f64_atanh(x: f64) {
    let g = libm::Libm::<f64>::atanh(x);
    let w = libm::atanh(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::cbrt, crate::fw::memo::f64__f64)]
    f64_cbrt(x: f64) {
    let g = libm::Libm::<f64>::cbrt(x);
    let w = libm::cbrt(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ceil, crate::fw::memo::f64__f64)]
    f64_ceil(x: f64) {
    let g = libm::Libm::<f64>::ceil(x);
    let w = libm::ceil(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::copysign, crate::fw::memo::f64_f64__f64)]
    f64_copysign(x: f64, y: f64) {
    let g = libm::Libm::<f64>::copysign(x, y);
    let w = libm::copysign(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::cos, crate::fw::memo::f64__f64)]
    f64_cos(x: f64) {
    let g = libm::Libm::<f64>::cos(x);
    let w = libm::cos(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::cosh, crate::fw::memo::f64__f64)]
    f64_cosh(x: f64) {
    let g = libm::Libm::<f64>::cosh(x);
    let w = libm::cosh(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::erf, crate::fw::memo::f64__f64)]
    f64_erf(x: f64) {
    let g = libm::Libm::<f64>::erf(x);
    let w = libm::erf(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::erfc, crate::fw::memo::f64__f64)]
    f64_erfc(x: f64) {
    let g = libm::Libm::<f64>::erfc(x);
    let w = libm::erfc(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::exp, crate::fw::memo::f64__f64)]
    f64_exp(x: f64) {
    let g = libm::Libm::<f64>::exp(x);
    let w = libm::exp(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::exp10, crate::fw::memo::f64__f64)]
    f64_exp10(x: f64) {
    let g = libm::Libm::<f64>::exp10(x);
    let w = libm::exp10(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::exp2, crate::fw::memo::f64__f64)]
    f64_exp2(x: f64) {
    let g = libm::Libm::<f64>::exp2(x);
    let w = libm::exp2(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::expm1, crate::fw::memo::f64__f64)]
    f64_expm1(x: f64) {
    let g = libm::Libm::<f64>::expm1(x);
    let w = libm::expm1(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fabs, crate::fw::memo::f64__f64)]
    f64_fabs(x: f64) {
    let g = libm::Libm::<f64>::fabs(x);
    let w = libm::fabs(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fdim, crate::fw::memo::f64_f64__f64)]
    f64_fdim(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fdim(x, y);
    let w = libm::fdim(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::floor, crate::fw::memo::f64__f64)]
    f64_floor(x: f64) {
    let g = libm::Libm::<f64>::floor(x);
    let w = libm::floor(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fma, crate::fw::memo::f64_f64_f64__f64)]
    f64_fma(x: f64, y: f64, z: f64) {
    let g = libm::Libm::<f64>::fma(x, y, z);
    let w = libm::fma(x, y, z);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmax, crate::fw::memo::f64_f64__f64)]
    f64_fmax(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fmax(x, y);
    let w = libm::fmax(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximum, crate::fw::memo::f64_f64__f64)]
    f64_fmaximum(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fmaximum(x, y);
    let w = libm::fmaximum(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximum_num, crate::fw::memo::f64_f64__f64)]
    f64_fmaximum_num(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fmaximum_num(x, y);
    let w = libm::fmaximum_num(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximum_numf, crate::fw::memo::f32_f32__f32)]
    f64_fmaximum_numf(x: f32, y: f32) {
    let g = libm::Libm::<f64>::fmaximum_numf(x, y);
    let w = libm::fmaximum_numf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximumf, crate::fw::memo::f32_f32__f32)]
    f64_fmaximumf(x: f32, y: f32) {
    let g = libm::Libm::<f64>::fmaximumf(x, y);
    let w = libm::fmaximumf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmin, crate::fw::memo::f64_f64__f64)]
    f64_fmin(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fmin(x, y);
    let w = libm::fmin(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimum, crate::fw::memo::f64_f64__f64)]
    f64_fminimum(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fminimum(x, y);
    let w = libm::fminimum(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimum_num, crate::fw::memo::f64_f64__f64)]
    f64_fminimum_num(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fminimum_num(x, y);
    let w = libm::fminimum_num(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimum_numf, crate::fw::memo::f32_f32__f32)]
    f64_fminimum_numf(x: f32, y: f32) {
    let g = libm::Libm::<f64>::fminimum_numf(x, y);
    let w = libm::fminimum_numf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimumf, crate::fw::memo::f32_f32__f32)]
    f64_fminimumf(x: f32, y: f32) {
    let g = libm::Libm::<f64>::fminimumf(x, y);
    let w = libm::fminimumf(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmod, crate::fw::memo::f64_f64__f64)]
    f64_fmod(x: f64, y: f64) {
    let g = libm::Libm::<f64>::fmod(x, y);
    let w = libm::fmod(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::frexp, crate::fw::memo::f64__f64_i32)]
    f64_frexp(x: f64) {
    let g = libm::Libm::<f64>::frexp(x);
    let w = libm::frexp(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::hypot, crate::fw::memo::f64_f64__f64)]
    f64_hypot(x: f64, y: f64) {
    let g = libm::Libm::<f64>::hypot(x, y);
    let w = libm::hypot(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ilogb, crate::fw::memo::f64__i32)]
    f64_ilogb(x: f64) {
    let g = libm::Libm::<f64>::ilogb(x);
    let w = libm::ilogb(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::j0, crate::fw::memo::f64__f64)]
    f64_j0(x: f64) {
    let g = libm::Libm::<f64>::j0(x);
    let w = libm::j0(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::j1, crate::fw::memo::f64__f64)]
    f64_j1(x: f64) {
    let g = libm::Libm::<f64>::j1(x);
    let w = libm::j1(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::jn, crate::fw::memo::i32_f64__f64)]
    f64_jn(n: i32, x: f64) {
    let g = libm::Libm::<f64>::jn(n, x);
    let w = libm::jn(n, x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ldexp, crate::fw::memo::f64_i32__f64)]
    f64_ldexp(x: f64, n: i32) {
    let g = libm::Libm::<f64>::ldexp(x, n);
    let w = libm::ldexp(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::lgamma, crate::fw::memo::f64__f64)]
    f64_lgamma(x: f64) {
    let g = libm::Libm::<f64>::lgamma(x);
    let w = libm::lgamma(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::lgamma_r, crate::fw::memo::f64__f64_i32)]
    f64_lgamma_r(x: f64) {
    let g = libm::Libm::<f64>::lgamma_r(x);
    let w = libm::lgamma_r(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::log, crate::fw::memo::f64__f64)]
    f64_log(x: f64) {
    let g = libm::Libm::<f64>::log(x);
    let w = libm::log(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::log10, crate::fw::memo::f64__f64)]
    f64_log10(x: f64) {
    let g = libm::Libm::<f64>::log10(x);
    let w = libm::log10(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::log1p, crate::fw::memo::f64__f64)]
    f64_log1p(x: f64) {
    let g = libm::Libm::<f64>::log1p(x);
    let w = libm::log1p(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::log2, crate::fw::memo::f64__f64)]
    f64_log2(x: f64) {
    let g = libm::Libm::<f64>::log2(x);
    let w = libm::log2(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::modf, crate::fw::memo::f64__f64_f64)]
    f64_modf(x: f64) {
    let g = libm::Libm::<f64>::modf(x);
    let w = libm::modf(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::nextafter, crate::fw::memo::f64_f64__f64)]
    f64_nextafter(x: f64, y: f64) {
    let g = libm::Libm::<f64>::nextafter(x, y);
    let w = libm::nextafter(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::pow, crate::fw::memo::f64_f64__f64)]
    f64_pow(x: f64, y: f64) {
    let g = libm::Libm::<f64>::pow(x, y);
    let w = libm::pow(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::remainder, crate::fw::memo::f64_f64__f64)]
    f64_remainder(x: f64, y: f64) {
    let g = libm::Libm::<f64>::remainder(x, y);
    let w = libm::remainder(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::remquo, crate::fw::memo::f64_f64__f64_i32)]
    f64_remquo(x: f64, y: f64) {
    let g = libm::Libm::<f64>::remquo(x, y);
    let w = libm::remquo(x, y);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::rint, crate::fw::memo::f64__f64)]
    f64_rint(x: f64) {
    let g = libm::Libm::<f64>::rint(x);
    let w = libm::rint(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::round, crate::fw::memo::f64__f64)]
    f64_round(x: f64) {
    let g = libm::Libm::<f64>::round(x);
    let w = libm::round(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundeven, crate::fw::memo::f64__f64)]
    f64_roundevem(x: f64) {
    let g = libm::Libm::<f64>::roundevem(x);
    let w = libm::roundeven(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::scalbn, crate::fw::memo::f64_i32__f64)]
    f64_scalbn(x: f64, n: i32) {
    let g = libm::Libm::<f64>::scalbn(x, n);
    let w = libm::scalbn(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sin, crate::fw::memo::f64__f64)]
    f64_sin(x: f64) {
    let g = libm::Libm::<f64>::sin(x);
    let w = libm::sin(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sincos, crate::fw::memo::f64__f64_f64)]
    f64_sincos(x: f64) {
    let g = libm::Libm::<f64>::sincos(x);
    let w = libm::sincos(x);
    ensures!(crate::fw::eqv(g.0, w.0), "component 0 equals the free function");
    ensures!(crate::fw::eqv(g.1, w.1), "component 1 equals the free function");
    }

    #[kani::stub(libm::sinh, crate::fw::memo::f64__f64)]
    f64_sinh(x: f64) {
    let g = libm::Libm::<f64>::sinh(x);
    let w = libm::sinh(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sqrt, crate::fw::memo::f64__f64)]
    f64_sqrt(x: f64) {
    let g = libm::Libm::<f64>::sqrt(x);
    let w = libm::sqrt(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::tan, crate::fw::memo::f64__f64)]
    f64_tan(x: f64) {
    let g = libm::Libm::<f64>::tan(x);
    let w = libm::tan(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::tanh, crate::fw::memo::f64__f64)]
    f64_tanh(x: f64) {
    let g = libm::Libm::<f64>::tanh(x);
    let w = libm::tanh(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::tgamma, crate::fw::memo::f64__f64)]
    f64_tgamma(x: f64) {
    let g = libm::Libm::<f64>::tgamma(x);
    let w = libm::tgamma(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::trunc, crate::fw::memo::f64__f64)]
    f64_trunc(x: f64) {
    let g = libm::Libm::<f64>::trunc(x);
    let w = libm::trunc(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::y0, crate::fw::memo::f64__f64)]
    f64_y0(x: f64) {
    let g = libm::Libm::<f64>::y0(x);
    let w = libm::y0(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::y1, crate::fw::memo::f64__f64)]
    f64_y1(x: f64) {
    let g = libm::Libm::<f64>::y1(x);
    let w = libm::y1(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::yn, crate::fw::memo::i32_f64__f64)]
    f64_yn(n: i32, x: f64) {
    let g = libm::Libm::<f64>::yn(n, x);
    let w = libm::yn(n, x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ceilf16, crate::fw::memo::f16__f16)]
    f16_ceil(x: f16) {
    let g = libm::Libm::<f16>::ceil(x);
    let w = libm::ceilf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::copysignf16, crate::fw::memo::f16_f16__f16)]
    f16_copysign(x: f16, y: f16) {
    let g = libm::Libm::<f16>::copysign(x, y);
    let w = libm::copysignf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fabsf16, crate::fw::memo::f16__f16)]
    f16_fabs(x: f16) {
    let g = libm::Libm::<f16>::fabs(x);
    let w = libm::fabsf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fdimf16, crate::fw::memo::f16_f16__f16)]
    f16_fdim(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fdim(x, y);
    let w = libm::fdimf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::floorf16, crate::fw::memo::f16__f16)]
    f16_floor(x: f16) {
    let g = libm::Libm::<f16>::floor(x);
    let w = libm::floorf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaxf16, crate::fw::memo::f16_f16__f16)]
    f16_fmax(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fmax(x, y);
    let w = libm::fmaxf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximum_numf16, crate::fw::memo::f16_f16__f16)]
    f16_fmaximum_num(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fmaximum_num(x, y);
    let w = libm::fmaximum_numf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximumf16, crate::fw::memo::f16_f16__f16)]
    f16_fmaximumf16(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fmaximumf16(x, y);
    let w = libm::fmaximumf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminf16, crate::fw::memo::f16_f16__f16)]
    f16_fmin(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fmin(x, y);
    let w = libm::fminf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimumf16, crate::fw::memo::f16_f16__f16)]
    f16_fminimum(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fminimum(x, y);
    let w = libm::fminimumf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimum_numf16, crate::fw::memo::f16_f16__f16)]
    f16_fminimum_num(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fminimum_num(x, y);
    let w = libm::fminimum_numf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmodf16, crate::fw::memo::f16_f16__f16)]
    f16_fmod(x: f16, y: f16) {
    let g = libm::Libm::<f16>::fmod(x, y);
    let w = libm::fmodf16(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ldexpf16, crate::fw::memo::f16_i32__f16)]
    f16_ldexp(x: f16, n: i32) {
    let g = libm::Libm::<f16>::ldexp(x, n);
    let w = libm::ldexpf16(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::rintf16, crate::fw::memo::f16__f16)]
    f16_rint(x: f16) {
    let g = libm::Libm::<f16>::rint(x);
    let w = libm::rintf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundf16, crate::fw::memo::f16__f16)]
    f16_round(x: f16) {
    let g = libm::Libm::<f16>::round(x);
    let w = libm::roundf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundevenf16, crate::fw::memo::f16__f16)]
    f16_roundeven(x: f16) {
    let g = libm::Libm::<f16>::roundeven(x);
    let w = libm::roundevenf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::scalbnf16, crate::fw::memo::f16_i32__f16)]
    f16_scalbn(x: f16, n: i32) {
    let g = libm::Libm::<f16>::scalbn(x, n);
    let w = libm::scalbnf16(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sqrtf16, crate::fw::memo::f16__f16)]
    f16_sqrtf(x: f16) {
    let g = libm::Libm::<f16>::sqrtf(x);
    let w = libm::sqrtf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::truncf16, crate::fw::memo::f16__f16)]
    f16_truncf(x: f16) {
    let g = libm::Libm::<f16>::truncf(x);
    let w = libm::truncf16(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ceilf128, crate::fw::memo::f128__f128)]
    f128_ceil(x: f128) {
    let g = libm::Libm::<f128>::ceil(x);
    let w = libm::ceilf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::copysignf128, crate::fw::memo::f128_f128__f128)]
    f128_copysign(x: f128, y: f128) {
    let g = libm::Libm::<f128>::copysign(x, y);
    let w = libm::copysignf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fabsf128, crate::fw::memo::f128__f128)]
    f128_fabs(x: f128) {
    let g = libm::Libm::<f128>::fabs(x);
    let w = libm::fabsf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fdimf128, crate::fw::memo::f128_f128__f128)]
    f128_fdim(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fdim(x, y);
    let w = libm::fdimf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::floorf128, crate::fw::memo::f128__f128)]
    f128_floor(x: f128) {
    let g = libm::Libm::<f128>::floor(x);
    let w = libm::floorf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaf128, crate::fw::memo::f128_f128_f128__f128)]
    f128_fma(x: f128, y: f128, z: f128) {
    let g = libm::Libm::<f128>::fma(x, y, z);
    let w = libm::fmaf128(x, y, z);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaxf128, crate::fw::memo::f128_f128__f128)]
    f128_fmax(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fmax(x, y);
    let w = libm::fmaxf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximumf128, crate::fw::memo::f128_f128__f128)]
    f128_fmaximum(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fmaximum(x, y);
    let w = libm::fmaximumf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmaximum_numf128, crate::fw::memo::f128_f128__f128)]
    f128_fmaximum_num(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fmaximum_num(x, y);
    let w = libm::fmaximum_numf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminf128, crate::fw::memo::f128_f128__f128)]
    f128_fmin(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fmin(x, y);
    let w = libm::fminf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimumf128, crate::fw::memo::f128_f128__f128)]
    f128_fminimum(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fminimum(x, y);
    let w = libm::fminimumf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fminimum_numf128, crate::fw::memo::f128_f128__f128)]
    f128_fminimum_num(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fminimum_num(x, y);
    let w = libm::fminimum_numf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::fmodf128, crate::fw::memo::f128_f128__f128)]
    f128_fmod(x: f128, y: f128) {
    let g = libm::Libm::<f128>::fmod(x, y);
    let w = libm::fmodf128(x, y);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::ldexpf128, crate::fw::memo::f128_i32__f128)]
    f128_ldexp(x: f128, n: i32) {
    let g = libm::Libm::<f128>::ldexp(x, n);
    let w = libm::ldexpf128(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::rintf128, crate::fw::memo::f128__f128)]
    f128_rint(x: f128) {
    let g = libm::Libm::<f128>::rint(x);
    let w = libm::rintf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundf128, crate::fw::memo::f128__f128)]
    f128_round(x: f128) {
    let g = libm::Libm::<f128>::round(x);
    let w = libm::roundf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::roundevenf128, crate::fw::memo::f128__f128)]
    f128_roundeven(x: f128) {
    let g = libm::Libm::<f128>::roundeven(x);
    let w = libm::roundevenf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::scalbnf128, crate::fw::memo::f128_i32__f128)]
    f128_scalbn(x: f128, n: i32) {
    let g = libm::Libm::<f128>::scalbn(x, n);
    let w = libm::scalbnf128(x, n);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::sqrtf128, crate::fw::memo::f128__f128)]
    f128_sqrt(x: f128) {
    let g = libm::Libm::<f128>::sqrt(x);
    let w = libm::sqrtf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }

    #[kani::stub(libm::truncf128, crate::fw::memo::f128__f128)]
    f128_trunc(x: f128) {
    let g = libm::Libm::<f128>::trunc(x);
    let w = libm::truncf128(x);
    ensures!(crate::fw::eqv(g, w), "component 0 equals the free function");
    }
}
