//! C14: every public function returns a value for every argument.  The obligations are those of
//! the language (arithmetic overflow, division by zero, shift amounts, indexing, slices,
//! unwrap/unreachable/assert, and termination of loops through their unwinding assertions); the
//! trailing `ensures!` is the reachability witness.
macro_rules! c14 { ($( $(#[$m:meta])* $f:ident ( $($a:ident : $t:ty),* ); )*) => {
    contracts! { $(
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large_any)]
        $(#[$m])*
        $f($($a: $t),*) {
            let _r = libm::$f($($a),*);
            ensures!(true, "returns");
        }
    )* }
} }
macro_rules! all { (u: [$($u:ident: $ut:ty),* $(,)?] b: [$($b:ident: $bt:ty),* $(,)?] t: [$($t3:ident: $tt:ty),* $(,)?] s: [$($s:ident: $st:ty),* $(,)?] j: [$($j:ident: $jt:ty),* $(,)?]) => {
    c14! { $( $u(x: $ut); )* $( $b(x: $bt, y: $bt); )* $( $t3(x: $tt, y: $tt, z: $tt); )* $( $s(x: $st, n: i32); )*  }
} }

pub mod bits {
all! {
    u: [ceil: f64, ceilf: f32, ceilf16: f16, ceilf128: f128, fabs: f64, fabsf: f32, fabsf16: f16, fabsf128: f128,
        floor: f64, floorf: f32, floorf16: f16, floorf128: f128, frexp: f64, frexpf: f32, ilogb: f64, ilogbf: f32,
        modf: f64, modff: f32, rint: f64, rintf: f32, rintf16: f16, rintf128: f128, round: f64, roundf: f32, roundf16: f16, roundf128: f128,
        roundeven: f64, roundevenf: f32, roundevenf16: f16, roundevenf128: f128, trunc: f64, truncf: f32, truncf16: f16, truncf128: f128,
        sqrt: f64, sqrtf: f32, sqrtf16: f16, sqrtf128: f128]
    b: [copysign: f64, copysignf: f32, copysignf16: f16, copysignf128: f128, fdim: f64, fdimf: f32, fdimf16: f16, fdimf128: f128,
        fmax: f64, fmaxf: f32, fmaxf16: f16, fmaxf128: f128, fmin: f64, fminf: f32, fminf16: f16, fminf128: f128,
        fmaximum: f64, fmaximumf: f32, fmaximumf16: f16, fmaximumf128: f128, fminimum: f64, fminimumf: f32, fminimumf16: f16, fminimumf128: f128,
        fmaximum_num: f64, fmaximum_numf: f32, fmaximum_numf16: f16, fmaximum_numf128: f128,
        fminimum_num: f64, fminimum_numf: f32, fminimum_numf16: f16, fminimum_numf128: f128,
        nextafter: f64, nextafterf: f32, fmod: f64, fmodf: f32, fmodf16: f16, fmodf128: f128,
        remainder: f64, remainderf: f32, remquo: f64, remquof: f32]
    t: [fma: f64, fmaf: f32, fmaf128: f128]
    s: [scalbn: f64, scalbnf: f32, scalbnf16: f16, scalbnf128: f128, ldexp: f64, ldexpf: f32, ldexpf16: f16, ldexpf128: f128]
    j: []
}
}

pub mod elem {
all! {
    u: [acos: f64, acosf: f32, acosh: f64, acoshf: f32, asin: f64, asinf: f32, asinh: f64, asinhf: f32, atan: f64, atanf: f32,
        atanh: f64, atanhf: f32, cbrt: f64, cbrtf: f32, cos: f64, cosf: f32, cosh: f64, coshf: f32, erf: f64, erff: f32, erfc: f64, erfcf: f32,
        exp: f64, expf: f32, exp2: f64, exp2f: f32, exp10: f64, exp10f: f32, expm1: f64, expm1f: f32,
        j0: f64, j0f: f32, j1: f64, j1f: f32, y0: f64, y0f: f32, y1: f64, y1f: f32,
        lgamma: f64, lgammaf: f32, lgamma_r: f64, lgammaf_r: f32, log: f64, logf: f32, log1p: f64, log1pf: f32, log2: f64, log2f: f32, log10: f64, log10f: f32,
        sin: f64, sinf: f32, sincos: f64, sincosf: f32, sinh: f64, sinhf: f32, tan: f64, tanf: f32, tanh: f64, tanhf: f32, tgamma: f64, tgammaf: f32]
    b: [atan2: f64, atan2f: f32, hypot: f64, hypotf: f32, pow: f64, powf: f32]
    t: []
    s: []
    j: []
}
}

/// Bessel functions of integer order: the number of loop iterations grows with |n|, up to 2^31.
/// Contracts for the orders and arguments that return quickly; see DESIGN.md.
pub mod order {
macro_rules! orders { ($( $f:ident, $sp:ident, $t:ty; )*) => { contracts! { $(
    #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large_any)]
    $sp(n: i32, x: $t) {
        requires!(x != x || x == 0.0 || x == <$t>::INFINITY || x == -<$t>::INFINITY);
        let _r = libm::$f(n, x);
        ensures!(true, "returns");
    }
    #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large_any)]
    $f(n: i32, x: $t) {
        requires!(n >= -300 && n <= 300);
        let _r = libm::$f(n, x);
        ensures!(true, "returns");
    }
)* } } }
orders! { jn, jn_special, f64; jnf, jnf_special, f32; yn, yn_special, f64; ynf, ynf_special, f32; }
}

/// Payne-Hanek reduction, for the arguments its callers pass: up to three 24-bit chunks, the first
/// nonzero, exponent of the first chunk, and the precision selector.
pub mod large {
contracts! {
    rem_pio2_large(a: u32, b: u32, c: u32, n: u8, e0: i32, prec: u8) {
        requires!(a >> 23 == 1 && b < 1 << 24 && c < 1 << 24 && n >= 1 && n <= 3 && e0 >= -3 && e0 <= 1000 && prec <= 1);
        let x = [a as f64, b as f64, c as f64];
        let mut y = [0.0, 0.0];
        let r = libm::verif_hooks::rem_pio2_large(&x[..n as usize], &mut y[..if prec == 0 { 1 } else { 2 }], e0, prec as usize);
        ensures!(r >= 0 && r <= 7, "octant");
    }
}
}
