//! C15: special values (C Annex F; the Bessel functions as in POSIX).
//! The table below is written from the standard, not from libm.

/// one contract per unary function: `name = free function: clauses`
macro_rules! unary { ( $( $d:ident $t:ident $name:ident ( $x:ident, $r:ident ) { $($c:tt)* } )* ) => {
    contracts! { $(
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        $name($x: $t) {
            use crate::spec::$d::*;
            let $r = libm::$name($x);
            if is_nan($x) { ensures!(is_nan($r), "NaN gives NaN"); }
            $($c)*
        }
    )* }
} }

macro_rules! when { ($c:expr => $e:expr, $m:literal) => { if $c { ensures!($e, $m); } } }

macro_rules! both { ( $( $f64:ident $f32:ident ($x:ident, $r:ident) { $($c:tt)* } )* ) => {
    pub mod f64s { unary! { $( d f64 $f64 ($x, $r) { $($c)* } )* } }
    pub mod f32s { unary! { $( s f32 $f32 ($x, $r) { $($c)* } )* } }
} }

both! {
    acos acosf (x, r) {
        when!(b(x) == ONE => b(r) == 0, "acos(1) is +0");
        when!(abs(x) > ONE => is_nan(r), "outside [-1, 1] gives NaN");
    }
    acosh acoshf (x, r) {
        when!(b(x) == ONE => b(r) == 0, "acosh(1) is +0");
        when!(b(x) == INF => b(r) == INF, "acosh(+inf) is +inf");
        when!(x <= -2.0 => is_nan(r), "-2 and below gives NaN");
    }
    asin asinf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(abs(x) > ONE => is_nan(r), "outside [-1, 1] gives NaN");
    }
    asinh asinhf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => b(r) == b(x), "infinity is returned");
    }
    atan atanf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => neg(r) == neg(x) && near(r, PIO2), "infinity gives pi/2 with its sign");
    }
    atanh atanhf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(abs(x) == ONE => is_inf(r) && neg(r) == neg(x), "one is a pole");
        when!(abs(x) > ONE => is_nan(r), "outside [-1, 1] gives NaN");
    }
    cos cosf (x, r) {
        when!(is_zero(x) => b(r) == ONE, "cos(0) is 1");
        when!(is_inf(x) => is_nan(r), "infinity gives NaN");
    }
    sin sinf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => is_nan(r), "infinity gives NaN");
    }
    tan tanf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => is_nan(r), "infinity gives NaN");
    }
    cosh coshf (x, r) {
        when!(is_zero(x) => b(r) == ONE, "cosh(0) is 1");
        when!(is_inf(x) => b(r) == INF, "infinity gives +inf");
    }
    sinh sinhf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => b(r) == b(x), "infinity is returned");
    }
    tanh tanhf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => abs(r) == ONE && neg(r) == neg(x), "infinity gives 1 with its sign");
    }
    exp expf (x, r) {
        when!(is_zero(x) => b(r) == ONE, "exp(0) is 1");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
        when!(b(x) == INF | SIGN => b(r) == 0, "-inf gives +0");
    }
    exp2 exp2f (x, r) {
        when!(is_zero(x) => b(r) == ONE, "exp2(0) is 1");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
        when!(b(x) == INF | SIGN => b(r) == 0, "-inf gives +0");
    }
    exp10 exp10f (x, r) {
        when!(is_zero(x) => b(r) == ONE, "exp10(0) is 1");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
        when!(b(x) == INF | SIGN => b(r) == 0, "-inf gives +0");
    }
    expm1 expm1f (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
        when!(b(x) == INF | SIGN => b(r) == ONE | SIGN, "-inf gives -1");
    }
    log logf (x, r) {
        when!(is_zero(x) => b(r) == INF | SIGN, "zero is a pole");
        when!(b(x) == ONE => b(r) == 0, "log(1) is +0");
        when!(x < 0.0 => is_nan(r), "a negative argument gives NaN");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
    }
    log10 log10f (x, r) {
        when!(is_zero(x) => b(r) == INF | SIGN, "zero is a pole");
        when!(b(x) == ONE => b(r) == 0, "log10(1) is +0");
        when!(x < 0.0 => is_nan(r), "a negative argument gives NaN");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
    }
    log2 log2f (x, r) {
        when!(is_zero(x) => b(r) == INF | SIGN, "zero is a pole");
        when!(b(x) == ONE => b(r) == 0, "log2(1) is +0");
        when!(x < 0.0 => is_nan(r), "a negative argument gives NaN");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
    }
    log1p log1pf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(b(x) == ONE | SIGN => b(r) == INF | SIGN, "-1 is a pole");
        when!(x < -1.0 => is_nan(r), "below -1 gives NaN");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
    }
    cbrt cbrtf (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => b(r) == b(x), "infinity is returned");
    }
    erf erff (x, r) {
        when!(is_zero(x) => b(r) == b(x), "zero keeps its sign");
        when!(is_inf(x) => abs(r) == ONE && neg(r) == neg(x), "infinity gives 1 with its sign");
    }
    erfc erfcf (x, r) {
        when!(is_zero(x) => b(r) == ONE, "erfc(0) is 1");
        when!(b(x) == INF => b(r) == 0, "+inf gives +0");
        when!(b(x) == INF | SIGN => r == 2.0, "-inf gives 2");
    }
    lgamma lgammaf (x, r) {
        when!(x == 1.0 || x == 2.0 => b(r) == 0, "1 and 2 give +0");
        when!(is_zero(x) => b(r) == INF, "zero is a pole");
        when!(is_inf(x) => b(r) == INF, "infinity gives +inf");
    }
    tgamma tgammaf (x, r) {
        when!(is_zero(x) => is_inf(r) && neg(r) == neg(x), "zero is a pole with the sign of the zero");
        when!(x < 0.0 && is_integer(x) => is_nan(r), "a negative integer gives NaN");
        when!(b(x) == INF | SIGN => is_nan(r), "-inf gives NaN");
        when!(b(x) == INF => b(r) == INF, "+inf is returned");
    }
    j0 j0f (x, r) {
        when!(is_zero(x) => b(r) == ONE, "j0(0) is 1");
        when!(is_inf(x) => is_zero(r), "infinity gives 0");
    }
    j1 j1f (x, r) {
        when!(is_zero(x) => is_zero(r), "j1(0) is 0");
        when!(is_inf(x) => is_zero(r), "infinity gives 0");
    }
    y0 y0f (x, r) {
        when!(is_zero(x) => b(r) == INF | SIGN, "zero is a pole");
        when!(x < 0.0 => is_nan(r), "a negative argument gives NaN");
        when!(b(x) == INF => is_zero(r), "+inf gives 0");
    }
    y1 y1f (x, r) {
        when!(is_zero(x) => b(r) == INF | SIGN, "zero is a pole");
        when!(x < 0.0 => is_nan(r), "a negative argument gives NaN");
        when!(b(x) == INF => is_zero(r), "+inf gives 0");
    }
}

macro_rules! binary { ($d:ident, $t:ty, $hypot:ident, $atan2:ident, $pow:ident, $sincos:ident, $lgamma_r:ident, $acosh:ident) => {
    contracts! {
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        $hypot(x: $t, y: $t) {
            use crate::spec::$d::*;
            requires!(!is_fin(x) || !is_fin(y));
            let r = libm::$hypot(x, y);
            when!(is_inf(x) || is_inf(y) => b(r) == INF, "an infinite operand gives +inf, even with a NaN");
            when!((is_nan(x) && !is_inf(y)) || (is_nan(y) && !is_inf(x)) => is_nan(r), "a NaN operand gives NaN");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        hypot_zero(x: $t) {
            use crate::spec::$d::*;
            requires!(!is_nan(x));
            let a: $t = 0.0;
            ensures!(b(libm::$hypot(x, a)) == abs(x) && b(libm::$hypot(x, -a)) == abs(x), "hypot(x, ±0) is |x|");
            ensures!(b(libm::$hypot(a, x)) == abs(x) && b(libm::$hypot(-a, x)) == abs(x), "hypot(±0, x) is |x|");
        }
        $atan2(y: $t, x: $t) {
            use crate::spec::$d::*;
            requires!(!is_fin(x) || !is_fin(y) || is_zero(x) || is_zero(y));
            let r = libm::$atan2(y, x);
            if is_nan(x) || is_nan(y) { ensures!(is_nan(r), "a NaN operand gives NaN"); }
            else {
                when!(is_zero(y) && neg(x) => neg(r) == neg(y) && near(r, PI), "atan2(±0, x) for x < 0 or -0 is ±pi");
                when!(is_zero(y) && !neg(x) => b(r) == b(y), "atan2(±0, x) for x > 0 or +0 is ±0");
                when!(!is_zero(y) && is_zero(x) => neg(r) == neg(y) && near(r, PIO2), "atan2(y, ±0) is ±pi/2");
                when!(is_inf(y) && !is_inf(x) => neg(r) == neg(y) && near(r, PIO2), "atan2(±inf, x) is ±pi/2");
                when!(is_inf(y) && is_inf(x) && neg(x) => neg(r) == neg(y) && near(r, PI3O4), "atan2(±inf, -inf) is ±3pi/4");
                when!(is_inf(y) && is_inf(x) && !neg(x) => neg(r) == neg(y) && near(r, PIO4), "atan2(±inf, +inf) is ±pi/4");
                when!(is_fin(y) && is_inf(x) && neg(x) => neg(r) == neg(y) && near(r, PI), "atan2(y, -inf) is ±pi");
                when!(is_fin(y) && is_inf(x) && !neg(x) => b(r) == b(y) & SIGN, "atan2(y, +inf) is ±0");
            }
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_nan(x: $t, y: $t) {
            use crate::spec::$d::*;
            requires!(is_nan(x) || is_nan(y));
            let r = libm::$pow(x, y);
            if b(x) == ONE || is_zero(y) { ensures!(b(r) == ONE, "pow(+1, NaN) and pow(NaN, ±0) are 1"); }
            else { ensures!(is_nan(r), "any other NaN operand gives NaN"); }
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64_contract)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_one(y: $t) {
            use crate::spec::$d::*;
            let r = libm::$pow(1.0, y);
            ensures!(b(r) == ONE, "pow(+1, y) is 1, even for a NaN");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64_contract)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_to_zero(x: $t) {
            use crate::spec::$d::*;
            ensures!(b(libm::$pow(x, 0.0)) == ONE && b(libm::$pow(x, -0.0)) == ONE, "pow(x, ±0) is 1, even for a NaN");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64_contract)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_to_inf(x: $t, s: u8) {
            use crate::spec::$d::*;
            requires!(!is_nan(x) && s < 2);
            let down = s == 1;
            let r = libm::$pow(x, if down { -<$t>::INFINITY } else { <$t>::INFINITY });
            if abs(x) == ONE { ensures!(b(r) == ONE, "pow(±1, ±inf) is 1"); }
            else if (abs(x) < ONE) == down { ensures!(b(r) == INF, "pow(x, ±inf) diverges to +inf"); }
            else { ensures!(b(r) == 0, "pow(x, ±inf) vanishes to +0"); }
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64_contract)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_of_zero_inf(y: $t, s: u8) {
            use crate::spec::$d::*;
            requires!(!is_nan(y) && !is_zero(y) && s < 4);
            let x = [0.0, -0.0, <$t>::INFINITY, -<$t>::INFINITY][s as usize];
            let r = libm::$pow(x, y);
            let big = is_zero(x) == neg(y);
            let s = if neg(x) && is_odd(y) { SIGN } else { 0 };
            ensures!(b(r) == s | if big { INF } else { 0 }, "pow(±0, y) and pow(±inf, y) are zero or infinite with the sign of an odd power");
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64_contract)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_minus_one(y: $t) {
            use crate::spec::$d::*;
            requires!(is_fin(y));
            let r = libm::$pow(-1.0, y);
            if is_integer(y) { ensures!(b(r) == ONE | if is_odd(y) { SIGN } else { 0 }, "pow(-1, y) for an integer y is ±1"); }
            else { ensures!(is_nan(r), "pow(-1, y) for a non-integer y is NaN"); }
        }
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64_contract)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32_contract)]
        pow_domain(x: $t, y: $t) {
            use crate::spec::$d::*;
            requires!(is_fin(x) && !is_zero(x) && neg(x) && is_fin(y) && !is_integer(y));
            ensures!(is_nan(libm::$pow(x, y)), "a negative finite base with a non-integer exponent gives NaN");
        }
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        #[kani::stub(libm::sqrt, crate::fw::stubs::sqrt64)]
        #[kani::stub(libm::sqrtf, crate::fw::stubs::sqrt32)]
        acosh_domain(x: $t) {
            use crate::spec::$d::*;
            requires!(x < 1.0 && x > -2.0);
            ensures!(is_nan(libm::$acosh(x)), "between -2 and 1 gives NaN");
        }
        #[kani::stub(libm::math::rem_pio2_large::rem_pio2_large, crate::fw::stubs::rem_pio2_large)]
        $sincos(x: $t) {
            use crate::spec::$d::*;
            let (s, c) = libm::$sincos(x);
            when!(is_nan(x) || is_inf(x) => is_nan(s) && is_nan(c), "NaN and infinity give NaN");
            when!(is_zero(x) => b(s) == b(x) && b(c) == ONE, "zero gives (±0, 1)");
        }
        lgamma_poles(x: $t) {
            use crate::spec::$d::*;
            requires!(x < 0.0 && is_integer(x));
            ensures!(b(libm::$lgamma_r(x).0) == INF, "the negative integers are poles");
        }
        $lgamma_r(x: $t) {
            use crate::spec::$d::*;
            requires!(is_nan(x) || is_inf(x) || is_zero(x));
            let (r, s) = libm::$lgamma_r(x);
            when!(is_nan(x) => is_nan(r), "NaN gives NaN");
            when!(is_zero(x) => b(r) == INF && s == if neg(x) { -1 } else { 1 }, "a pole with the sign of the zero");
            when!(is_inf(x) => b(r) == INF, "infinity gives +inf");
        }
    }
} }
pub mod f64b { binary!(d, f64, hypot, atan2, pow, sincos, lgamma_r, acosh); }
pub mod f32b { binary!(s, f32, hypotf, atan2f, powf, sincosf, lgammaf_r, acoshf); }
