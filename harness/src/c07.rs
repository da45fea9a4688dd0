//! C07: exact decompositions frexp, modf, ilogb.
macro_rules! c07 { ($( $m:ident, $t:ty, $frexp:ident, $modf:ident, $ilogb:ident; )*) => {
    contracts! { $(
        $frexp(x: $t) {
            use crate::spec::$m::*;
            let (r, e) = libm::$frexp(x);
            if is_nan(x) { ensures!(is_nan(r), "NaN fraction for NaN"); }
            else if is_inf(x) { ensures!(b(r) == b(x), "infinite fraction for infinity"); }
            else if is_zero(x) { ensures!(b(r) == b(x) && e == 0, "zero keeps its sign, exponent 0"); }
            else {
                let (m, q) = sigexp(x);
                let s = m.leading_zeros() - (BITS - SIG - 1);
                ensures!(neg(r) == neg(x) && bexp(r) == EMAX as u32 - 1, "fraction in [0.5, 1) with the sign of x");
                ensures!((b(r) & FRAC) | IMPL == m << s && e == q - s as i32 + SIG as i32 + 1, "fraction * 2^exponent equals x exactly");
            }
        }
        $modf(x: $t) {
            use crate::spec::$m::*;
            let (f, i) = libm::$modf(x);
            let a = abs(x);
            let sign = b(x) & SIGN;
            if is_nan(x) { ensures!(is_nan(f) && is_nan(i), "NaN parts for NaN"); }
            else if is_inf(x) { ensures!(b(f) == sign && b(i) == b(x), "infinity splits into itself and a signed zero"); }
            else if a < ONE { ensures!(b(f) == b(x) && b(i) == sign, "|x| < 1 is all fraction"); }
            else if a >= ((EMAX as u32 + SIG) as U) << SIG { ensures!(b(f) == sign && b(i) == b(x), "integral values have a signed zero fraction"); }
            else {
                let fbits = EMAX as u32 + SIG - bexp(x);
                let frac = a & (((1 as U) << fbits) - 1);
                ensures!(b(i) == b(x) - frac, "integral part truncates toward zero");
                if frac == 0 { ensures!(b(f) == sign, "signed zero fraction"); }
                else {
                    let p = BITS - 1 - frac.leading_zeros();
                    let want = sign | ((EMAX as u32 + p - fbits) as U) << SIG | ((frac << (SIG - p)) & FRAC);
                    ensures!(b(f) == want, "fraction is the exact difference with the sign of x");
                }
            }
        }
        $ilogb(x: $t) {
            use crate::spec::$m::*;
            let r = libm::$ilogb(x);
            if is_nan(x) { ensures!(r == i32::MIN, "FP_ILOGBNAN"); }
            else if is_inf(x) { ensures!(r == i32::MAX, "INT_MAX for infinities"); }
            else if is_zero(x) { ensures!(r == i32::MIN, "FP_ILOGB0"); }
            else {
                let (m, q) = sigexp(x);
                ensures!(r == q + (BITS - 1 - m.leading_zeros()) as i32, "floor(log2 |x|)");
            }
        }
    )* }
} }
c07! {
    s, f32, frexpf, modff, ilogbf;
    d, f64, frexp, modf, ilogb;
}
