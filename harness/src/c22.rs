//! C22: status flags of the operations that report one.
use libm::support::{Round, Status};
macro_rules! c22 { ($( $t:ty, $m:ident, $fs:ident $f:path, $cs:ident $c:path, $ts:ident $tr:path, $sq:ident $sqrt:path; )*) => {
    contracts! { $(
        $fs(x: $t) {
            let (r, v) = (libm::generic::floor_status(x), $f(x));
            ensures!(crate::spec::$m::same(r.val, v), "value is the plain function's");
            ensures!(r.status == expected(crate::spec::$m::is_nan(x) || crate::spec::$m::is_inf(x) || crate::spec::$m::is_integer(x)), "inexact exactly when the argument is not integral");
        }
        $cs(x: $t) {
            let (r, v) = (libm::generic::ceil_status(x), $c(x));
            ensures!(crate::spec::$m::same(r.val, v), "value is the plain function's");
            ensures!(r.status == expected(crate::spec::$m::is_nan(x) || crate::spec::$m::is_inf(x) || crate::spec::$m::is_integer(x)), "inexact exactly when the argument is not integral");
        }
        $ts(x: $t) {
            let (r, v) = (libm::generic::trunc_status(x), $tr(x));
            ensures!(crate::spec::$m::same(r.val, v), "value is the plain function's");
            ensures!(r.status == expected(crate::spec::$m::is_nan(x) || crate::spec::$m::is_inf(x) || crate::spec::$m::is_integer(x)), "inexact exactly when the argument is not integral");
        }
        $sq(x: $t) {
            let r = libm::generic::sqrt_round(x, Round::Nearest);
            let invalid = crate::spec::$m::is_nan(x) || (crate::spec::$m::neg(x) && !crate::spec::$m::is_zero(x));
            ensures!(r.status == (if invalid { Status::INVALID } else { Status::OK }), "invalid exactly for NaN and negative arguments");
        }
    )* }
} }
fn expected(exact: bool) -> Status { if exact { Status::OK } else { Status::INEXACT } }
c22! {
    f16, h, floorf16_status libm::floorf16, ceilf16_status libm::ceilf16, truncf16_status libm::truncf16, sqrtf16_round libm::sqrtf16;
    f32, s, floorf_status libm::floorf, ceilf_status libm::ceilf, truncf_status libm::truncf, sqrtf_round libm::sqrtf;
    f64, d, floor_status libm::floor, ceil_status libm::ceil, trunc_status libm::trunc, sqrt_round libm::sqrt;
    f128, q, floorf128_status libm::floorf128, ceilf128_status libm::ceilf128, truncf128_status libm::truncf128, sqrtf128_round libm::sqrtf128;
}
