//! C12: wide integers and integer helpers.
use libm::support::{u256, i256, DInt, HInt, Int, MinInt, CastFrom, CastInto};

fn u(hi: u128, lo: u128) -> u256 { let mut r = <u256 as MinInt>::ZERO; r.lo = lo; r.hi = hi; r }
fn i(hi: u128, lo: u128) -> i256 { u(hi, lo).signed() }
const M: u128 = u64::MAX as u128;

/// bit n of the 256-bit number
fn bit(hi: u128, lo: u128, n: u32) -> bool { if n >= 256 { false } else if n >= 128 { hi >> (n - 128) & 1 == 1 } else { lo >> n & 1 == 1 } }

contracts! {
    u256_add(ah: u128, al: u128, bh: u128, bl: u128) {
        let r = u(ah, al) + u(bh, bl);
        // schoolbook in 64-bit digits
        let d = |h: u128, l: u128| [l & M, l >> 64, h & M, h >> 64];
        let (a, b) = (d(ah, al), d(bh, bl));
        let mut c = 0u128;
        let mut o = [0u128; 4];
        let mut k = 0;
        while k < 4 { let t = a[k] + b[k] + c; o[k] = t & M; c = t >> 64; k += 1; }
        ensures!(r.lo == o[0] | o[1] << 64 && r.hi == o[2] | o[3] << 64, "sum modulo 2^256");
    }
    u256_shr(ah: u128, al: u128, n: u32, k: u8) {
        requires!(n < 256);
        let r = u(ah, al) >> n;
        // bit k of the result is bit k + n of the operand
        ensures!(bit(r.hi, r.lo, k as u32) == bit(ah, al, k as u32 + n), "every bit moves down by n");
    }
    u256_bitor_not(ah: u128, al: u128, bh: u128, bl: u128) {
        let r = u(ah, al) | u(bh, bl);
        ensures!(r.lo == al | bl && r.hi == ah | bh, "bitwise or");
        let n = !u(ah, al);
        ensures!(n.lo == !al && n.hi == !ah, "bitwise not");
        let r = i(ah, al) | i(bh, bl);
        ensures!(r.lo == al | bl && r.hi == ah | bh, "bitwise or (signed)");
        let n = !i(ah, al);
        ensures!(n.lo == !al && n.hi == !ah, "bitwise not (signed)");
    }
    u256_order(ah: u128, al: u128, bh: u128, bl: u128) {
        let (a, b) = (u(ah, al), u(bh, bl));
        let lt = ah < bh || (ah == bh && al < bl);
        let eq = ah == bh && al == bl;
        ensures!((a < b) == lt && (a == b) == eq && (a <= b) == (lt || eq) && (a > b) == !(lt || eq) && (a >= b) == !lt, "numeric order");
        let (a, b) = (i(ah, al), i(bh, bl));
        let lt = (ah as i128) < (bh as i128) || (ah == bh && al < bl);
        ensures!((a < b) == lt && (a == b) == eq && (a <= b) == (lt || eq) && (a > b) == !(lt || eq) && (a >= b) == !lt, "numeric order (signed)");
    }
    u256_parts(ah: u128, al: u128) {
        let a = u(ah, al);
        ensures!(a.lo() == al && a.hi() == ah && a.lo_hi() == (al, ah), "halves");
        let s = a.signed();
        ensures!(s.lo == al && s.hi == ah && s.unsigned().lo == al && s.unsigned().hi == ah, "sign reinterpretation keeps the bits");
        ensures!(s.lo() == al as i128 && s.hi() == ah as i128, "halves (signed)");
        let w = al.widen();
        ensures!(w.lo == al && w.hi == 0 && al.zero_widen().lo == al && al.zero_widen().hi == 0, "zero extension");
        let w = (al as i128).widen();
        ensures!(w.lo == al && w.hi == (if al >> 127 == 1 { u128::MAX } else { 0 }), "sign extension");
        let w = (al as i128).zero_widen();
        ensures!(w.lo == al && w.hi == 0, "zero extension of a signed half");
        ensures!(<u256 as MinInt>::MIN <= a && a <= <u256 as MinInt>::MAX && <i256 as MinInt>::MIN <= s && s <= <i256 as MinInt>::MAX, "MIN and MAX bound every value");
        ensures!(<u256 as MinInt>::BITS == 256 && <i256 as MinInt>::BITS == 256 && <i256 as MinInt>::SIGNED && !<u256 as MinInt>::SIGNED, "type constants");
        ensures!(<u256 as MinInt>::ZERO.lo == 0 && <u256 as MinInt>::ZERO.hi == 0 && <u256 as MinInt>::ONE.lo == 1 && <u256 as MinInt>::ONE.hi == 0
              && <i256 as MinInt>::ZERO.lo == 0 && <i256 as MinInt>::ZERO.hi == 0 && <i256 as MinInt>::ONE.lo == 1 && <i256 as MinInt>::ONE.hi == 0, "zero and one");
    }
    u128_widen_mul(a: u128, b: u128) {
        let r = a.widen_mul(b);
        let z = a.zero_widen_mul(b);
        // schoolbook: a = a1*2^64 + a0, b = b1*2^64 + b0
        let (a0, a1, b0, b1) = (a & M, a >> 64, b & M, b >> 64);
        let (ll, lh, hl, hh) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
        let (lo, c1) = ll.overflowing_add(lh << 64);
        let (lo, c2) = lo.overflowing_add(hl << 64);
        let hi = hh.wrapping_add(lh >> 64).wrapping_add(hl >> 64).wrapping_add(c1 as u128).wrapping_add(c2 as u128);
        ensures!(r.lo == lo && r.hi == hi && z.lo == lo && z.hi == hi, "exact 256-bit product");
    }
}

macro_rules! narrow { ($( $m:ident: $h:ty, $uh:ty, $d:ty, $bits:literal; )*) => { $(
    pub mod $m {
        use super::*;
        contracts! {
            widening(a: $h, b: $h, c: $d) {
                ensures!(a.widen() == a as $d, "value-preserving widening");
                ensures!(a.zero_widen() == a as $uh as $d, "zero extension");
                ensures!(a.widen_hi() == (a as $d) << $bits, "into the high half");
                ensures!(c.lo() == c as $h && c.hi() == (c >> $bits) as $h && c.lo_hi() == (c as $h, (c >> $bits) as $h), "halves");
                ensures!(<$d as DInt>::from_lo_hi(c.lo(), c.hi()) == c, "halves put together again");
                ensures!(a.widen_mul(b) == (a as $d) * (b as $d), "exact product");
                ensures!(a.zero_widen_mul(b) == ((a as $uh as $d).wrapping_mul(b as $uh as $d)), "product of the zero-extended operands");
            }
        }
    }
)* } }
narrow! {
    n_u8: u8, u8, u16, 8; n_u16: u16, u16, u32, 16; n_u32: u32, u32, u64, 32; n_u64: u64, u64, u128, 64;
    n_i8: i8, u8, i16, 8; n_i16: i16, u16, i32, 16; n_i32: i32, u32, i64, 32; n_i64: i64, u64, i128, 64;
}

macro_rules! ints { ($( $m:ident: $t:ty, $ut:ty, $it:ty, $bits:literal, $signed:literal; )*) => { $(
    pub mod $m {
        use super::*;
        contracts! {
            helpers(a: $t, b: $t, n: u32) {
                ensures!(Int::unsigned(a) == a as $ut && Int::signed(a) as $ut == a as $ut && <$t as Int>::from_unsigned(a as $ut) == a, "sign reinterpretation keeps the bits");
                ensures!(Int::logical_shr(a, n) as $ut == (a as $ut) >> (n % $bits), "logical shift right");
                ensures!(Int::wrapping_shr(a, n) == a >> (n % $bits) && Int::wrapping_shl(a, n) == a << (n % $bits), "shifts modulo the width");
                ensures!(Int::abs_diff(a, b) == (if a < b { (b as $ut).wrapping_sub(a as $ut) } else { (a as $ut).wrapping_sub(b as $ut) }), "absolute difference");
                ensures!(Int::is_zero(a) == (a == 0) && <$t as Int>::from_bool(n & 1 == 1) == (n & 1) as $t, "zero test and boolean conversion");
                let (s, o) = Int::overflowing_add(a, b);
                let (d, p) = Int::overflowing_sub(a, b);
                // carry by the sign rule (signed) or by comparison (unsigned)
                let sum = (a as $ut).wrapping_add(b as $ut) as $t;
                let dif = (a as $ut).wrapping_sub(b as $ut) as $t;
                let oa = if $signed { ((a ^ sum) & (b ^ sum)) >> ($bits - 1) & 1 == 1 } else { sum < a };
                let od = if $signed { ((a ^ b) & (a ^ dif)) >> ($bits - 1) & 1 == 1 } else { a < b };
                ensures!(s == sum && o == oa && d == dif && p == od, "overflowing addition and subtraction");
                ensures!(Int::wrapping_add(a, b) == sum && Int::wrapping_sub(a, b) == dif && Int::wrapping_neg(a) == (0 as $ut).wrapping_sub(a as $ut) as $t, "wrapping addition, subtraction, negation");
                ensures!(Int::checked_add(a, b) == (if oa { None } else { Some(sum) }) && Int::checked_sub(a, b) == (if od { None } else { Some(dif) }), "checked addition and subtraction");
                let k = n % $bits;
                ensures!(Int::rotate_left(a, k) as $ut == (if k == 0 { a as $ut } else { (a as $ut) << k | (a as $ut) >> ($bits - k) }), "rotation");
                let z = Int::leading_zeros(a);
                ensures!(if a == 0 { z == $bits } else { z < $bits && (a as $ut) >> ($bits - 1 - z) == 1 }, "leading zeros");
                if a > 0 { ensures!(Int::ilog2(a) == $bits - 1 - z, "integer logarithm"); }
                ensures!(<$t as MinInt>::BITS == $bits && <$t as MinInt>::ZERO == 0 && <$t as MinInt>::ONE == 1 && <$t as MinInt>::SIGNED == $signed
                    && <$t as MinInt>::MIN <= a && a <= <$t as MinInt>::MAX, "type constants");
            }
            mul(a: $t, b: $t) {
                ensures!(Int::wrapping_mul(a, b) == (a as $ut).wrapping_mul(b as $ut) as $t, "wrapping multiplication");
            }
            casts(a: $t) {
                ensures!(CastInto::<u8>::cast_lossy(a) == a as u8 && CastInto::<u16>::cast_lossy(a) == a as u16 && CastInto::<u32>::cast_lossy(a) == a as u32
                    && CastInto::<u64>::cast_lossy(a) == a as u64 && CastInto::<u128>::cast_lossy(a) == a as u128 && CastInto::<usize>::cast_lossy(a) == a as usize, "lossy casts truncate");
                ensures!(CastInto::<i8>::cast_lossy(a) == a as i8 && CastInto::<i16>::cast_lossy(a) == a as i16 && CastInto::<i32>::cast_lossy(a) == a as i32
                    && CastInto::<i64>::cast_lossy(a) == a as i64 && CastInto::<i128>::cast_lossy(a) == a as i128, "lossy signed casts truncate");
                ensures!(<u32 as CastFrom<$t>>::cast_from_lossy(a) == a as u32 && <i32 as CastFrom<$t>>::cast_from_lossy(a) == a as i32 && <u128 as CastFrom<$t>>::cast_from_lossy(a) == a as u128, "casts seen from the target");
                if i32::try_from(a).is_ok() { ensures!(CastInto::<i32>::cast(a) == a as i32, "exact cast to i32"); }
                if u8::try_from(a).is_ok() { ensures!(CastInto::<u8>::cast(a) == a as u8, "exact cast to u8"); }
            }
        }
    }
)* } }
ints! {
    t_u8: u8, u8, i8, 8, false; t_u16: u16, u16, i16, 16, false; t_u32: u32, u32, i32, 32, false; t_u64: u64, u64, i64, 64, false; t_u128: u128, u128, i128, 128, false;
    t_i8: i8, u8, i8, 8, true; t_i16: i16, u16, i16, 16, true; t_i32: i32, u32, i32, 32, true; t_i64: i64, u64, i64, 64, true; t_i128: i128, u128, i128, 128, true;
}
pub fn all() -> Vec<&'static crate::fw::Contract> {
    let mut v: Vec<&'static crate::fw::Contract> = CONTRACTS.iter().collect();
    for c in [n_u8::CONTRACTS, n_u16::CONTRACTS, n_u32::CONTRACTS, n_u64::CONTRACTS, n_i8::CONTRACTS, n_i16::CONTRACTS, n_i32::CONTRACTS, n_i64::CONTRACTS,
        t_u8::CONTRACTS, t_u16::CONTRACTS, t_u32::CONTRACTS, t_u64::CONTRACTS, t_u128::CONTRACTS, t_i8::CONTRACTS, t_i16::CONTRACTS, t_i32::CONTRACTS, t_i64::CONTRACTS, t_i128::CONTRACTS] { v.extend(c.iter()); }
    v
}
