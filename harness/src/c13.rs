//! C13: hexadecimal floating literals.  The specification is an independent reader of the grammar
//!   [+-] ( inf | nan | 0x H* [. H*] p [+-] D+ )   with at least one H
//! giving the exact value as integer * 2^E, and a single rounding of that value.
use crate::c11::Big;
use libm::support::{Hexf, Round, Status};
use libm::support::hex_float::{parse_any, parse_hex_exact};

#[derive(Clone, Copy)]
pub struct Buf { pub b: [u8; 160], pub n: usize }
impl Buf {
    pub fn new() -> Self { Buf { b: [0; 160], n: 0 } }
    pub fn push(&mut self, c: u8) { if self.n < 160 { self.b[self.n] = c; self.n += 1; } }
    pub fn bytes(&self) -> &[u8] { &self.b[..self.n] }
    pub fn str(&self) -> &str { core::str::from_utf8(self.bytes()).unwrap_or("") }
}
impl core::fmt::Write for Buf { fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.bytes() { self.push(c); } Ok(()) } }

const W: usize = 6;
type B = Big<W>;
pub enum Lit { Inf, Nan, Num(B, i64) }
fn hexval(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - 48), b'a'..=b'f' => Some(c - 87), b'A'..=b'F' => Some(c - 55), _ => None } }
fn lower(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }

/// (negative, value); None: not a literal
pub fn read(s: &[u8]) -> Option<(bool, Lit)> {
    let mut i = 0;
    let neg = s.len() > 0 && s[0] == b'-';
    if s.len() > 0 && (s[0] == b'-' || s[0] == b'+') { i = 1; }
    if s.len() == i + 3 {
        let t = [lower(s[i]), lower(s[i + 1]), lower(s[i + 2])];
        if t[0] == b'i' && t[1] == b'n' && t[2] == b'f' { return Some((neg, Lit::Inf)); }
        if t[0] == b'n' && t[1] == b'a' && t[2] == b'n' { return Some((neg, Lit::Nan)); }
    }
    if s.len() < i + 2 || s[i] != b'0' || lower(s[i + 1]) != b'x' { return None; }
    i += 2;
    let (mut m, mut e, mut digits, mut point) = (Big([0; W]), 0i64, 0, false);
    while i < s.len() && lower(s[i]) != b'p' {
        if s[i] == b'.' { if point { return None; } point = true; } else {
            let v = hexval(s[i])?;
            m = m.shl(4); m.0[0] |= v as u128;
            digits += 1;
            if point { e -= 4; }
        }
        i += 1;
    }
    if digits == 0 || i >= s.len() { return None; }
    i += 1;
    let eneg = i < s.len() && s[i] == b'-';
    if i < s.len() && (s[i] == b'-' || s[i] == b'+') { i += 1; }
    if i >= s.len() { return None; }
    let mut x = 0i64;
    while i < s.len() {
        if s[i] < b'0' || s[i] > b'9' { return None; }
        if x < 1 << 40 { x = x * 10 + (s[i] - b'0') as i64; }
        i += 1;
    }
    Some((neg, Lit::Num(m, e + if eneg { -x } else { x })))
}

#[derive(Clone, Copy, PartialEq)]
pub struct Want { pub bits: u128, pub inexact: bool, pub underflow: bool, pub overflow: bool }
/// magnitude m * 2^e rounded to the format in the given direction (of the magnitude)
pub fn round<const N: usize>(m: Big<N>, e: i64, bits: u32, sig: u32, dir: Round) -> Want {
    let emax = (1i64 << (bits - sig - 2)) - 1;
    let emin = 1 - emax - sig as i64;
    let inf = ((1u128 << (bits - sig - 1)) - 1) << sig;
    if m.zero() { return Want { bits: 0, inexact: false, underflow: false, overflow: false }; }
    let top = m.len() as i64 + e;                   // value < 2^top, >= 2^(top-1)
    let lsb = if top - (sig as i64 + 1) < emin { emin } else { top - (sig as i64 + 1) };
    let over = Want { bits: if let Round::Nearest | Round::Positive = dir { inf } else { inf - 1 }, inexact: true, underflow: false, overflow: true };
    if top > emax + 1 { return over; }
    let s = lsb - e;                                // bits to drop
    let (q, half, rest) = if s <= 0 { (m.shl(-s as i32).0[0], false, false) } else {
        let s = if s > 1_000_000 { 1_000_000 } else { s as i32 };
        let h = m.shr(s - 1);
        (m.shr(s).0[0], h.0[0] & 1 == 1, s - 1 >= Big::<N>::T || !h.shl(s - 1).same(m))
    };
    let inexact = half || rest;
    let up = match dir { Round::Nearest => half && (rest || q & 1 == 1), Round::Positive => inexact, Round::Negative | Round::Zero => false };
    let r = (((lsb - emin) as u128) << sig) + q + up as u128;
    if r >= inf { return over; }
    Want { bits: r, inexact, underflow: inexact && r < 1 << sig, overflow: false }
}
fn mirror(neg: bool, d: Round) -> Round { match (neg, d) { (true, Round::Positive) => Round::Negative, (true, Round::Negative) => Round::Positive, _ => d } }
pub fn want(s: &[u8], bits: u32, sig: u32, dir: Round) -> Option<Want> {
    let (neg, l) = read(s)?;
    let inf = ((1u128 << (bits - sig - 1)) - 1) << sig;
    let exact = |b| Want { bits: b, inexact: false, underflow: false, overflow: false };
    let mut w = match l { Lit::Inf => exact(inf), Lit::Nan => exact(inf | 1 << (sig - 1)), Lit::Num(m, e) => round(m, e, bits, sig, mirror(neg, dir)) };
    if neg { w.bits |= 1 << (bits - 1); }
    Some(w)
}
pub fn agrees(s: &str, bits: u32, sig: u32, dir: Round) -> bool {
    let w = want(s.as_bytes(), bits, sig, dir);
    match (parse_any(s, bits, sig, dir), w) {
        (Err(_), None) => true,
        (Ok((b, st)), Some(w)) => b == w.bits && st.inexact() == w.inexact && st.underflow() == w.underflow && st.overflow() == w.overflow
            && (w.inexact || st == Status::OK),
        _ => false,
    }
}
pub fn exact_agrees(s: &str, bits: u32, sig: u32) -> bool {
    match (parse_hex_exact(s, bits, sig), want(s.as_bytes(), bits, sig, Round::Nearest)) {
        (Ok(b), Some(w)) => b == w.bits && !w.inexact,
        (Err(_), Some(w)) => w.inexact,
        (Err(_), None) => true,
        (Ok(_), None) => false,
    }
}
fn dir(k: u64) -> Round { match k & 3 { 0 => Round::Nearest, 1 => Round::Negative, 2 => Round::Positive, _ => Round::Zero } }
fn format(k: u64) -> (u32, u32) { match k % 8 { 0 | 4 => (16, 10), 1 | 5 => (32, 23), 2 | 6 => (64, 52), 3 => (128, 112), _ => (8, 3) } }

fn put_hex(b: &mut Buf, v: u128, n: u32, upper: bool) {
    let mut k = n;
    while k > 0 {
        k -= 1;
        let d = ((v >> (4 * k)) & 15) as u8;
        b.push(if d < 10 { 48 + d } else if upper { 55 + d } else { 87 + d });
    }
}
fn put_dec(b: &mut Buf, v: u64, zeros: u32) {
    let mut z = zeros; while z > 0 { b.push(b'0'); z -= 1; }
    let mut t = [0u8; 20]; let mut n = 0; let mut v = v;
    loop { t[n] = 48 + (v % 10) as u8; v /= 10; n += 1; if v == 0 { break; } }
    while n > 0 { n -= 1; b.push(t[n]); }
}
/// a literal with every part chosen by the arguments
pub fn literal(sig: u128, tail: u64, shape: u64, exp: i64) -> Buf {
    let mut d = Buf::new();
    let f = |at: u32, n: u32| (shape >> at) & ((1 << n) - 1);
    let upper = f(0, 1) == 1;
    let lead = if f(1, 2) == 0 { f(3, 4) } else { 0 };
    let nd = 1 + f(7, 5) as u32;
    let zeros = if f(12, 1) == 0 { 0 } else { f(13, 5) };
    let nt = if f(18, 1) == 0 { 0 } else { f(19, 4) as u32 };
    for _ in 0..lead { d.push(b'0'); }
    put_hex(&mut d, sig, nd, upper);
    for _ in 0..zeros { d.push(b'0'); }
    put_hex(&mut d, tail as u128, nt, f(23, 1) == 1);
    let total = d.n as u64;
    // the point: none, after the first digit, or anywhere
    let p = match f(24, 2) { 0 => total + 1, 1 => 1, 2 => f(26, 7) % (total + 1), _ => lead + 1 };
    let mut b = Buf::new();
    match f(33, 2) { 1 => b.push(b'-'), 2 => b.push(b'+'), _ => {} }
    b.push(b'0'); b.push(if f(35, 1) == 1 { b'X' } else { b'x' });
    for i in 0..d.n { if i as u64 == p { b.push(b'.'); } b.push(d.b[i]); }
    if p == total { b.push(b'.'); }
    b.push(if f(36, 1) == 1 { b'P' } else { b'p' });
    // exponents: raw, or in the range that matters
    let e = match f(37, 3) { 0 => exp, 1 => exp % 100_000, 2 => exp % 17_000, 3 => exp % 1100, 4 => exp % 160, 5 => exp % 30, 6 => -1074 - 64 + exp % 200, _ => -149 - 16 + exp % 60 };
    if e < 0 { b.push(b'-'); } else if f(40, 1) == 1 { b.push(b'+'); }
    put_dec(&mut b, e.unsigned_abs(), if f(41, 3) == 0 { f(44, 3) as u32 } else { 0 });
    b
}
const ALPHABET: &[u8; 64] = b"0011223456789abcdefABCDEFpPpPxXxX++--..inNfFaAgG z_0x0x0x1p1p1.1";

#[cfg(not(kani))]
fn show<F: Copy>(x: Hexf<F>) -> Buf where Hexf<F>: core::fmt::LowerHex {
    use core::fmt::Write;
    let mut b = Buf::new();
    let _ = write!(b, "{:x}", x);
    b
}

/// the whole of a literal short enough for the verifier to read
fn short(c: [u8; 7], n: u8, mode: u8) -> Result<(), crate::fw::Fail> {
    requires!(n <= 7);
    let mut b = [b'0', b'x', 0, 0, 0, 0, 0, 0, 0];
    b[2] = c[0]; b[3] = c[1]; b[4] = c[2]; b[5] = c[3]; b[6] = c[4]; b[7] = c[5]; b[8] = c[6];
    requires!(c[0] < 128 && c[1] < 128 && c[2] < 128 && c[3] < 128 && c[4] < 128 && c[5] < 128 && c[6] < 128);
    let b = &b[..2 + n as usize];
    // independent reader for literals of at most 28 bits
    let (mut m, mut e, mut x, mut digits, mut point, mut st, mut eneg, mut ok, mut xd) = (0u128, 0i32, 0i32, 0u32, false, 0u8, false, true, 0u32);
    let mut i = 2;
    while i < b.len() {
        let ch = b[i];
        if st == 0 {
            if ch == b'.' { if point { ok = false; } point = true; }
            else if ch == b'p' || ch == b'P' { st = 1; }
            else { match hexval(ch) { Some(v) => { m = m * 16 + v as u128; digits += 1; if point { e -= 4; } } None => { ok = false; } } }
        } else if st == 1 && (ch == b'-' || ch == b'+') { eneg = ch == b'-'; st = 2; }
        else if ch >= b'0' && ch <= b'9' { x = x * 10 + (ch - b'0') as i32; xd += 1; st = 2; }
        else { ok = false; }
        i += 1;
    }
    let ok = ok && digits > 0 && xd > 0;
    let r = parse_any(unsafe { core::str::from_utf8_unchecked(b) }, 16, 10, dir(mode as u64));
    match r {
        Err(_) => { ensures!(!ok, "a well-formed literal is accepted"); }
        Ok((bits, s)) => {
            ensures!(ok, "a malformed literal is rejected");
            let w = round(Big([m]), (e + if eneg { -x } else { x }) as i64, 16, 10, dir(mode as u64));
            ensures!(bits == w.bits, "correctly rounded in the requested direction");
            ensures!(s.inexact() == w.inexact && s.underflow() == w.underflow && s.overflow() == w.overflow, "status flags");
        }
    }
    Ok(())
}

contracts! {
    short_literal(c: u64, n: u8, mode: u8) {
        requires!(mode < 4 && n < 8);
        let k = c.to_le_bytes();
        return short([k[0], k[1], k[2], k[3], k[4], k[5], k[6]], n, mode);
    }
}

#[cfg(not(kani))]
pub mod text {
use super::*;
contracts! {
    parse(sig: u128, tail: u64, shape: u64, exp: i64, sel: u8) {
        let b = literal(sig, tail, shape, exp);
        let (bits, s) = format((sel >> 2) as u64);
        ensures!(read(b.bytes()).is_some() && agrees(b.str(), bits, s, dir(sel as u64)), "correctly rounded value and status");
        ensures!(exact_agrees(b.str(), bits, s), "exact parse accepts exactly the representable literals");
    }
    /// a literal with one byte replaced, inserted or removed
    edited(sig: u128, tail: u64, shape: u64, exp: i64, sel: u8, at: u8, edit: u8) {
        let b = literal(sig & 0xffff, tail, shape & !0xf80, exp % 5000);
        let mut e = Buf::new();
        let at = at as usize % (b.n + 1);
        let c = ALPHABET[(edit >> 2) as usize];
        for i in 0..b.n {
            if i == at { match edit & 3 { 0 => { e.push(c); continue; } 1 => { e.push(c); } 2 => { continue; } _ => { e.push(b.b[i]); } } }
            e.push(b.b[i]);
        }
        if at == b.n && edit & 3 == 1 { e.push(c); }
        let (bits, s) = format((sel >> 2) as u64);
        ensures!(agrees(e.str(), bits, s, dir(sel as u64)), "accepted exactly when well-formed, with the right value");
        ensures!(exact_agrees(e.str(), bits, s), "exact parse");
    }
    free(text: u128, n: u8, pre: u8, sel: u8) {
        let mut b = Buf::new();
        for &c in match pre & 7 { 0 => &b""[..], 1 => b"-", 2 => b"+", 3 => b"-0x", 4 => b"0X", _ => b"0x" } { b.push(c); }
        for i in 0..(n as usize % 21) { b.push(ALPHABET[((text >> (6 * i)) & 63) as usize]); }
        let (bits, s) = format((sel >> 2) as u64);
        ensures!(agrees(b.str(), bits, s, dir(sel as u64)), "accepted exactly when well-formed, with the right value");
        ensures!(exact_agrees(b.str(), bits, s), "exact parse");
    }
    format16(x: f16) { use crate::spec::h::*; let t = show(Hexf(x)); ensures!(back(t.str(), 16, 10, b(x) as u128), "formatting then parsing is the identity"); }
    format32(x: f32) { use crate::spec::s::*; let t = show(Hexf(x)); ensures!(back(t.str(), 32, 23, b(x) as u128), "formatting then parsing is the identity"); }
    format64(x: f64) { use crate::spec::d::*; let t = show(Hexf(x)); ensures!(back(t.str(), 64, 52, b(x) as u128), "formatting then parsing is the identity"); }
    format128(x: f128) { use crate::spec::q::*; let t = show(Hexf(x)); ensures!(back(t.str(), 128, 112, b(x) as u128), "formatting then parsing is the identity"); }
}
/// the text reads back (by the independent reader and by the crate) as the same value; NaN as a NaN
fn back(t: &str, bits: u32, sig: u32, x: u128) -> bool {
    let inf = ((1u128 << (bits - sig - 1)) - 1) << sig;
    let mag = x & ((1u128 << (bits - 1)) - 1);
    let nan = mag > inf;
    let same = |r: u128| if nan { r & ((1u128 << (bits - 1)) - 1) > inf } else { r == x };
    (match want(t.as_bytes(), bits, sig, Round::Nearest) { Some(w) => same(w.bits) && !w.inexact, None => false })
        && (match parse_any(t, bits, sig, Round::Nearest) { Ok((r, s)) => same(r) && s == Status::OK, Err(_) => false })
        && (match parse_hex_exact(t, bits, sig) { Ok(r) => same(r), Err(_) => false })
}
}
