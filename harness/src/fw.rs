//! The contract framework: argument encoding, `requires!`/`ensures!`, and the registry.

/// How a failed contract is reported natively.
pub enum Outcome { Held, PreconditionFalse, Failed(&'static str), Panicked(String) }

pub struct Contract {
    pub name: &'static str,
    /// (argument name, type name)
    pub args: &'static [(&'static str, &'static str)],
    pub widths: &'static [u32],
    pub run: fn(&[u128]) -> Result<(), Fail>,
}

#[derive(Debug)]
pub enum Fail { Pre, Post(&'static str) }

pub trait Arg: Copy {
    const BITS: u32;
    const NAME: &'static str;
    fn from_raw(b: u128) -> Self;
    #[cfg(kani)]
    fn any() -> Self;
}

#[cfg(kani)]
#[inline(never)]
pub fn vh_in_u8() -> u8 { let v: u8 = kani::any(); v }
#[cfg(kani)]
#[inline(never)]
pub fn vh_in_u16() -> u16 { let v: u16 = kani::any(); v }
#[cfg(kani)]
#[inline(never)]
pub fn vh_in_u32() -> u32 { let v: u32 = kani::any(); v }
#[cfg(kani)]
#[inline(never)]
pub fn vh_in_u64() -> u64 { let v: u64 = kani::any(); v }
#[cfg(kani)]
#[inline(never)]
pub fn vh_in_u128() -> u128 { let v: u128 = kani::any(); v }

macro_rules! arg { ($($t:ty, $bits:expr, $u:ty, $in:ident, |$b:ident| $conv:expr);* $(;)?) => { $(
    impl Arg for $t {
        const BITS: u32 = $bits;
        const NAME: &'static str = stringify!($t);
        fn from_raw(b: u128) -> $t { let $b = b as $u; $conv }
        #[cfg(kani)]
        fn any() -> $t { let $b: $u = $in(); $conv }
    }
)* } }
arg! {
    f16, 16, u16, vh_in_u16, |b| f16::from_bits(b);
    f32, 32, u32, vh_in_u32, |b| f32::from_bits(b);
    f64, 64, u64, vh_in_u64, |b| f64::from_bits(b);
    f128, 128, u128, vh_in_u128, |b| f128::from_bits(b);
    u8, 8, u8, vh_in_u8, |b| b;
    u16, 16, u16, vh_in_u16, |b| b;
    u32, 32, u32, vh_in_u32, |b| b;
    u64, 64, u64, vh_in_u64, |b| b;
    u128, 128, u128, vh_in_u128, |b| b;
    i8, 8, u8, vh_in_u8, |b| b as i8;
    i16, 16, u16, vh_in_u16, |b| b as i16;
    i32, 32, u32, vh_in_u32, |b| b as i32;
    i64, 64, u64, vh_in_u64, |b| b as i64;
    i128, 128, u128, vh_in_u128, |b| b as i128;
}

/// `contracts! { mod_const;  name(a: T, b: U) { ... requires!(..); ... ensures!(cond, "text"); } ... }`
macro_rules! contracts {
    ( $( $(#[$m:meta])* $name:ident ( $($a:ident : $t:ty),* ) $body:block )* ) => {
        $(
            #[allow(unreachable_code)]
            pub fn $name($($a: $t),*) -> Result<(), $crate::fw::Fail> { $body; Ok(()) }
        )*
        #[cfg(kani)]
        mod k {
            $(
                #[kani::proof]
                $(#[$m])*
                fn $name() {
                    $( let $a: $t = <$t as $crate::fw::Arg>::any(); )*
                    let _ = super::$name($($a),*);
                }
            )*
        }
        pub static CONTRACTS: &[$crate::fw::Contract] = &[ $(
            $crate::fw::Contract {
                name: concat!(module_path!(), "::", stringify!($name)),
                args: &[ $( (stringify!($a), stringify!($t)) ),* ],
                widths: &[ $( <$t as $crate::fw::Arg>::BITS ),* ],
                run: |raw| {
                    #[allow(unused_mut, unused_variables)] let mut it = raw.iter().copied();
                    $( let $a = <$t as $crate::fw::Arg>::from_raw(it.next().expect("arity")); )*
                    $name($($a),*)
                },
            } ),*
        ];
    };
}

#[cfg(kani)]
macro_rules! requires { ($c:expr) => { kani::assume($c) } }
#[cfg(not(kani))]
macro_rules! requires { ($c:expr) => { if !($c) { return Err($crate::fw::Fail::Pre); } } }

/// A postcondition.  The cover next to it is the vacuity check: the solver must find an input
/// that reaches the obligation.
#[cfg(kani)]
macro_rules! ensures { ($c:expr, $m:literal) => {{
    let c: bool = $c;
    kani::cover!(true, "VH-REACH");
    assert!(c, concat!("VH: ", $m));
}} }
#[cfg(not(kani))]
macro_rules! ensures { ($c:expr, $m:literal) => {
    $crate::fw::hit(line!());
    if !($c) { return Err($crate::fw::Fail::Post($m)); }
} }

/// Native reachability record: which `ensures!` lines a run evaluated.
#[cfg(not(kani))]
thread_local! { pub static LINES: core::cell::RefCell<Option<std::collections::BTreeSet<u32>>> = const { core::cell::RefCell::new(None) }; }
#[cfg(not(kani))]
#[inline]
pub fn hit(l: u32) { LINES.with(|c| if let Some(s) = c.borrow_mut().as_mut() { s.insert(l); }) }

/// Stand-ins for callees of the transcendental functions (Kani stubs).  A caller proved against
/// them holds for every function with the stated contract: `sqrt` any deterministic function (the
/// case-analysis engine recognises the marker and uses IEEE square root), `rem_pio2_large` any
/// deterministic function of its arguments.
#[cfg(kani)]
pub mod stubs {
    pub fn sqrt64(x: f64) -> f64 { let vh_mark_sqrt: f64 = kani::any(); x * vh_mark_sqrt }
    pub fn sqrt32(x: f32) -> f32 { let vh_mark_sqrt: f32 = kani::any(); x * vh_mark_sqrt }

    // sqrt by its contract (proved for C10): special values exact, otherwise any positive finite value
    pub fn sqrt64_contract(x: f64) -> f64 {
        if x == 0.0 || x == f64::INFINITY || x != x { return x; }
        if x < 0.0 { return f64::NAN; }
        let r: u64 = kani::any();
        kani::assume(r > 0 && r < 0x7ff << 52);
        f64::from_bits(r)
    }
    pub fn sqrt32_contract(x: f32) -> f32 {
        if x == 0.0 || x == f32::INFINITY || x != x { return x; }
        if x < 0.0 { return f32::NAN; }
        let r: u32 = kani::any();
        kani::assume(r > 0 && r < 0xff << 23);
        f32::from_bits(r)
    }

    // Every call of one harness returns the same arbitrary result, and from the second call on the
    // arguments must be those of the first call (an obligation of its own): for a harness that only
    // ever asks for one point this is every deterministic function.
    static mut CALLS: u32 = 0;
    static mut KEY: ([u64; 3], usize, i32, usize) = ([0; 3], 0, 0, 0);
    static mut Y: [f64; 3] = [0.0; 3];
    static mut RET: i32 = 0;

    /// any value of magnitude below 2
    fn small() -> f64 {
        let (m, s): (u64, bool) = (kani::any(), kani::any());
        let y = f64::from_bits(m & (u64::MAX >> 2));
        if s { -y } else { y }
    }

    pub fn rem_pio2_large(x: &[f64], y: &mut [f64], e0: i32, prec: usize) -> i32 {
        let len = x.len();
        let b = |i: usize| if i < len { x[i].to_bits() } else { 0 };
        let key = ([b(0), b(1), b(2)], len, e0, prec);
        unsafe {
            if CALLS == 0 {
                KEY = key;
                Y = [small(), small(), small()];
                let r: u8 = kani::any();
                RET = (r & 7) as i32;
            } else {
                assert!(KEY.0[0] == key.0[0] && KEY.0[1] == key.0[1] && KEY.0[2] == key.0[2] && KEY.1 == key.1 && KEY.2 == key.2 && KEY.3 == key.3,
                    "VH-STUB: rem_pio2_large asked for one point only");
            }
            CALLS += 1;
            let n = y.len();
            if n > 0 { y[0] = Y[0]; }
            if n > 1 { y[1] = Y[1]; }
            if n > 2 { y[2] = Y[2]; }
            RET
        }
    }

    /// any result of the right range, whatever the arguments
    pub fn rem_pio2_large_any(x: &[f64], y: &mut [f64], e0: i32, prec: usize) -> i32 {
        assert!(x.len() >= 1 && x.len() <= 3 && y.len() > prec && e0 >= -3 && e0 <= 1000 && (prec == 0 || prec == 1), "VH-STUB: precondition of rem_pio2_large");
        let n = y.len();
        if n > 0 { y[0] = small(); }
        if n > 1 { y[1] = small(); }
        let r: u8 = kani::any();
        (r & 7) as i32
    }

    /// rem_pio2 by the range part of its contract: |y0| at most 0.7854, tail at most 2^-53, any quadrant
    pub fn rem_pio2(_x: f64) -> (i32, f64, f64) {
        let (n, s): (i32, bool) = (kani::any(), kani::any());
        let m: u64 = kani::any();
        kani::assume(m <= 0x3fe9_21fc_0000_0000);
        let (t, u): (u64, bool) = (kani::any(), kani::any());
        kani::assume(t <= 0x3ca0_0000_0000_0000);
        let (y, z) = (f64::from_bits(m), f64::from_bits(t));
        (n, if s { -y } else { y }, if u { -z } else { z })
    }
    pub fn rem_pio2f(_x: f32) -> (i32, f64) {
        let (n, s): (i32, bool) = (kani::any(), kani::any());
        let m: u64 = kani::any();
        kani::assume(m <= 0x3fe9_21fc_0000_0000);
        let y = f64::from_bits(m);
        (n, if s { -y } else { y })
    }

    #[derive(Clone, Copy)]
    struct Rec { key: ([u64; 3], usize, i32, usize), y: [f64; 3], ret: i32 }
    const NONE: Rec = Rec { key: ([0; 3], 99, 0, 0), y: [0.0; 3], ret: 0 };
    static mut RECS: [Rec; 3] = [NONE; 3];
    static mut NREC: usize = 0;

    /// an arbitrary deterministic function, for harnesses that ask for up to four points
    pub fn rem_pio2_large_memo(x: &[f64], y: &mut [f64], e0: i32, prec: usize) -> i32 {
        let len = x.len();
        let b = |i: usize| if i < len { x[i].to_bits() } else { 0 };
        let key = ([b(0), b(1), b(2)], len, e0, prec);
        unsafe {
            let r: u8 = kani::any();
            let mut rec = Rec { key, y: [small(), small(), small()], ret: (r & 7) as i32 };
            let eq = |p: &Rec| p.key.0[0] == key.0[0] && p.key.0[1] == key.0[1] && p.key.0[2] == key.0[2] && p.key.1 == key.1 && p.key.2 == key.2 && p.key.3 == key.3;
            if eq(&RECS[2]) { rec = RECS[2]; }
            if eq(&RECS[1]) { rec = RECS[1]; }
            if eq(&RECS[0]) { rec = RECS[0]; }
            if NREC == 0 { RECS[0] = rec; } else if NREC == 1 { RECS[1] = rec; } else if NREC == 2 { RECS[2] = rec; }
            NREC += 1;
            let n = y.len();
            if n > 0 { y[0] = rec.y[0]; }
            if n > 1 { y[1] = rec.y[1]; }
            if n > 2 { y[2] = rec.y[2]; }
            rec.ret
        }
    }
}

/// Value equality for any result type: same bits, all NaNs identified.
pub trait Eqv: Copy { fn eqv(self, o: Self) -> bool; }
macro_rules! eqv_f { ($($t:ty, $m:ident);*) => { $( impl Eqv for $t { #[inline] fn eqv(self, o: $t) -> bool { crate::spec::$m::same(self, o) } } )* } }
eqv_f!(f16, h; f32, s; f64, d; f128, q);
impl Eqv for i32 { #[inline] fn eqv(self, o: i32) -> bool { self == o } }
pub fn eqv<T: Eqv>(a: T, b: T) -> bool { a.eqv(b) }

/// Arbitrary deterministic functions of the argument bits, for a harness that asks for one point:
/// the first call fixes an arbitrary result, a later call with the same bits returns it again, and
/// any other point gets an unrelated arbitrary result.
#[cfg(kani)]
pub mod memo {
    pub trait Any: Copy { fn any() -> Self; }
    macro_rules! anyf { ($($t:ty, $u:ty);*) => { $( impl Any for $t { fn any() -> $t { let b: $u = kani::any(); <$t>::from_bits(b) } } )* } }
    anyf!(f16, u16; f32, u32; f64, u64; f128, u128);
    impl Any for i32 { fn any() -> i32 { kani::any() } }
    pub trait Raw { fn raw(self) -> u128; }
    macro_rules! rawf { ($($t:ty),*) => { $( impl Raw for $t { fn raw(self) -> u128 { self.to_bits() as u128 } } )* } }
    rawf!(f16, f32, f64, f128);
    impl Raw for i32 { fn raw(self) -> u128 { self as u32 as u128 } }
    pub struct M2 { pub on: bool, pub k: [u128; 3] }
    macro_rules! memos { ($($name:ident ($($a:ident : $t:ty),*) -> ($r:ty) = $mk:expr;)*) => { $(
        #[allow(unused_parens)]
        pub fn $name($($a: $t),*) -> $r {
            static mut KEY: M2 = M2 { on: false, k: [0; 3] };
            static mut VAL: Option<$r> = None;
            let mut k = [0u128; 3];
            let mut i = 0;
            $( k[i] = Raw::raw($a); i += 1; )*
            let _ = i;
            unsafe {
                if !KEY.on { KEY.on = true; KEY.k = k; VAL = Some($mk); }
                if KEY.k[0] == k[0] && KEY.k[1] == k[1] && KEY.k[2] == k[2] { match VAL { Some(v) => v, None => $mk } } else { $mk }
            }
        }
    )* } }
    memos! {
        f16__f16(x: f16) -> (f16) = f16::any();
        f32__f32(x: f32) -> (f32) = f32::any();
        f64__f64(x: f64) -> (f64) = f64::any();
        f128__f128(x: f128) -> (f128) = f128::any();
        f16_f16__f16(x: f16, y: f16) -> (f16) = f16::any();
        f32_f32__f32(x: f32, y: f32) -> (f32) = f32::any();
        f64_f64__f64(x: f64, y: f64) -> (f64) = f64::any();
        f128_f128__f128(x: f128, y: f128) -> (f128) = f128::any();
        f32_f32_f32__f32(x: f32, y: f32, z: f32) -> (f32) = f32::any();
        f64_f64_f64__f64(x: f64, y: f64, z: f64) -> (f64) = f64::any();
        f128_f128_f128__f128(x: f128, y: f128, z: f128) -> (f128) = f128::any();
        f16_i32__f16(x: f16, n: i32) -> (f16) = f16::any();
        f32_i32__f32(x: f32, n: i32) -> (f32) = f32::any();
        f64_i32__f64(x: f64, n: i32) -> (f64) = f64::any();
        f128_i32__f128(x: f128, n: i32) -> (f128) = f128::any();
        i32_f32__f32(n: i32, x: f32) -> (f32) = f32::any();
        i32_f64__f64(n: i32, x: f64) -> (f64) = f64::any();
        f32__i32(x: f32) -> (i32) = i32::any();
        f64__i32(x: f64) -> (i32) = i32::any();
        f32__f32_i32(x: f32) -> ((f32, i32)) = (f32::any(), i32::any());
        f64__f64_i32(x: f64) -> ((f64, i32)) = (f64::any(), i32::any());
        f32__f32_f32(x: f32) -> ((f32, f32)) = (f32::any(), f32::any());
        f64__f64_f64(x: f64) -> ((f64, f64)) = (f64::any(), f64::any());
        f32_f32__f32_i32(x: f32, y: f32) -> ((f32, i32)) = (f32::any(), i32::any());
        f64_f64__f64_i32(x: f64, y: f64) -> ((f64, i32)) = (f64::any(), i32::any());
    }
}
