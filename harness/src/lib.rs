//! Contracts on the public functions of libm, checked two ways from one text:
//!  * under `cargo kani` every contract becomes one proof harness over *all* bit patterns of
//!    its arguments (requires -> assume, ensures -> assert, plus the language-level obligations
//!    the verifier generates itself: overflow, bounds, shifts, panics);
//!  * natively (`vh-replay`) the same contract is executed on concrete argument bits, which is
//!    how a solver counterexample is replayed against the real code.
#![feature(f16, f128)]
#![allow(unused_imports, unused_macros, dead_code, clippy::all)]

#[macro_use]
pub mod fw;
pub mod spec;

macro_rules! prop_mods { ($($m:ident = $f:literal),* $(,)?) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(feature = "c15")] pub mod c15;
    #[cfg(feature = "c18")] pub mod c18;
    #[cfg(feature = "c12")] pub mod c12;
    #[cfg(feature = "c14")] pub mod c14;
    #[cfg(feature = "c13")] pub mod c13;
    #[cfg(any(feature = "c05", feature = "c06"))] pub mod c05;
    #[cfg(any(feature = "c10", feature = "c11", feature = "c13"))] pub mod c11;
    /// All contracts compiled into this build.
    pub fn all() -> Vec<&'static fw::Contract> {
        #[allow(unused_mut)] let mut v: Vec<&'static fw::Contract> = Vec::new();
        $( #[cfg(feature = $f)] v.extend($m::CONTRACTS.iter()); )*
        #[cfg(feature = "c15")] for c in [c15::f64s::CONTRACTS, c15::f32s::CONTRACTS, c15::f64b::CONTRACTS, c15::f32b::CONTRACTS] { v.extend(c.iter()); }
        #[cfg(feature = "c18")] for c in [c18::f64s::CONTRACTS, c18::f32s::CONTRACTS, c18::f64b::CONTRACTS, c18::f32b::CONTRACTS] { v.extend(c.iter()); }
        #[cfg(feature = "c05")] v.extend(c05::fmod::CONTRACTS.iter());
        #[cfg(feature = "c06")] v.extend(c05::rem::CONTRACTS.iter());
        #[cfg(feature = "c11")] v.extend(c11::CONTRACTS.iter());
        #[cfg(feature = "c12")] v.extend(c12::all());
        #[cfg(feature = "c13")] v.extend(c13::CONTRACTS.iter());
        #[cfg(all(feature = "c13", not(kani)))] v.extend(c13::text::CONTRACTS.iter());
        #[cfg(feature = "c14")] for c in [c14::bits::CONTRACTS, c14::elem::CONTRACTS, c14::order::CONTRACTS, c14::large::CONTRACTS] { v.extend(c.iter()); }
        v
    }
} }

prop_mods! {
    c01 = "c01", c02 = "c02", c03 = "c03", c04 = "c04", c07 = "c07", c08 = "c08", c09 = "c09", c16 = "c16", c16_helper = "c16", c17 = "c17", c22 = "c22", c10 = "c10",
}
