"""Levels and notes of the properties that are not (entirely) proved, and the reasons for those not claimed."""
MIX = ("contract-based deductive verification (Kani-compiled contracts, CBMC, SMT/SAT) for the units it decides; the contracts of the "
       "remaining units are executed on the real code (exhaustively for 16- and 32-bit arguments, otherwise by directed search), "
       "labelled bounded")
MIXN = "Evidence lists, unit by unit, which obligations were discharged and which units are bounded with their bound; a bounded unit is never counted as proved. "
CLAIM2 = {
    "C10": (MIX, "other", MIXN + "Proved: sqrtf16 entirely, special cases of all widths. Exhaustive: sqrtf. Bounded: last-place correctness of sqrt and sqrtf128."),
    "C11": (MIX, "other", MIXN + "Proved: special operands (NaN, infinities, zeros) of all widths. Bounded: single rounding of fma, fmaf, fmaf128."),
    "C13": (MIX, "other", MIXN + "Bounded by Kani: every literal of up to 7 characters after 0x for f16, all rounding modes. Bounded: longer texts, other widths."),
    "C14": (MIX, "proof", MIXN + "Proved for 156 of 168 functions; bounded: pow, powf, cbrt, tgamma, tgammaf (exhaustive), exp10, rem_pio2_large, Bessel functions of order n (orders limited), yn's special orders."),
}
NA2 = {
    "C19": "Needs a bound on the distance between a float result and a real number involving pi (the 2/pi table, Cody-Waite splitting, closest approach of k*pi/2 to a float). No contract language here speaks about transcendental reals, and no back end installed (CBMC/SMT floats, Verus integers) can discharge such an error analysis; executing samples against a high-precision oracle would be testing, not this family. The part with an integer or order statement (termination, indexing, quadrant and range of the reduced argument as assumed by callers) is under C14 and C18.",
    "C20": "Units-in-the-last-place bounds against the mathematical exp, sin, gamma... are statements of real analysis (approximation error of polynomials plus accumulated rounding), outside the contract languages and solvers installed here; only sampling against a multi-precision oracle would remain, which is not this family. Exactly stated functions (rounding, remainder, sqrt, fma, scalbn...) are covered by C01-C12.",
    "C21": "The alternative implementations are inline assembly, SIMD intrinsics and compiler intrinsics: Kani/CBMC and Verus have no semantics for them, so no obligation about them can be generated. The portable code is pinned to exact values by C01-C12, in checked builds; equivalence of the optimised or assembly build is a question about the compiler and the processor.",
}
