import json
G="libm/src/math/generic/"; M="libm/src/math/"; S="libm/src/math/support/"
def P(id,title,st,over,text,why,files,mech,obs,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    return d
T="The suite compares against MPFR/musl and hand-written cases on sampled inputs; "
L=[
P("C01","Rounding functions give the exact integral value in the named direction",
 "For every argument, floor, ceil, trunc, round (ties away from zero), rint and roundeven (ties to even) return exactly the mathematically rounded integral value, in every float width. The result keeps the sign of the argument even when it is zero; infinities and already integral values return unchanged and NaN gives NaN.",
 ["inputs"],"every bit pattern of f16, f32, f64 and f128",
 T+"only f16/f32 unary functions are ever walked densely, f64 and f128 are sampled, and the bit-boundary cases are exponent-dependent.",
 [G+f for f in ("floor.rs","ceil.rs","trunc.rs","round.rs","rint.rs")]+[M+f for f in ("floor.rs","ceil.rs","trunc.rs","round.rs","rint.rs","roundeven.rs")],
 [("masking of fraction bits by exponent",G+"floor.rs, ceil.rs, trunc.rs"),("add/subtract of the toint constant",G+"rint.rs"),("trunc of x plus just under one half",G+"round.rs")],["bits of the returned value"]),
P("C02","fabs and copysign touch only the sign bit",
 "For every bit pattern, NaNs included, fabs returns the argument with its sign bit cleared and copysign returns the magnitude bits of the first argument with the sign bit of the second.",
 ["inputs"],"every (pair of) bit pattern(s) of f16, f32, f64, f128",T+"NaN payloads and pairs of 64/128-bit patterns are only sampled.",
 [G+"fabs.rs",G+"copysign.rs",M+"fabs.rs",M+"copysign.rs"],[("sign mask operations",G+"fabs.rs, copysign.rs, "+S+"float_traits.rs")],["bits of the returned value"]),
P("C03","min/max families pick the right operand, with each family's NaN/zero rules",
 "For every pair, fmin/fmax, fminimum/fmaximum and fminimum_num/fmaximum_num return one of the two operands: the lesser (greater) one when neither is NaN. The fmin/fmax and _num families ignore a single NaN operand and return the other operand, the fminimum/fmaximum pair propagates NaN, and the fminimum/fmaximum and _num families order -0 below +0.",
 ["inputs"],"every pair of bit patterns in all four widths",T+"the special-case tables list selected pairs of zeros, NaNs and infinities, and the random tests rarely hit sign-of-zero or NaN-sign combinations.",
 [G+"fmin.rs",G+"fmax.rs",G+"fminimum.rs",G+"fmaximum.rs",G+"fminimum_num.rs",G+"fmaximum_num.rs",M+"fmin_fmax.rs",M+"fminimum_fmaximum.rs",M+"fminimum_fmaximum_num.rs"],
 [("selection by comparison and sign",G+"fm*.rs")],["bits of the returned value"]),
P("C04","fdim is the rounded positive difference",
 "For every pair, fdim returns x - y correctly rounded when x > y, +0 when x <= y (also for equal infinities), and NaN when either operand is NaN; a positive difference is never flushed to zero.",
 ["inputs"],"every pair of bit patterns in all four widths",T+"pairs are sampled.",[G+"fdim.rs",M+"fdim.rs"],[("comparison then subtraction",G+"fdim.rs")],["bits of the returned value"]),
P("C05","fmod returns the exact truncated-division remainder",
 "For all finite x and nonzero y, fmod(x, y) is exactly x - n*y for the integer n obtained by truncating x/y, carries the sign of x and is smaller in magnitude than y. It never rounds, returns x itself when |x| < |y| (including infinite y), and is NaN exactly when an operand is NaN, x is infinite or y is zero.",
 ["inputs"],"every pair of bit patterns in all four widths, whatever the exponent difference (up to tens of thousands of loop iterations)",
 T+"the loop runs once per bit of exponent difference, so a wrong iteration shows only for particular exponent pairs and operand bits.",
 [G+"fmod.rs",M+"fmod.rs"],[("normalisation of subnormals and bitwise long division",G+"fmod.rs")],["bits of the returned value"]),
P("C06","remainder and remquo return the exact nearest-quotient remainder",
 "For all finite x and nonzero y, remainder and the first result of remquo equal exactly x - n*y with n the integer nearest x/y (ties to even). The second result of remquo has the sign of x/y and agrees with |n| in at least its low three bits; invalid operands give NaN.",
 ["inputs"],"every pair of f32 and of f64 bit patterns",T+"remquo's quotient bits and the tie decision depend on a loop of data-dependent length over sampled pairs.",
 [M+"remquo.rs",M+"remquof.rs",M+"remainder.rs",M+"remainderf.rs"],[("bitwise long division with quotient accumulation and final tie decision",M+"remquo.rs, remquof.rs")],["bits of the remainder, quotient integer"]),
P("C07","frexp, modf and ilogb decompose every value exactly",
 "For every finite nonzero x, frexp gives a fraction in [0.5, 1) with the sign of x and an exponent whose product is exactly x, ilogb gives floor(log2|x|), and modf gives a truncated integral part and a fractional part with the sign of x that sum exactly to x. Zeros, infinities and NaN give the documented C results.",
 ["inputs"],"every f32 and f64 bit pattern, subnormals included",T+"f64 subnormals and exponent boundaries are sampled.",
 [M+f for f in ("frexp.rs","frexpf.rs","modf.rs","modff.rs","ilogb.rs","ilogbf.rs")],[("exponent extraction, subnormal scaling by 2^64, fraction masks",M+"frexp.rs, modf.rs, ilogb.rs")],["returned values"]),
P("C08","scalbn/ldexp multiply by a power of two with a single rounding",
 "For every x and every 32-bit n, scalbn and ldexp return x * 2^n rounded once to nearest-even, with overflow to infinity and gradual underflow to subnormals and zero, keeping the sign. Zeros, infinities and NaN pass through for every n.",
 ["inputs"],"every bit pattern of x in four widths times every i32 exponent",T+"double rounding at the subnormal boundary occurs only for specific significand/exponent combinations.",
 [G+"scalbn.rs",M+"scalbn.rs",M+"ldexp.rs"],[("staged multiplications by powers of two that keep one rounding",G+"scalbn.rs")],["bits of the returned value"]),
P("C09","nextafter steps to the adjacent representable value",
 "For all non-NaN x and y, nextafter(x, y) is the representable value adjacent to x in the direction of y, crossing zero and the overflow boundary correctly, and is y when x equals y. NaN operands give NaN.",
 ["inputs"],"every pair of f32 and of f64 bit patterns",T+"pairs are sampled; zero crossing and sign combinations are special.",
 [M+"nextafter.rs",M+"nextafterf.rs"],[("integer increment/decrement of the bit pattern",M+"nextafter.rs")],["bits of the returned value"]),
P("C10","sqrt is correctly rounded",
 "For every non-negative x, sqrt returns the representable value nearest the exact square root (ties to even), exactly the root when it is representable. sqrt(-0) is -0, sqrt(+inf) is +inf, and negative or NaN arguments give NaN.",
 ["inputs"],"every bit pattern of f16, f32, f64 and f128",T+"a failure of the last-bit correction needs a square root lying extremely close to a rounding boundary; f64/f128 cannot be enumerated.",
 [G+"sqrt.rs",M+"sqrt.rs"],[("table estimate, Goldschmidt iterations, final remainder-sign correction",G+"sqrt.rs")],["bits of the returned value"]),
P("C11","fma computes x*y+z with a single rounding",
 "For every triple, fma returns the exact value of x*y+z rounded once to nearest-even, including exact cancellation (sign of zero), overflow and subnormal results. Infinities and NaN follow IEEE 754: 0*inf and inf-inf give NaN.",
 ["inputs"],"every triple of bit patterns in f32, f64 and f128",T+"double-rounding errors need specific alignment and tie patterns among three operands.",
 [M+"fma.rs",M+"fma_wide.rs"],[("double-width significand product, alignment with sticky bit",M+"fma.rs"),("f64 arithmetic with tie correction",M+"fma_wide.rs")],["bits of the returned value"]),
P("C12","Wide-integer helpers compute exact integer arithmetic",
 "The 256-bit integers (addition, right shift, or, not, halves, widening, sign reinterpretation, ordering, type constants, 128x128-bit widening multiplication) and the integer helper traits used by the float algorithms (wrapping, overflowing and checked arithmetic, shifts, rotation, leading zeros, absolute difference, widening and halving, casts) give the mathematically exact result, or the documented wrapped result, for every operand within their stated range.",
 ["inputs"],"every pair of 128-/256-bit operands and every shift amount in range",T+"256-bit operands are sampled against a bignum library.",
 [S+"big.rs",S+"int_traits.rs"],[("two-limb u256/i256 arithmetic",S+"big.rs"),("widening multiply and halving traits",S+"int_traits.rs")],["limbs of the results"],"re-export under the feature unstable-public-internals"),
P("C13","Hexadecimal float parsing and formatting are correctly rounded and lossless",
 "Parsing a well-formed hexadecimal floating literal yields the value correctly rounded in the requested direction with matching status flags, whatever the number of digits and whatever the exponent, and a malformed literal is reported as an error; parsing never panics. Formatting a value as a hexadecimal float and parsing it back returns the same value.",
 ["inputs"],"every string and every float bit pattern, four rounding modes, four widths",T+"round-trip is sampled and rounding uses a few literals; extreme exponents and long digit strings are not reached.",
 [S+"hex_float.rs"],[("digit accumulation with sticky bit, exponent bias and rounding",S+"hex_float.rs")],["parsed value, status, formatted text"]),
P("C14","No public function can panic, overflow or fail to return",
 "For every argument bit pattern every public function returns a value: it never panics, never trips an arithmetic overflow, never indexes out of bounds and always terminates.",
 ["inputs"],"every argument of every public function, release and checked builds",T+"overflow and indexing faults hide on argument ranges (huge arguments, subnormals, extreme orders) that samples miss; in release builds table accesses are unchecked.",
 [M+"*.rs",G+"*.rs"],[("table indexing through unchecked access in release",M+"mod.rs"),("loops bounded by exponents",M+"rem_pio2_large.rs, jn.rs, jnf.rs, ilogb.rs, "+G+"fmod.rs")],["panic / abort / hang"]),
P("C15","Special values follow C Annex F / IEEE 754",
 "Every elementary function returns the value the C standard (Annex F) prescribes at zeros, infinities, NaN, domain errors, poles and exact points: NaN in gives NaN out (except where the standard defines a number, as in pow and hypot), invalid arguments give NaN, poles give correctly signed infinities, and limits at infinity have the right value and sign (multiples of pi to within one unit in the last place).",
 ["inputs"],"every NaN bit pattern, every out-of-domain argument (whole ranges such as x < -1), both signs of zero and infinity, for each f32/f64 elementary function",T+"the domain-error classes are ranges with 2^52 members and 2-argument special rules combine with arbitrary second operands.",
 [M+f for f in ("pow.rs","powf.rs","log.rs","exp.rs","atan2.rs","hypot.rs","tgamma.rs","lgamma_r.rs","erf.rs","j0.rs","j1.rs","jn.rs")],[("early-exit tests on the high word / bit pattern",M+"*.rs")],["returned value class and sign"]),
P("C16","Companion functions agree bit for bit",
 "Functions documented as variants of one another agree bit for bit on every argument: sincos with (sin, cos) (the sign of a zero result compared only below pi/4, and any NaN counts as equal), lgamma with the value of lgamma_r, remainder with the first result of remquo, ldexp with scalbn. Every method of the Libm<T> interface returns what the free function of the same name and width returns.",
 ["inputs"],"every argument bit pattern of each pair of companions",T+"each function is tested on its own against a reference within a tolerance; bit equality between companions is never stated.",
 [M+f for f in ("sincos.rs","sincosf.rs","lgamma.rs","lgammaf.rs","remainder.rs","remainderf.rs")]+["libm/src/libm_helper.rs"],[("separate argument-reduction dispatch in each companion",M+"sincos.rs, sin.rs, cos.rs"),("method forwarding table","libm/src/libm_helper.rs")],["bits of the returned values"]),
P("C17","Odd and even functions are exactly odd and even",
 "asin, atan, sinh, tanh, asinh, atanh, erf, cbrt, atan2 in its first operand, trunc, round and rint satisfy f(-x) = -f(x) bit for bit, and sin, tan and the sine of sincos satisfy it as values (bit for bit below pi/4); j1 is odd at finite arguments. cosh and hypot (in each operand) satisfy f(-x) = f(x) bit for bit, and cos, the cosine of sincos and j0 as values, for every non-NaN argument.",
 ["inputs"],"every argument bit pattern of each symmetric function",T+"samples check each sign against a tolerance, not exact mirror equality.",
 [M+f for f in ("sin.rs","cos.rs","tan.rs","asin.rs","atan.rs","sinh.rs","cosh.rs","tanh.rs","asinh.rs","atanh.rs","erf.rs","cbrt.rs","hypot.rs","j0.rs","j1.rs")],[("sign stripping and re-application, or odd polynomial structure",M+"*.rs")],["bits of f(x) and f(-x)"]),
P("C18","Results stay inside the mathematical range of the function",
 "Results never leave the closed mathematical range (its ends rounded to the type): |sin|, |cos|, |tanh|, |erf| at most 1, exp-family and cosh non-negative (cosh at least 1), erfc in [0, 2], asin/atan/acos/atan2 within their principal-value intervals with the sign dictated by the quadrant, hypot at least the larger magnitude. Functions with a definite sign carry it: sinh, asinh, atanh, cbrt, expm1, log1p have the sign of the argument, log, log2 and log10 are negative below 1 and non-negative from 1 on, tgamma is positive for positive arguments, and pow is negative only for odd powers of negative bases.",
 ["inputs"],"every argument of each f32/f64 elementary function",T+"an error-tolerance comparison accepts a result a few ulp outside the range and only on sampled inputs.",
 [M+f for f in ("sin.rs","cos.rs","exp.rs","tanh.rs","erf.rs","asin.rs","acos.rs","atan.rs","atan2.rs","hypot.rs")],[("final reconstruction arithmetic and saturation thresholds",M+"*.rs")],["returned value"]),
P("C19","Argument reduction for trigonometric functions is correct for every magnitude",
 "For every finite argument, however large, the trigonometric functions reduce the argument modulo pi/2 to the correct quadrant and to a remainder accurate enough for a last-place-accurate result.",
 ["inputs"],"every finite f32 and f64 argument up to the largest finite value",T+"huge arguments and those closest to multiples of pi/2 are rare points among 2^64.",
 [M+"rem_pio2.rs",M+"rem_pio2_large.rs",M+"rem_pio2f.rs"],[("Cody-Waite three-stage reduction",M+"rem_pio2.rs"),("Payne-Hanek reduction with 2/pi table",M+"rem_pio2_large.rs")],["quadrant and remainder"]),
P("C20","Elementary functions stay within the documented error bound",
 "Every elementary function returns a value within the number of units in the last place that the project's own test configuration allows for it, at every argument.",
 ["inputs"],"every argument of each f32/f64 elementary function",T+"the bound is compared on samples (f64) only.",
 [M+"*.rs","crates/libm-test/src/precision.rs"],[("polynomial kernels and argument reductions",M+"*.rs")],["returned value"]),
P("C21","Results do not depend on the build configuration",
 "For every argument, a function that has more than one implementation selected by build configuration (portable code, compiler intrinsics, architecture-specific code, optimisation level, checked or unchecked build) returns the same value in each of them (any NaN counts as the same).",
 ["inputs","configurations"],"every argument of each function with alternative implementations, every feature set",T+"each configuration is sampled separately against a tolerance.",
 [M+"arch/",G+"ceil.rs",G+"floor.rs",S+"macros.rs"],[("select_implementation! dispatch",S+"macros.rs")],["bits of the returned value per configuration"]),
P("C22","Status flags of the rounding functions and sqrt match what happened",
 "floor_status, ceil_status and trunc_status report inexact exactly when the argument is finite and not integral, and no flag otherwise; their value component equals the plain function's result. sqrt_round reports invalid exactly for NaN and for negative nonzero arguments, and no flag otherwise.",
 ["inputs"],"every bit pattern of each of the four widths",T+"status is asserted on a handful of literals.",
 [G+f for f in ("ceil.rs","floor.rs","trunc.rs","sqrt.rs")]+[S+"env.rs"],[("FpResult and Status",S+"env.rs")],["status component"],"re-export under the feature unstable-public-internals"),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
