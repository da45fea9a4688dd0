"""Mechanical extraction of functions of /repo for Verus.

The text verified is the function's current source with comments removed, after the textual rewrites listed with each
target (concrete integer type for the associated types, float operators on the opaque float type named as calls), plus
proof text (ghost code only: proof blocks, invariants) inserted at anchors.  When the source has changed so that an anchor
is gone or Verus's front end rejects the text, there is no verdict; when the text is accepted and an obligation fails, the
obligation is reported.
"""
import os, re, subprocess, tempfile, time

REPO = os.environ.get("VK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lost(Exception):
    pass


def strip_comments(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)


def fn_body(path, sig):
    """text between the braces of the first function whose signature matches"""
    t = strip_comments(open(os.path.join(REPO, path)).read())
    m = re.search(sig + r"\s*\{", t)
    if not m:
        raise Lost("function not found: " + sig)
    d, i = 1, m.end()
    while d:
        if i >= len(t):
            raise Lost("unbalanced braces")
        d += {"{": 1, "}": -1}.get(t[i], 0)
        i += 1
    return t[m.end():i - 1].strip()


def rewrite(t, rules):
    for a, b in rules:
        t = re.sub(a, b, t)
    return t


def insert(t, ins):
    """ins: (regex, list of replacement templates, one per occurrence; \\g<0> is the anchor)"""
    for rx, reps in ins:
        n = len(re.findall(rx, t))
        if n != len(reps):
            raise Lost(f"anchor {rx!r}: {n} occurrences, {len(reps)} expected")
        it = iter(reps)
        t = re.sub(rx, lambda m: m.expand(next(it)), t)
    return t


WIDTHS = {"f16": (16, 10), "f32": (32, 23), "f64": (64, 52), "f128": (128, 112)}


def constants(ty):
    B, S = WIDTHS[ty]
    X = B - 1 - S
    c = dict(U="u%d" % B, B=B, B1=B - 1, Bp1=B + 1, S=S, S1=S + 1, Sm1=S - 1, X=X, X1=X + 1, MOD=1 << B, MOD2=2 << B, SGN=1 << (B - 1),
             H=1 << S, H2=2 << S, H4=4 << S, INF=((1 << X) - 1) << S, ONES=(1 << B) - 1, FR=(1 << S) - 1, E1=1 << (X + 1),
             SAT=(1 << X) - 1, SAT2=(2 << X) - 1)
    return {k: (v if isinstance(v, str) else (str(v) if v < 1 << 14 and k in ("B", "B1", "Bp1", "S", "S1", "Sm1", "X", "X1") else hex(v))) for k, v in c.items()}


def fill(t, c):
    return re.sub(r"@(\w+?)@", lambda m: c[m.group(1)], t)


FLOAT_RULES = [
    (r"F::Int::cast_from\(([^()]*)\)", r"((\1) as Int)"),
    (r"u32::cast_from\(([^;&|]*)\) &", r"((\1) as u32) &"),
    (r"(?:F|Self)::Int::ZERO", "(0 as Int)"), (r"(?:F|Self)::Int::ONE", "(1 as Int)"), (r"(?:F|Self)::Int::MAX", "Int::MAX"),
    (r"\.signed\(\)", " as i32"),
    (r"\b(\w+)\.leading_zeros\(\)", r"leading_zeros(\1)"),
    (r"\(x \* y\) / \(x \* y\)", "f_div(f_mul(x, y), f_mul(x, y))"),
    (r"F::ZERO \* x", "f_mul(F_ZERO, x)"),
    (r"(?:F|Self)::(BITS|SIG_BITS|EXP_BITS|EXP_SAT|SIGN_MASK)\b", r"\1"),
]

ZERO_VALS = "assert(val(0) == 0); assert(val(@SGN@) == 0);"
FMOD_INS = [
    (r"let sx = [^;]*;", [r"""\g<0>
    proof {
        assert((ix << 1) == 2 * (ix % @SGN@)) by(bit_vector);
        assert((iy << 1) == 2 * (iy % @SGN@)) by(bit_vector);
        assert(sx == 0 || sx == @SGN@) by(bit_vector) requires sx == ix & @SGN@;
        assert(sx == 0 <==> ix < @SGN@) by(bit_vector) requires sx == ix & @SGN@;
        """ + ZERO_VALS + r"""
        if mag(iy) > 0 { val_mono(0, iy); }
        if mag(ix) > 0 { val_mono(0, ix); }
        if mag(ix) == mag(iy) && mag(iy) > 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(val(iy)); }
        if mag(ix) < mag(iy) { val_mono(ix, iy); vstd::arithmetic::div_mod::lemma_small_mod(val(ix) as nat, val(iy) as nat); }
        if mag(ix) > mag(iy) { val_mono(iy, ix); }
    }"""]),
    (r"if ex == 0 \{", [r"""let ghost (vx, vy) = (val(x.bits), val(y.bits));
    let ghost k: int = SIG_BITS + 1;
    \g<0>"""]),
    (r"let i = (i[xy]) << [^;]*;", [r"\g<0> proof { frac_shl(\1); lz_axiom(i); }"] * 2),
    (r"(i[xy]) <<= -(e[xy]) \+ 1;", [r"proof { norm_sub(\1, -\2 as int); } \g<0>"] * 2),
    (r"(i[xy]) &= Int::MAX[^;]*;", [r"proof { norm_norm(\1); norm_val(\1); } \g<0>"] * 2),
    (r"while ex > ey \{", [r"""proof { assert(iy * p2(ey + k) == vy * p2(k + 1)); assert(ix * p2(ex + k) == vx * p2(k + 1)); ex_ge_ey(ix as int, iy as int, ex as int, ey as int, vx, vy); }
    let ghost (px, py) = (vx * p2(k + 1), vy * p2(k + 1));
    proof { p2_pos(ey + k); assert(py > 0) by(nonlinear_arith) requires py == iy * p2(ey + k), iy > 0, p2(ey + k) > 0; }
    while ex > ey
      invariant ex >= ey, ey >= -SIG_BITS, ex <= EXP_SAT, @H@ <= iy < @H2@, 0 < ix < 2 * iy,
        py == iy * p2(ey + k), (ix * p2(ex + k)) % py == px % py, py > 0,
      decreases ex - ey
    {"""]),
    (r"let i = ix\.wrapping_sub\(iy\);", [r"\g<0> proof { top_bit(ix, iy, i); sub_mod(ix as int, iy as int, ex + k, ey + k, py); }"] * 2),
    (r"return f_mul\(F_ZERO, x\);", [r"\g<0>"] + [r"proof { zero_case(px, py, vx, vy, p2(k + 1), k); } \g<0>"] * 2),
    (r"ix <<= 1;", [r"proof { shl1(ix); p2_step(ix as int, ex + k); } \g<0>"]),
    (r"let shift = [^;]*;", [r"""proof { final_res(ix as int, iy as int, ex + k, px, py, vx, vy, k); }
    let ghost rr = vx % vy;
    \g<0>
    proof { lz_small(ix); renorm(ix, shift as int, ex as int, rr); }"""]),
    (r"ex -= shift as i32;", [r"\g<0> proof { encode(ix, ex as int, rr, sx); }"]),
]


def fmod_text(ty):
    c = constants(ty)
    body = insert(rewrite(fn_body("libm/src/math/generic/fmod.rs", r"pub fn fmod<F: Float>\(x: F, y: F\) -> F"), FLOAT_RULES), FMOD_INS)
    ex = rewrite(fn_body("libm/src/math/support/float_traits.rs", r"fn ex\(self\) -> u32"), FLOAT_RULES)
    t = template("common") + template("fmod")
    return fill(t.replace("@BODY@", body).replace("@EX_BODY@", ex), c)


def template(n):
    return open(os.path.join(VERIF, "verus", n + ".vt")).read()


REMQUO_RULES = [
    (r"\(!0\)", "Int::MAX"), (r"\bf(?:32|64)::from_bits", "F::from_bits"),
    (r"\(x \* y\) / \(x \* y\)", "f_div(f_mul(x, y), f_mul(x, y))"),
    (r"2\.0 \* x > y", "f_gt(f_dbl(x), y)"), (r"2\.0 \* x == y", "f_eq(f_dbl(x), y)"),
    (r"\bx -= y;", "x = f_sub(x, y);"), (r"\by = -y;", "y = f_neg(y);"), (r"\(-x, quo\)", "(f_neg(x), quo)"),
]
INV_Q = "px == (gq * p2(ex - ey)) * py + uxi * p2(ex + k), q == gq % 0x1_0000_0000, gq >= 0"
REMQUO_INS = [
    (r"let mut uy: \w+ = y\.to_bits\(\);", [r"\g<0> proof { sign_bits(ux); sign_bits(uy); }"]),
    (r"let mut uxi: \w+ = ux;", [r"""\g<0>
    proof {
        zero_vals(); val_nonneg(ux); val_nonneg(uy);
        if mag(ux) == 0 { val_mag(ux, 0); }
        if mag(uy) > 0 { val_mono(0, uy); }
        if mag(ux) > 0 { val_mono(0, ux); }
    }
    let ghost (vx, vy) = (val(ux), val(uy));
    let ghost k: int = SIG_BITS + 1;"""]),
    (r"return \(x, 0\);", [r"proof { if !invalid(x_.bits, y_.bits) && !is_inf(y_.bits) { zero_rem(vy); post_intro(x_.bits, y_.bits); } } \g<0>",
        r"proof { if !is_inf(y_.bits) { small_rem(vx, vy); post_intro(x_.bits, y_.bits); } } \g<0>"]),
    (r"(i) = (u[xy]i?) << [^;]*;", [r"\g<0> proof { frac_shl(\2); assert(i == @E1@ * (fr(\2) * p2(0))) by { assert(p2(0) == 1); assert(fr(\2) * 1 == fr(\2)); } }"] * 2),
    (r"while \(i >> \d+\) == 0 \{\s*(e[xy]) -= 1;", [
        r"while (i >> @B1@) == 0 invariant \1 <= 0, i == @E1@ * (fr(%s) * p2(-\1)), fr(%s) >= 1, -\1 < 70 decreases @MOD@ - i { proof { norm_step(i, fr(%s), \1 as int); } \1 -= 1;" % (v, v, v) for v in ("uxi", "uy")]),
    (r"(u[xy]i?) <<= -(e[xy]) \+ 1;", [r"proof { norm_done(i, fr(\1), -\2 as int); norm_sub(\1, -\2 as int); } \g<0>"] * 2),
    (r"(u[xy]i?) &= Int::MAX[^;]*;", [r"proof { norm_norm2(\1); norm_val(\1); } \g<0>"] * 2),
    (r"q = 0;", [r"""\g<0>
    proof { assert(uy * p2(ey + k) == vy * p2(k + 1)); assert(uxi * p2(ex + k) == vx * p2(k + 1)); }
    let ghost (px, py) = (vx * p2(k + 1), vy * p2(k + 1));
    let ghost mut gq: int = 0;
    let ghost (mx, ex0) = (uxi as int, ex as int);
    proof { p2_pos(ey + k); assert(py > 0) by(nonlinear_arith) requires py == uy * p2(ey + k), uy > 0, p2(ey + k) > 0;
        decide(uxi as int, ex as int, uy as int, ey as int, vx, vy);
        if ex < ey { small_rem2(vx, vy); } }"""]),
    (r"while ex > ey \{", [r"""proof { assert((gq * p2(ex - ey)) * py == 0) by(nonlinear_arith) requires gq == 0; }
    while ex > ey
      invariant ex >= ey, ey >= -SIG_BITS, ex <= EXP_SAT, @H@ <= uy < @H2@, 0 <= uxi < 2 * uy, py == uy * p2(ey + k), q % 2 == 0,
        """ + INV_Q + r"""
      decreases ex - ey
    {"""]),
    (r"i = uxi\.wrapping_sub\(uy\);", [r"\g<0> proof { top_bit(uxi, uy, i); sub_quo(uxi as int, uy as int, ex + k, ey + k, py, px, gq); }"] * 2),
    (r"uxi = i;\s*q \+= 1;", [r"\g<0> proof { gq = gq + 1; }"] * 2),
    (r"uxi <<= 1;\s*q <<= 1;", [r"proof { shl1(uxi); step_quo(uxi as int, ex + k, ex - ey, py, px, gq); q_shl(q, gq); gq = 2 * gq; } \g<0>"]),
    (r"if uxi == 0 \{\s*ex = -\d+;", [r"""proof {
        p2_pos(ey + k);
        p2_zero(gq, py);
        assert(0 <= uxi * p2(ey + k) < py) by(nonlinear_arith) requires 0 <= uxi < uy, p2(ey + k) > 0, py == uy * p2(ey + k);
        fin_quo(px, py, vx, vy, gq, uxi * p2(ex + k), k);
        p2_pos(k + 1); p2_pos(ex + k);
        if uxi > 0 { assert(vx % vy > 0) by(nonlinear_arith) requires uxi * p2(ex + k) == (vx % vy) * p2(k + 1), uxi > 0, p2(ex + k) > 0, p2(k + 1) > 0; }
        else { assert(vx % vy == 0) by(nonlinear_arith) requires uxi * p2(ex + k) == (vx % vy) * p2(k + 1), uxi == 0, p2(k + 1) > 0; }
    }
    \g<0>"""]),
    (r"while \(uxi >> \d+\) == 0 \{", [r"""while (uxi >> @S@) == 0
      invariant 0 < uxi < @H2@, ex >= -SIG_BITS, ex <= EXP_SAT, ex <= ey, uxi * p2(ex + k) == (vx % vy) * p2(k + 1), vx % vy > 0
      decreases @H2@ - uxi
    { proof { renorm_step(uxi, ex as int, vx % vy); }"""]),
    (r"if ex > 0 \{", [r"""let ghost rr = vx % vy;
    let ghost m = uxi as int;
    proof {
        assert(gq == vx / vy);
        if uxi == 0 { assert(rr == 0); shr_zero(1 - ex); assert(2 * rr < vy); }
        else {
            ge_h(uxi);
            assert(ex >= 1 - SIG_BITS) by { low_ex(uxi, ex as int, rr); }
            encode0(uxi, ex as int, rr);
            decide(uxi as int, ex as int, uy as int, ey as int, rr, vy);
        }
    }
    \g<0>"""]),
    (r"x = F::from_bits\(uxi\);", [r"""proof { assert(is_val(uxi, rr, if ex > 0 { ex as int } else { 0 })); } \g<0>
    proof { assert(val(x.bits) == rr && !neg(x.bits) && eb(x.bits) < EXP_SAT); }"""]),
    (r"x = f_sub\(x, y\);", [r"let ghost xr = x.bits; \g<0> proof { if !is_inf(y_.bits) { assert(val(xr) == rr); assert(val(x.bits) == vy - rr); } }"]),
    (r"let quo = [^;]*;", [r"""\g<0>
    proof { if !is_inf(y_.bits) { finish(x_.bits, y_.bits, x.bits, sx, quo as int, round_up(gq, rr, vy)); } }"""]),
    (r"if ex == ey \|\|", [r"""let ghost q0 = q as int;
    proof {
        val_mag(y.bits, y_.bits); val_mag(x.bits, uxi);
        assert(!neg(y.bits) && val(y.bits) == vy && eb(y.bits) == eb(y_.bits));
        before_round(m, ex as int, uy as int, ey as int, rr, vy, gq, x.bits, x_.bits, y.bits); @NOWRAP@
    }
    \g<0>"""]),
    (r"q &= 0x7fffffff;", [r"""proof {
        let up = round_up(gq, rr, vy);
        decision(rr, vy, gq, q0, ex as int, ey as int);
        count(q, q0, gq, up && !is_inf(y_.bits));
    } \g<0>"""]),
]


def remquo_text(ty):
    f = {"f64": "remquo", "f32": "remquof"}[ty]
    body = insert(rewrite(fn_body("libm/src/math/%s.rs" % f, r"pub fn %s\(mut x: %s, mut y: %s\) -> \(%s, i32\)" % (f, ty, ty, ty)), REMQUO_RULES), REMQUO_INS)
    g = {"f64": "remainder", "f32": "remainderf"}[ty]
    rem = rewrite(fn_body("libm/src/math/%s.rs" % g, r"pub fn %s\(x: %s, y: %s\) -> %s" % (g, ty, ty, ty)), [(r"super::%s\(" % f, "remquo(")])
    nw = "if ex0 >= ey && 2 * rr >= vy { no_wrap(mx, ex0, uy as int, ey as int, vx, vy, gq); }" if ty == "f32" else ""
    return fill((template("common") + template("remquo")).replace("@BODY@", body.replace("@NOWRAP@", nw)).replace("@REM_BODY@", rem), constants(ty))


TARGETS = {("fmod", ty): (lambda ty=ty: fmod_text(ty)) for ty in WIDTHS}
TARGETS.update({("remquo", ty): (lambda ty=ty: remquo_text(ty)) for ty in ("f32", "f64")})


def run_verus(text, timeout):
    """(status, verified, errors, output)"""
    d = tempfile.mkdtemp(prefix="vx")
    p = os.path.join(d, "t.rs")
    open(p, "w").write(text)
    try:
        r = subprocess.run(["verus", "--multiple-errors", "3", "--rlimit", "60", p], capture_output=True, text=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        return "unknown", 0, 0, "timeout"
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout + r.stderr
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    if not m:
        return "unknown", 0, 0, out[:600]
    v, e = int(m.group(1)), int(m.group(2))
    if e == 0 and r.returncode == 0:
        return "proved", v, 0, ""
    if re.search(r"(rlimit|resource limit)", out, re.I):
        return "unknown", v, e, out[:1500]
    return "failed", v, e, out[:3000]


if __name__ == "__main__":
    import sys
    t = TARGETS[(sys.argv[1], sys.argv[2])]()
    if len(sys.argv) > 3:
        open(sys.argv[3], "w").write(t)
    t0 = time.time()
    st, v, e, out = run_verus(t, 600)
    print(st, v, e, "%.1f s" % (time.time() - t0))
    print(out)
