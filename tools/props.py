"""Per-property configuration: which engines run, with which options."""
import re
import vk

def contracts(features=None, rules=(), default=None):
    """engine: all contracts of the property's module. rules: [(regex, opts)] first match wins."""
    def eng(ctx, tier):
        def opts_for(c):
            for rx, o in rules:
                if re.search(rx, c):
                    if o is None or (o.get("tier") and o["tier"] != tier):
                        return None
                    return o
            return dict(default or {})
        vk.contract_engine(ctx, features or ctx.cfg["features"], opts_for, ctx.pid)
    return eng

PROPS = {}
VERUS_ASSUME = ["Verus reads the text extracted from the source on every run (comments dropped; associated types and constants made concrete; float operators, to_bits/from_bits/is_nan on an opaque float type named as calls; ghost code inserted)",
    "assumed contracts: u*::leading_zeros; IEEE special cases of * and / (invalid operations give NaN, zero times finite is a signed zero); exact doubling, comparison and exact subtraction of non-negative finite floats; negation flips the sign bit"]
for _p in ("C01", "C02", "C03", "C04"):
    PROPS[_p] = dict(features=[_p.lower()], engines=[contracts()])
PROPS["C07"] = dict(features=["c07"], engines=[contracts(rules=[("ilogb", dict(unwind=56, engines=("sat",)))])])
PROPS["C08"] = dict(features=["c08"], engines=[contracts(
    rules=[("ldexp", dict(engines=("uf",), axioms=("base",))),
           ("128_mid_sub_up", dict(engines=("uf", "sat"), axioms=("base", "pow2"), uf_timeout=200, timeout=200, cost=9)),
           ("128_(far_)?down", dict(engines=("uf", "sat"), axioms=("base", "pow2"), uf_timeout=150, timeout=150, cost=5))],
    default=dict(engines=("uf", "sat"), axioms=("base", "pow2"), uf_timeout=100, timeout=150))])
PROPS["C09"] = dict(features=["c09"], engines=[contracts()])
PROPS["C17"] = dict(features=["c17"], exhaust_s={"quick": 90, "thorough": 900}, engines=[contracts(
    rules=[("::(trunc|round|rint)f?$", dict(engines=("cells", "sat"), timeout=60)),
           ("::(sin|cos|sincos)f?$", dict(engines=("cells",), unwind=24, cells=dict(budget=100), cost=9)),
           ("::j[01]f$", dict(engines=("cells",), unwind=24, cells=dict(budget=90), cost=8)),
           ("::(j[01]|tanf?|cbrt|atan2f?)$", dict(engines=("cells",), unwind=24, cells=dict(budget=25), cost=2))],
    default=dict(engines=("cells",), unwind=24, cells=dict(budget=60)))])
PROPS["C16"] = dict(features=["c16"], engines=[contracts(
    rules=[("::sincosf?_", dict(engines=("cells",), unwind=24, cells=dict(budget=100), cost=9))],
    default=dict(engines=("sat",), timeout=60, soft=True))])
PROPS["C15"] = dict(features=["c15"], engines=[contracts(
    rules=[("::pow_domain", dict(engines=("uf", "sat"), axioms=("base",), unwind=24, uf_timeout=100, timeout=200, cost=9, soft=True)),
           ("f64b::lgamma_poles", dict(engines=("sat",), unwind=24, timeout=300, cost=9, soft=True)),
           ("::pow_|::lgamma_poles", dict(engines=("sat",), unwind=24, timeout=200, cost=5, soft=True)),
           ("::acosh_domain|tgammaf", dict(engines=("cells",), unwind=24, cells=dict(budget=10)))],
    default=dict(engines=("cells",), unwind=24, cells=dict(budget=60)))])
PROPS["C18"] = dict(features=["c18"], exhaust_s={"quick": 120, "thorough": 1200}, engines=[contracts(
    rules=[("::(hypotf?|atan2f?|powf?|cbrt|j[01]f?|tgammaf?|exp2|exp10f?|sinf?|cosf?|sincosf?)$",
            dict(engines=("cells",), unwind=24, cells=dict(budget=8, z3="never", max_boxes=1000000)))],
    default=dict(engines=("cells",), unwind=24, cells=dict(budget=60, z3="never", max_boxes=1000000)))])
PROPS["C22"] = dict(features=["c22"], engines=[contracts(rules=[("sqrt", dict(engines=("uf", "sat"), axioms=("base",), uf_timeout=60, timeout=100))])])
PROPS["C12"] = dict(features=["c12"], engines=[contracts(rules=[("mul", dict(engines=("uf", "sat"), axioms=("base", "bvmul"), uf_timeout=100, timeout=60))],
    default=dict(engines=("sat",), timeout=150, unwind=6))])
PROPS["C10"] = dict(features=["c10"], exhaust_s={"quick": 100, "thorough": 600}, search_s={"quick": 25, "thorough": 300}, engines=[contracts(
    rules=[("^c11", None), ("special", dict(engines=("uf", "sat"), axioms=("base",), unwind=8, uf_timeout=60, timeout=100)),
           ("sqrtf16$", dict(engines=("sat",), unwind=8, timeout=200, cost=9))],
    default=dict(engines=()))])
PROPS["C13"] = dict(features=["c13"], search_s={"quick": 25, "thorough": 300}, engines=[contracts(
    rules=[("^c11", None), ("short", dict(engines=("sat",), unwind=10, timeout=400, cost=9, bounded="literals of at most 7 characters after 0x, f16"))],
    default=dict(engines=()))])
PROPS["C14"] = dict(features=["c14"], engines=[contracts(
    rules=[("::ilogbf?$", dict(engines=("uf", "sat"), axioms=("base",), unwind=56, uf_timeout=40, timeout=60))]
        + [("::%s$" % f, dict(engines=("verus",), verus=(k, ty), cost=5, soft=True)) for f, k, ty in (("fmodf16", "fmod", "f16"), ("fmodf", "fmod", "f32"),
            ("fmod", "fmod", "f64"), ("fmodf128", "fmod", "f128"), ("remquof|remainderf", "remquo", "f32"), ("remquo|remainder", "remquo", "f64"))]
        + [("::(tgammaf?|powf?|exp10|cbrt)$", dict(engines=("cells",), obl="safe", unwind=24, cells=dict(budget=25), cost=9)),
           ("yn_special", dict(engines=("uf",), axioms=("base",), unwind=24, uf_timeout=100, cost=8)),
           ("order::[jy]nf?$", dict(engines=(), cost=1)),
           ("large::", dict(engines=("uf",), axioms=("base",), unwind=24, uf_timeout=100, soft=True, cost=8)),
           ("bits::fma$", dict(engines=("uf", "sat"), axioms=("base",), unwind=24, uf_timeout=150, timeout=60, cost=9))],
    default=dict(engines=("uf", "sat"), axioms=("base",), unwind=24, uf_timeout=40, timeout=60))])
PROPS["C14"]["trusted"] = VERUS_ASSUME
PROPS["C11"] = dict(features=["c11"], search_s={"quick": 40, "thorough": 600}, engines=[contracts(
    rules=[("special", dict(engines=("uf", "sat"), axioms=("base", "pow2"), unwind=8, uf_timeout=200, timeout=200)),
           ],
    default=dict(engines=(), unwind=8))])
PROPS["C05"] = dict(features=["c05"], engines=[contracts(
    rules=[("trivial", dict(engines=("uf", "sat"), axioms=("base",), unwind=4, cost=3))]
        + [("fmod::%s$" % f, dict(engines=("verus",), verus=("fmod", ty), cost=5)) for f, ty in (("fmodf16", "f16"), ("fmodf", "f32"), ("fmod", "f64"), ("fmodf128", "f128"))],
    default=dict(engines=()))])
PROPS["C06"] = dict(features=["c06"], engines=[contracts(
    rules=[("f$", dict(engines=("verus",), verus=("remquo", "f32"), cost=5))],
    default=dict(engines=("verus",), verus=("remquo", "f64"), cost=5))])
for _p in ("C05", "C06"):
    PROPS[_p]["trusted"] = VERUS_ASSUME
for _p, _what in (("C10", "special cases of every width and all of sqrtf16 by proof; sqrtf by executing its contract on all inputs; sqrt and sqrtf128 by directed native search"),
               ("C11", "special operands of every width by proof; single rounding of finite operands by directed native search"),
               ("C13", "f16 literals of up to 7 characters by Kani/CBMC in all rounding modes (bounded); other texts and widths by directed native search")):
    PROPS[_p].update(level="other", explanation="contracts decided by different means: " + _what + ". Only units with status proved count as proved.")
