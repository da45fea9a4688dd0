"""Development helper: writes harness/src/c16_helper.rs from the method table of libm_helper.rs.
(The table is the specification: method NAME of Libm<T> is the free function of the same name and width.)"""
import re, glob, os
src = open("/repo/libm/src/libm_helper.rs").read()
mods = {}
for f in glob.glob("/repo/libm/src/math/*.rs"):
    for m in re.finditer(r"pub fn (\w+)\(", open(f).read()):
        if os.path.basename(f) != "mod.rs":
            mods[m[1]] = os.path.basename(f)[:-3]
suf = {"f16": "f16", "f32": "f", "f64": "", "f128": "f128"}
sp = {"f16": "h", "f32": "s", "f64": "d", "f128": "q"}
rows, seen = [], set()
cur = None
for line in src.splitlines():
    m = re.match(r"\s{4}(f16|f32|f64|f128),$", line)
    if m: cur = m[1]
    m = re.match(r"\s+\(fn (\w+)\((.*?)\) -> \((.*?)\);\s+=> (\w+)\);", line)
    if m and cur:
        name, args, ret, free = m.groups()
        t = cur
        base = {"roundevem": "roundeven"}.get(name, name)
        want = [base, base + suf[t], base.replace("lgamma_r", "lgammaf_r") if t == "f32" else base]
        if free not in want: print("CHECK", t, name, free)
        a = [x.split(":") for x in args.split(", ")]
        tys = [x[1].strip() for x in a]
        rt = [x.strip() for x in ret.split(",")]
        key = "_".join(tys) + "__" + "_".join(rt)
        body = []
        for i, r in enumerate(rt):
            l, rr = ("g", "w") if len(rt) == 1 else (f"g.{i}", f"w.{i}")
            body.append(f'    ensures!(crate::fw::eqv({l}, {rr}), "component {i} equals the free function");')
        stub = f"    #[kani::stub(libm::{free}, crate::fw::memo::{key})]\n" if free in mods else ""
        if not stub: print("no module for", free)
        seen.add((tuple(tys), tuple(rt)))
        an = [x[0].strip() for x in a]
        rows.append(f"{stub}    {t}_{name}({', '.join(f'{n}: {ty}' for n, ty in zip(an, tys))}) {{\n"
                    f"    let g = libm::Libm::<{t}>::{name}({', '.join(an)});\n    let w = libm::{free}({', '.join(an)});\n" + "\n".join(body) + "\n    }\n")
print(len(rows), seen)
open("/verif/harness/src/c16_helper.rs", "w").write(
    "//! C16, second part: each method of Libm<T> is the free function of the same name and width.\n"
    "//! Modular: the free function is replaced by an arbitrary deterministic function of its argument bits.\n"
    "contracts! {\n" + "\n".join(rows) + "}\n")
