"""Regenerates /verif/MANIFEST.json from the tables below (development helper; not run by checks)."""
import json
V = "/opt/veriftools/pyvenv/bin/python" 
PROOF = "contract-based deductive verification: Kani-compiled contracts over all inputs, CBMC verification conditions, SMT/SAT discharge"
CLAIM = {  # id -> (technique, level, note)
}
NOTE = ("Every obligation of every contract is discharged for all argument bit patterns on the code compiled from the current "
        "working tree (default features off: portable code; unstable-float on). Trusts the Kani compiler, CBMC's symbolic execution "
        "and float encoding, z3/CaDiCaL. Architecture-specific assembly is outside. ")
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C22".split():
    CLAIM[p] = (PROOF, "proof", NOTE)
NA = {}
try:
    from mkmanifest_extra import CLAIM2, NA2
    CLAIM.update(CLAIM2); NA.update(NA2)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cargo feature unstable-public-internals (the crate's own)",
               "enable": "path dependency on /repo/libm with default-features = false, features = [unstable-public-internals, unstable-float]",
               "source_commits": ["62b8e5e"]},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. Repairs to /repo are listed in known-findings.json."}
for i in ids:
    if i in CLAIM:
        t, l, n = CLAIM[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3-vt tools/vk.py check {i} --tier quick",
                            "thorough_cmd": f"python3-vt tools/vk.py check {i} --tier thorough",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: work in progress")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
