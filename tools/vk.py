#!/opt/veriftools/pyvenv/bin/python
"""Driver: decides the properties of /verif/properties.jsonl from /repo's current source.

  vk.py check <ID> [--tier quick|thorough]     decide one property (exit 0 / 1, evidence written)
  vk.py contracts <ID> [name-regex]            only the contract engine, verbose

For each property: compile the contract crate (/verif/harness, path dependency on /repo/libm) with
the Kani compiler, which yields one goto program per contract; generate its verification
conditions with CBMC and discharge every one.  See DESIGN.md.
"""
import sys
if __name__ == "__main__":
    sys.modules["vk"] = sys.modules["__main__"]
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
KHOME = "/root/.kani/kani-0.68.0"
KB = KHOME + "/bin"
NATIVE_TC = "nightly-2025-04-20"
sys.path.insert(0, os.path.join(VERIF, "tools"))

CBMC_FLAGS = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
              "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16",
              "--slice-formula"]
TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
VERBOSE = False
# no solver is started (or kept running) past this many seconds; what is then undecided is searched natively
BUDGET = {"quick": 560, "thorough": 6 * 3600}


def left(cap):
    return max(1, min(cap, T0 + BUDGET[TIER] - time.time()))


def late():
    return time.time() > T0 + BUDGET[TIER] - 5


def log(*a):
    print(*a, flush=True)


def clean_env(**kw):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("RUSTUP_TOOLCHAIN") and k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC")}
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(kw)
    return env


def run(cmd, timeout, mem_gb=None, cwd=None, env=None, stdout=subprocess.PIPE):
    """-> (rc or None on timeout, stdout+stderr text, seconds)"""
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    t = time.time()
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env or clean_env(), preexec_fn=pre)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        f.seek(0)
        out = f.read().decode("utf-8", "replace")
    return rc, out, time.time() - t


class Unit:
    """One verified unit (a contract, a lemma, a module)."""
    def __init__(self, name, backend):
        self.name, self.backend = name, backend
        self.status = "undecided"      # proved | failed | undecided | bounded
        self.obligations = self.discharged = self.covers = 0
        self.failed = []               # obligation descriptions
        self.inputs = None             # list of ints (argument bits)
        self.detail = ""
        self.time = 0.0
        self.contract = None           # name for native replay
        self.bounded_note = None
        self.functions = []

    def j(self):
        d = {"unit": self.name, "backend": self.backend, "status": self.status, "obligations": self.obligations,
             "discharged": self.discharged, "solver_s": round(self.time, 2)}
        if self.bounded_note:
            d["bounded"] = self.bounded_note
        if self.failed:
            d["failed"] = self.failed[:5]
        if self.detail and self.status != "proved":
            d["detail"] = self.detail[-600:]
        return d


# --------------------------------------------------------------------------- building

def build_native(features, name, release=False):
    td = os.path.join(BUILD, "native-" + name)
    cmd = ["cargo", "+" + NATIVE_TC, "build", "--offline", "--features", ",".join(features), "--target-dir", td]
    if release:
        cmd.append("--release")
    rc, out, t = run(cmd, 600, cwd=os.path.join(VERIF, "harness"))
    exe = os.path.join(td, "release" if release else "debug", "vh-replay")
    if rc != 0:
        return None, out
    return exe, out


def build_kani(features, name):
    td = os.path.join(BUILD, "kani-" + name)
    shutil.rmtree(td, ignore_errors=True)
    cmd = ["cargo", "kani", "--only-codegen", "--lib", "--no-assertion-reach-checks", "--features", ",".join(features), "--target-dir", td,
           "-Z", "unstable-options", "-Z", "stubbing"]
    rc, out, t = run(cmd, 600, cwd=os.path.join(VERIF, "harness"))
    if rc != 0:
        return None, out, t
    metas = [m for m in glob.glob(td + "/kani/**/vh-*.kani-metadata.json", recursive=True)]
    hs = []
    for m in metas:
        hs += json.load(open(m))["proof_harnesses"]
    return hs, out, t


def link(goto, mangled, out):
    ks = f"""set -e
{KB}/goto-cc {goto} {KHOME}/library/kani/kani_lib.c --function {mangled} -o {out}
{KB}/goto-instrument --add-library --no-malloc-may-fail {out} {out}
{KB}/goto-instrument --generate-function-body-options assert-false-assume-false --generate-function-body '.*' --drop-unused-functions {out} {out}
{KB}/goto-instrument --ensure-one-backedge-per-target {out} {out}
"""
    rc, o, t = run(["bash", "-c", ks], 200)
    return rc == 0, o


def bits_of(v, ty):
    """argument bits from a trace value"""
    b = v.get("binary")
    return int(b, 2) if b else None


def parse_cbmc(text, u, argnames, harness_fn):
    try:
        j = json.loads(text)
    except Exception:
        i = text.find("[")
        try:
            j = json.loads(text[i:])
        except Exception:
            u.detail = "unparsable verifier output: " + text[-400:]
            return
    results = None
    msgs = []
    for x in j:
        if "result" in x:
            results = x["result"]
        elif x.get("messageType") in ("ERROR", "WARNING") or "VERIFICATION" in x.get("messageText", ""):
            msgs.append(x["messageText"])
    if results is None:
        u.detail = "no result: " + " | ".join(msgs)[-400:]
        return
    unreached = []
    cov = 0
    for r in results:
        d = r["description"]
        if ".cover." in r["property"]:
            cov += 1
            if r["status"] != "FAILURE":
                unreached.append(d + " @ " + r["property"] + " line " + str(r.get("sourceLocation", {}).get("line")))
            continue
        if "KANI_CHECK_ID" in d and "cover" in r["property"]:
            continue
        u.obligations += 1
        if r["status"] == "SUCCESS":
            u.discharged += 1
        elif r["status"] == "FAILURE":
            loc = r.get("sourceLocation", {})
            u.failed.append(f"{r['property']}: {d} ({loc.get('file','')}:{loc.get('line','')})")
            if "trace" in r and (u.inputs is None or "VH" in d):
                vals = {}
                for t in r["trace"]:
                    if t.get("stepType") == "assignment" and t.get("lhs") in argnames \
                            and (t.get("sourceLocation", {}).get("function") or "").endswith(harness_fn):
                        b = bits_of(t.get("value", {}), None)
                        if b is not None:
                            vals[t["lhs"]] = b
                u.inputs = [vals.get(a, 0) for a in argnames]
    u.covers = cov - len(unreached)
    if u.failed:
        # unwinding assertions are limits of the tool, not violations by themselves
        if all("unwinding assertion" in f or "recursion" in f for f in u.failed):
            u.status = "undecided"
            u.detail = "loop bound not established: " + u.failed[0]
        elif any("unwinding assertion" in f for f in u.failed):
            u.failed = [f for f in u.failed if "unwinding assertion" not in f]
            u.status = "failed"
        else:
            u.status = "failed"
    elif u.obligations == 0:
        u.status, u.detail = "undecided", "no obligations generated"
    elif unreached:
        u.status, u.detail = "undecided", "vacuity: obligations not reachable: " + "; ".join(unreached)[:300]
    elif u.discharged == u.obligations:
        u.status = "proved"


def show_props(o):
    rc, out, _ = run([KB + "/cbmc"] + CBMC_FLAGS + ["--show-properties", "--json-ui", o], 60)
    try:
        return [p for x in json.loads(out[out.index("["):]) for p in x.get("properties", [])]
    except Exception:
        return None


def uf_attempt(o, mangled, argnames, props, opts, tag):
    """-> ('proved'|'candidate'|'unknown', inputs, seconds, detail)"""
    t0 = time.time()
    sm = o + ".smt2"
    names = [p["name"] for p in props if ".cover." not in p["name"]]
    cmd = [KB + "/cbmc"] + CBMC_FLAGS + ["--unwind", str(opts.get("unwind", 4))]
    for us in opts.get("unwindset", []):
        cmd += ["--unwindset", us]
    cmd += ["--unwinding-assertions", "--smt2", "--fpa", "--outfile", sm]
    for n in names:
        cmd += ["--property", n]
    rc, out, _ = run(cmd + [o], opts.get("dump_timeout", 60))
    if not os.path.exists(sm) or rc is None or rc not in (0, 10):
        # no VCC left after simplification: everything was decided during symbolic execution
        if rc == 0 and "VERIFICATION SUCCESSFUL" in out:
            return "proved", None, time.time() - t0, "discharged by symbolic execution"
        return "unknown", None, time.time() - t0, "dump failed: " + out[-200:]
    f = o + ".uf.smt2"
    o2 = {"axioms": list(opts.get("axioms", ("base",))), "prune": opts.get("prune", True), "mangled": mangled, "args": argnames}
    rc, out, _ = run([sys.executable, os.path.join(VERIF, "tools", "ufsmt.py"), sm, f, json.dumps(o2)], opts.get("dump_timeout", 60), mem_gb=6)
    if not os.environ.get("VK_KEEP"):
        os.remove(sm)
    if rc != 0:
        return "unknown", None, time.time() - t0, "translation: " + out[-200:]
    gets = json.loads(out.strip().splitlines()[-1])["gets"]
    to = int(left(opts.get("uf_timeout", 30)))
    procs = []
    for solver in opts.get("uf_solvers", ("z3",)):
        fn = f
        procs.append((fn, ["z3-new", "-T:%d" % to, "-memory:6000", fn] if solver == "z3" else ["cvc5", "--tlimit=%d" % (to * 1000), fn]))
    res = ("unknown", None, "")
    for fn, c in procs:
        rc, out, _ = run(c, to + 10, mem_gb=8)
        ls = out.strip().splitlines()
        if not os.environ.get("VK_KEEP"):
            os.remove(fn)
        if not ls:
            continue
        if ls[0] == "unsat":
            res = ("proved", None, "")
            break
        if ls[0] == "sat":
            vals = re.findall(r"#x[0-9a-f]+|#b[01]+", " ".join(ls[1:]))
            it = iter(vals)
            try:
                inp = [(lambda v: int(v[2:], 16 if v[1] == "x" else 2))(next(it)) if g else 0 for g in gets]
            except StopIteration:
                inp = None
            res = ("candidate", inp, "abstract model")
            break
        res = ("unknown", None, out[:200])
    if not os.environ.get("VK_KEEP") and os.path.exists(f):
        os.remove(f)
    return res[0], res[1], time.time() - t0, res[2]


def cells_attempt(o, mangled, argnames, props, opts, ctx, cname):
    """Engine 3 (tools/cells.py) -> (status, inputs, seconds, detail, number of obligations)"""
    t0 = time.time()
    obl = opts.get("obl", "vh")
    names = [p["name"] for p in props if ".cover." not in p["name"] and (obl == "all" or ("VH:" in p["description"]) == (obl == "vh"))]
    if not names:
        return "proved", None, 0.0, "no obligation of this kind", 0
    sm = o + ".cells.smt2"
    cmd = [KB + "/cbmc"] + CBMC_FLAGS + ["--unwind", str(opts.get("unwind", 4))]
    for us in opts.get("unwindset", []):
        cmd += ["--unwindset", us]
    cmd += ["--unwinding-assertions", "--smt2", "--fpa", "--outfile", sm]
    for n in names:
        cmd += ["--property", n]
    rc, out, _ = run(cmd + [o], left(opts.get("dump_timeout", 60)), mem_gb=8)
    if not os.path.exists(sm) or rc is None or rc not in (0, 10):
        if rc == 0 and "VERIFICATION SUCCESSFUL" in out:
            return "proved", None, time.time() - t0, "discharged by symbolic execution", len(names)
        return "unknown", None, time.time() - t0, "dump failed: " + out[-200:], len(names)
    co = dict(opts.get("cells", {}))
    co.setdefault("budget", 60)
    co["budget"] = left(co["budget"])
    co.update(mangled=mangled, args=argnames)
    rc, out, _ = run([sys.executable, os.path.join(VERIF, "tools", "cells.py"), sm, json.dumps(co)], left(co["budget"] + 60), mem_gb=6)
    if not os.environ.get("VK_KEEP"):
        os.remove(sm)
    try:
        r = json.loads(out.strip().splitlines()[-1])
    except Exception:
        return "unknown", None, time.time() - t0, "case analysis: " + out[-200:], len(names)
    det = json.dumps({k: v for k, v in r.items() if k != "cands"})[:300]
    if r["result"] == "proved":
        return "proved", None, time.time() - t0, det, len(names)
    n = 0
    for c in r.get("cands", [])[:60]:
        inp = [int(x) for x in c]
        n += 1
        if ctx and ctx.exe:
            m = native_run(ctx.exe, cname, inp)
            if m.startswith("FAILED"):
                return "violated", inp, time.time() - t0, m, len(names)
    return "unknown", None, time.time() - t0, f"{n} abstract candidates do not fail natively; " + det, len(names)


def verus_attempt(u, target):
    """mechanically extracted function(s) proved with Verus; sets the unit's status"""
    import vx
    t0 = time.time()
    u.backend = "verus/z3 on the extracted source"
    try:
        texts = [vx.TARGETS[k]() for k in ([target] if isinstance(target, tuple) else target)]
    except (vx.Lost, OSError) as e:
        u.detail = "extraction: " + str(e)
        return
    tot = err = 0
    for t in texts:
        st, v, e, out = vx.run_verus(t, left(300))
        tot, err = tot + v + e, err + e
        if st != "proved":
            u.detail = "verus: " + st + " " + out[-2500:]
            if st == "failed":
                u.status = "failed"
                u.failed = ["verus: " + "; ".join(re.findall(r"error: (.*)", out)[:3]) + " in " + "; ".join(re.findall(r"^\d+ \|\s*(.*)", out, re.M)[:3])]
            break
    else:
        u.status = "proved"
        u.detail = "verus: %d verified, 0 errors" % tot
    u.obligations, u.discharged = tot, tot - err
    u.time += time.time() - t0


def verify_contract(h, args, opts, ctx=None):
    """one contract harness -> Unit"""
    pretty = h["pretty_name"]                      # c01::k::floor
    cname = pretty.replace("::k::", "::")
    u = Unit(cname, "kani-codegen+cbmc/" + opts.get("solver", "cadical"))
    u.contract = cname
    if late():
        u.detail = "time budget of the tier used up"
        return u
    wd = os.path.dirname(h["goto_file"])
    o = os.path.join(wd, "L_" + re.sub(r"\W", "_", pretty) + ".goto")
    ok, out = link(h["goto_file"], h["mangled_name"], o)
    if not ok:
        u.detail = "link: " + out[-300:]
        return u
    argnames = [a[0] for a in args]
    engines = opts.get("engines", ("uf", "sat"))
    cand = None
    if "verus" in engines:
        verus_attempt(u, opts["verus"])
        if u.status == "failed" and opts.get("soft"):
            u.status, u.failed = "undecided", []
        if u.status in ("proved", "failed"):
            return u
    if "cells" in engines:
        props = show_props(o)
        if props:
            st, inp, t, det, n = cells_attempt(o, h["mangled_name"], argnames, props, opts, ctx, cname)
            u.time += t
            u.detail = "cells: " + st + " " + det
            u.backend = "kani-codegen+cbmc-vc+interval-cases/z3"
            u.obligations = n
            if st == "violated":
                u.status, u.inputs = "failed", inp
                u.failed = ["verification condition violated; the solver's input fails natively: " + det]
                return u
            if st == "proved":
                want = {int(p.get("sourceLocation", {}).get("line", 0)) for p in props if "VH:" in p["description"]}
                hit = native_lines(ctx.exe, cname) if ctx and ctx.exe else None
                if hit is None or not want <= hit:
                    u.detail = f"proved; reachability by native execution: want lines {sorted(want)}, hit {sorted(hit or [])}"
                    if hit is None or opts.get("vac_strict", True):
                        return u
                u.discharged, u.covers, u.status = n, len(want), "proved"
                return u
    if "uf" in engines:
        props = show_props(o)
        if props:
            st, inp, t, det = uf_attempt(o, h["mangled_name"], argnames, props, opts, pretty)
            u.time += t
            u.detail = "uf: " + st + " " + det
            if st == "proved":
                n = len([p for p in props if ".cover." not in p["name"]])
                u.backend = "kani-codegen+cbmc-vc+uf/z3"
                # vacuity: every stated obligation is reached by native executions
                want = {int(p.get("sourceLocation", {}).get("line", 0)) for p in props if "VH:" in p["description"]}
                hit = native_lines(ctx.exe, cname) if ctx and ctx.exe else None
                u.obligations = u.discharged = n
                if hit is None or not want <= hit:
                    u.detail = f"uf proved; reachability by native execution: want lines {sorted(want)}, hit {sorted(hit or [])}"
                    if hit is None or opts.get("vac_strict", True):
                        u.obligations = u.discharged = 0
                        if "sat" not in engines:
                            u.status = "undecided"
                            return u
                    else:
                        u.status = "proved"
                        return u
                else:
                    u.covers = len(want)
                    u.status = "proved"
                    return u
            if st == "candidate" and inp is not None and ctx and ctx.exe:
                r = native_run(ctx.exe, cname, inp)
                if r.startswith("FAILED"):
                    u.status, u.inputs = "failed", inp
                    u.backend = "kani-codegen+cbmc-vc+uf/z3"
                    u.obligations = len([p for p in props if ".cover." not in p["name"]])
                    u.failed = ["verification condition satisfiable; the model fails natively: " + r]
                    return u
    if "sat" not in engines or late():
        return u
    cmd = [KB + "/cbmc"] + CBMC_FLAGS
    solver = opts.get("solver", "cadical")
    if solver == "kissat":
        cmd += ["--external-sat-solver", KB + "/kissat"]
    else:
        cmd += ["--sat-solver", solver]
    cmd += ["--unwind", str(opts.get("unwind", 4))]
    for us in opts.get("unwindset", []):
        cmd += ["--unwindset", us]
    cmd += ["--unwinding-assertions", "--trace", "--json-ui", o]
    rc, out, t = run(cmd, left(opts.get("timeout", 120)), mem_gb=opts.get("mem", 12))
    u.time += t
    if rc is None:
        u.detail += f"; sat: timeout after {opts.get('timeout', 120)} s"
    elif rc not in (0, 10):
        parse_cbmc(out, u, argnames, pretty)
        if u.status in ("proved", "failed"):
            u.status = "undecided"
        u.detail = f"cbmc rc={rc} " + u.detail + out[-200:]
    else:
        parse_cbmc(out, u, argnames, pretty)
    if u.status == "failed" and opts.get("soft"):
        # modular obligation over an abstracted callee: a failure counts only if a native run confirms it
        if not (u.inputs is not None and ctx and ctx.exe and native_run(ctx.exe, cname, u.inputs).startswith("FAILED")):
            u.status, u.detail, u.inputs = "undecided", "modular obligation not discharged: " + "; ".join(u.failed)[:200], None
            u.failed, u.discharged = [], 0
    if opts.get("bounded") and u.status == "proved":
        u.status = "bounded"
        u.bounded_note = opts["bounded"]
    try:
        os.remove(o)
    except OSError:
        pass
    return u


def native_lines(exe, contract):
    rc, out, _ = run([exe, "lines", contract, str(SEED)], 60)
    m = re.search(r"LINES ?(.*)", out)
    return {int(x) for x in m.group(1).split()} if m else None


def list_contracts(exe):
    rc, out, _ = run([exe, "list"], 60)
    d = {}
    for l in out.splitlines():
        m = re.match(r"(?:vh::)?(\S+) (\[.*\])", l)
        if m:
            d[m.group(1)] = re.findall(r'\("(\w+)", "([\w: \[\];]+)"\)', m.group(2))
    return d


def native_run(exe, contract, raw, timeout=20):
    rc, out, _ = run([exe, "run", contract] + [hex(x) for x in raw], timeout)
    if rc is None:
        return "FAILED: does not return within %d s" % timeout
    out = out.strip()
    if rc == 3:
        return out
    if rc == 0:
        return out
    return "FAILED: crashed rc=%s %s" % (rc, out[-200:])


def float_bits(v):
    """bit patterns of a real number in the four formats (nearest)"""
    import fractions
    out = []
    if v == 0:
        return [0]
    sgn, v = v < 0, abs(fractions.Fraction(v))
    for bits, sig in ((16, 10), (32, 23), (64, 52), (128, 112)):
        ew = bits - 1 - sig
        bias = (1 << (ew - 1)) - 1
        e = v.numerator.bit_length() - v.denominator.bit_length()
        if v < fractions.Fraction(2) ** e:
            e -= 1
        if e > bias or e < 1 - bias:
            continue
        m = round(v / fractions.Fraction(2) ** (e - sig))
        out.append(((e + bias) << sig) + m - (1 << sig))
    return out


def mine_literals():
    """numeric literals of /repo's source: a dictionary for the native search"""
    import fractions
    vals = set()
    for f in glob.glob(REPO + "/libm/src/**/*.rs", recursive=True):
        if "/tests" in f or "test" in os.path.basename(f):
            continue
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(f, errors="replace").read(), flags=re.S)
        for m in re.finditer(r'"(-?)0x([0-9a-fA-F]*)\.?([0-9a-fA-F]*)p([-+]?[0-9]+)"', t):
            try:
                x = fractions.Fraction(int((m.group(2) + m.group(3)) or "0", 16)) * fractions.Fraction(2) ** (int(m.group(4)) - 4 * len(m.group(3)))
                if abs(int(m.group(4))) < 20000:
                    vals.update(float_bits(x))
            except ValueError:
                pass
        t = re.sub(r'"[^"\n]*"', " ", t)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*(?:\.[0-9_]+)?(?:[eE][-+]?[0-9]+)?)(?:_?(?:[iu](?:8|16|32|64|128|size)|f16|f32|f64|f128))?", t):
            s = m.group(1).replace("_", "")
            try:
                if s[:2] in ("0x", "0b"):
                    vals.add(int(s, 0))
                elif "." in s or "e" in s.lower():
                    if len(s) < 60 and abs(int(re.search(r"[eE]([-+]?\d+)|$", s).group(1) or 0)) < 400:
                        vals.update(float_bits(fractions.Fraction(s)))
                else:
                    vals.add(int(s))
                    if int(s) < 1 << 60:
                        vals.update(float_bits(int(s)))
            except (ValueError, IndexError):
                pass
    p = os.path.join(BUILD, "literals.%d.txt" % os.getpid())
    with open(p, "w") as f:
        f.writelines("%x\n" % v for v in sorted(vals) if 0 <= v < 1 << 128)
    os.environ["VH_DICT"] = p
    return len(vals)


def native_exhaust(exe, contract, secs, threads=8):
    rc, out, _ = run([exe, "exhaust", contract, str(secs), str(threads)], secs + 30)
    tried = int((re.search(r"TRIED (\d+)", out) or [0, 0])[1])
    m = re.search(r"FOUND (.*?) :: (.*)", out)
    if m:
        return tried, [int(x, 16) for x in m.group(1).split()], m.group(2), False
    return tried, None, None, "COMPLETE" in out


WIDTH = {"f16": 16, "u16": 16, "i16": 16, "f32": 32, "u32": 32, "i32": 32, "u8": 8, "i8": 8}


def native_search(exe, contract, secs, threads=1):
    rc, out, _ = run([exe, "search", contract, str(SEED), str(secs), str(threads)], secs + 20)
    tried = 0
    m = re.search(r"TRIED (\d+)", out)
    if m:
        tried = int(m.group(1))
    m = re.search(r"FOUND (.*?) :: (.*)", out)
    if m:
        return tried, [int(x, 16) for x in m.group(1).split()], m.group(2)
    if rc is None:
        return tried, None, "native search did not finish (hang?)"
    return tried, None, None


class Ctx:
    def __init__(self, pid, cfg):
        self.pid, self.cfg = pid, cfg
        self.units = []
        self.notes = []
        self.exe = None
        self.args = {}
        self.jobs = int(os.environ.get("VK_JOBS", "8"))
        self.only = None


def contract_engine(ctx, features, opts_for, name):
    """Engine 1: Kani-compiled contracts, CBMC verification conditions, SAT back end."""
    with cf.ThreadPoolExecutor(2) as ex:
        fn = ex.submit(build_native, features, name)
        fk = ex.submit(build_kani, features, name)
        exe, nout = fn.result()
        hs, kout, kt = fk.result()
    if exe is None:
        errs = "\n".join(re.findall(r"^error.*(?:\n.*){0,4}", nout, re.M)[:4])
        ctx.notes.append("native contract build failed: " + errs[:800])
    else:
        ctx.exe = exe
        ctx.args.update(list_contracts(exe))
    if hs is None:
        errs = "\n".join(re.findall(r"^error.*(?:\n.*){0,6}", kout, re.M)[:4])
        ctx.notes.append("verifier front end rejected the build: " + (errs or kout[-500:])[:800])
        for c in ctx.args:
            if ctx.only and not re.search(ctx.only, c):
                continue
            u = Unit(c, "kani")
            u.contract = c
            u.detail = "front end: no verification conditions generated"
            ctx.units.append(u)
        return
    jobs = []
    for c in sorted(set(ctx.args) - {h["pretty_name"].replace("::k::", "::") for h in hs}):
        if not ctx.only or re.search(ctx.only, c):
            u = Unit(c, "native execution only (bounded)")
            u.contract, u.detail = c, "contract outside the verifier's reach"
            o = opts_for(c)
            if o is None:
                continue
            if "verus" in o.get("engines", ()):
                verus_attempt(u, o["verus"])
            ctx.units.append(u)
    for h in hs:
        c = h["pretty_name"].replace("::k::", "::")
        if ctx.only and not re.search(ctx.only, c):
            continue
        o = opts_for(c)
        if o is None:
            continue
        jobs.append((h, ctx.args.get(c, []), o))
    jobs.sort(key=lambda x: -x[2].get("cost", 1))
    with cf.ThreadPoolExecutor(ctx.jobs) as ex:
        for u in ex.map(lambda a: verify_contract(*a, ctx=ctx), jobs):
            ctx.units.append(u)
            if VERBOSE:
                log(json.dumps(u.j()))
    shutil.rmtree(os.path.join(BUILD, "kani-" + name), ignore_errors=True)


# --------------------------------------------------------------------------- reporting

def write_replay(ctx, u, inputs, outcome, n):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{ctx.pid}-{re.sub(r'[^A-Za-z0-9_]', '_', u.name)}.json")
    rec = {"property": ctx.pid, "unit": u.name, "backend": u.backend, "failed_obligations": u.failed,
           "contract": u.contract, "verifier_output": u.detail[-2000:]}
    if inputs is not None:
        rec["argument_names_types"] = ctx.args.get(u.contract)
        rec["argument_bits"] = [hex(x) for x in inputs]
        rec["native_outcome"] = outcome
        rec["rerun"] = f"cd /verif/harness && cargo +{NATIVE_TC} run --offline --bin vh-replay --features {','.join(ctx.cfg['features'])} -- run {u.contract} " + " ".join(hex(x) for x in inputs)
    else:
        rec["native_outcome"] = outcome or "no failing input found"
    json.dump(rec, open(p, "w"), indent=1)
    return p


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def finish(ctx):
    viol = []
    bounded = []
    kf = [k for k in known_findings().get("known", []) if k["property"] == ctx.pid]
    budget = ctx.cfg.get("search_s", {"quick": 8, "thorough": 60})[TIER]
    und = [u for u in ctx.units if u.status == "undecided"]
    fl = [u for u in ctx.units if u.status == "failed"]

    def settle_failed(u):
        inputs, outcome = None, None
        if u.contract and ctx.exe and u.inputs is not None:
            r = native_run(ctx.exe, u.contract, u.inputs)
            if r.startswith("FAILED"):
                inputs, outcome = u.inputs, r
            else:
                outcome = "solver inputs " + " ".join(hex(x) for x in u.inputs) + " natively: " + r
        if inputs is None and u.contract and ctx.exe:
            tried, raw, msg = native_search(ctx.exe, u.contract, budget, 2)
            if raw is not None:
                inputs, outcome = raw, "FAILED " + msg
            elif msg:
                outcome = msg
        return u, inputs, outcome

    def settle_undecided(u):
        if not (u.contract and ctx.exe):
            return u, None, None, 0
        if u.name in exh:
            return exh[u.name]
        tried, raw, msg = native_search(ctx.exe, u.contract, budget, 1)
        if raw is not None and native_run(ctx.exe, u.contract, raw).startswith("FAILED"):
            return u, raw, msg, tried
        return u, None, None, tried

    exh = {}
    xend = time.time() + {"quick": 180, "thorough": 5400}[TIER]
    for u in und:
        if time.time() > xend or late():
            break
        a = ctx.args.get(u.contract) or []
        if ctx.exe and a and sum(WIDTH.get(t, 999) for _, t in a) <= 32 and ctx.cfg.get("exhaust", True):
            tried, raw, msg, full = native_exhaust(ctx.exe, u.contract, ctx.cfg.get("exhaust_s", {"quick": 40, "thorough": 600})[TIER])
            if raw is not None and native_run(ctx.exe, u.contract, raw).startswith("FAILED"):
                exh[u.name] = (u, raw, msg, tried)
            elif full:
                u.exhausted = True
                exh[u.name] = (u, None, None, tried)

    with cf.ThreadPoolExecutor(4) as ex:
        rf = list(ex.map(settle_failed, fl))
    with cf.ThreadPoolExecutor(8) as ex:
        ru = list(ex.map(settle_undecided, und))
    for u, inputs, outcome in rf:
        p = write_replay(ctx, u, inputs, outcome, 0)
        viol.append((u, p, inputs is None))
    for u, raw, msg, tried in ru:
        if raw is not None:
            u.status = "failed"
            u.failed = ["native: " + msg]
            p = write_replay(ctx, u, raw, "FAILED " + msg, 0)
            viol.append((u, p, False))
        else:
            u.bounded_note = (f"verifier gave no verdict ({u.detail[:120]}); the contract was executed on every one of its {tried} inputs, no failure" if getattr(u, "exhausted", False) else f"verifier gave no verdict ({u.detail[:120]}); {tried} native executions of the contract, no failure")
            bounded.append(u)
    # known findings: identified by contract + obligation text
    real = []
    for u, p, nf in viol:
        k = [k for k in kf if k.get("unit") == u.name and all(any(k.get("obligation", "\0") in f for f in [g]) for g in u.failed)]
        if k:
            log(f"KNOWN-FINDING: property={ctx.pid} {k[0]['what']}")
        else:
            real.append((u, p, nf))
    for k in kf:
        if k.get("always"):
            log(f"KNOWN-FINDING: property={ctx.pid} {k['what']}")
    wall = time.time() - T0
    proved = [u for u in ctx.units if u.status == "proved"]
    bnd = [u for u in ctx.units if u.status == "bounded"] + bounded
    by = {}
    for u in ctx.units:
        b = by.setdefault(u.backend, {"units": 0, "proved_units": 0, "obligations": 0, "discharged": 0, "solver_s": 0.0})
        b["units"] += 1
        b["proved_units"] += u.status == "proved"
        b["obligations"] += u.obligations
        b["discharged"] += u.discharged
        b["solver_s"] = round(b["solver_s"] + u.time, 2)
    ev = {"property": ctx.pid, "tier": TIER, "seed": SEED, "level": ctx.cfg.get("level", "proof"),
          "coverage": {
              "obligations": sum(u.obligations for u in ctx.units if u.status != "bounded"),
              "discharged": sum(u.discharged for u in ctx.units if u.status != "bounded"),
              "checker_cmd": f"python3-vt /verif/tools/vk.py check {ctx.pid} --tier {TIER}",
              "trusted_base": TRUSTED + ctx.cfg.get("trusted", []),
              "functions_under_contract": sorted({f for u in ctx.units for f in (u.functions or [u.name])}),
              "proved_units": len(proved), "reachability_covers_satisfied": sum(u.covers for u in ctx.units),
              "back_ends": by,
              "solver_time_s": round(sum(u.time for u in ctx.units), 2),
              "bounded_units": [u.j() for u in bnd],
              "units": [u.j() for u in ctx.units],
              "notes": ctx.notes,
              **({"explanation": ctx.cfg["explanation"]} if "explanation" in ctx.cfg else {})},
          "assumptions": ctx.cfg.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w"), indent=1)
    log(f"{ctx.pid}: {len(ctx.units)} units, {len(proved)} proved, {len(bnd)} bounded/undecided, {len(real)} violated; "
        f"{ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations, {wall:.0f} s")
    for u in bnd:
        log(f"  bounded: {u.name}: {u.bounded_note}")
    for n in ctx.notes:
        log("  note: " + n[:400])
    for u, p, nf in real:
        log(f"  failed obligation in {u.name}: {u.failed[0] if u.failed else u.detail[:200]}")
    for u, p, nf in sorted(real, key=lambda r: r[2]):
        log(f"VIOLATION property={ctx.pid} replay={p}" + (" no-failing-input-found" if nf else ""))
    if real:
        return 1
    try:
        os.remove(os.environ.get("VH_DICT", ""))
    except OSError:
        pass
    if not ctx.units or (ctx.exe is None and not proved):
        log("error: nothing could be verified")
        return 2
    return 0


TRUSTED = [
    "Kani 0.68 compiler: Rust MIR -> goto translation, debug profile (overflow and bounds checks on), its own rustc nightly rather than the repository's",
    "CBMC 6.11: symbolic execution, bit-precise IEEE-754 float encoding (round-to-nearest), SAT back end",
]


def main():
    global TIER, VERBOSE
    import props
    a = sys.argv[1:]
    TIER = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        TIER = a[a.index("--tier") + 1]
    if "-v" in a:
        VERBOSE = True
    pid = a[1]
    cfg = props.PROPS[pid]
    ctx = Ctx(pid, cfg)
    rest = [x for x in a[2:] if not x.startswith("-") and x not in ("quick", "thorough")]
    if rest:
        ctx.only = rest[0]
    os.makedirs(BUILD, exist_ok=True)
    ctx.notes.append("literals mined from the source for the native search: %d" % mine_literals())
    for eng in cfg["engines"]:
        eng(ctx, TIER)
    sys.exit(finish(ctx))


if __name__ == "__main__":
    main()
