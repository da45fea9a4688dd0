"""Engine 2: verification conditions with abstract floating-point arithmetic.

CBMC emits the verification condition of a contract as SMT-LIB with floating-point operators.  This
module replaces every rounding operation (+ - * /) by an uninterpreted function, normalised so that
the facts every IEEE-754 binary format guarantees are explicit, and adds ground instances of such
facts as axioms.  Everything else (comparisons, sign operations, bit casts, integer code, control
flow) stays exact.  The result over-approximates the real code: `unsat` means the contract is proved
for every input; `sat` yields a candidate input that only counts when it fails natively.
"""
import re, sys

sys.setrecursionlimit(1000000)

FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53), 128: (15, 113)}


def tokenize(text):
    return re.finditer(r';[^\n]*|\|[^|]*\||"[^"]*"|[()]|[^\s()|;"]+', text)


def parse(text):
    stack = [[]]
    for m in tokenize(text):
        t = m.group(0)
        c = t[0]
        if c == ";":
            continue
        if c == "(":
            stack.append([])
        elif c == ")":
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0]


class Dag:
    def __init__(self):
        self.tab = {}
        self.nodes = []     # (op, args tuple of ids / params)
        self.sort = []
        self.decls = {}     # name -> sort

    def mk(self, op, args, sort):
        key = (op, args)
        i = self.tab.get(key)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(key)
            self.sort.append(sort)
            self.tab[key] = i
        return i


def parse_sort(s):
    if s == "Bool":
        return "Bool"
    if isinstance(s, list):
        if s[0] == "_" and s[1] == "BitVec":
            return int(s[2])
        if s[0] == "_" and s[1] == "FloatingPoint":
            return int(s[2]) + int(s[3])
        if s[0] == "Array":
            return ("Array", parse_sort(s[1]), parse_sort(s[2]))
    raise ValueError("sort %r" % (s,))


def sort_str(s):
    if s == "Bool":
        return "Bool"
    if isinstance(s, int):
        return f"(_ BitVec {s})"
    return f"(Array {sort_str(s[1])} {sort_str(s[2])})"


BVBIN = {"bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvnand", "bvnor", "bvxnor"}
BVREL = {"bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"}
FPBIN = {"fp.add", "fp.sub", "fp.mul", "fp.div", "fp.rem"}
FPREL = {"fp.lt", "fp.leq", "fp.gt", "fp.geq", "fp.eq"}
FPUN = {"fp.isNaN", "fp.isInfinite", "fp.isNormal", "fp.isSubnormal", "fp.isZero", "fp.isNegative", "fp.isPositive"}


class Conv:
    """SMT-LIB script of CBMC -> Dag"""
    def __init__(self):
        self.d = Dag()
        self.env = {}
        self.asserts = []

    def script(self, text):
        for cmd in parse(text):
            if not isinstance(cmd, list) or not cmd:
                continue
            k = cmd[0]
            if k == "declare-fun":
                if cmd[2]:
                    raise ValueError("declared function with arguments: %s" % cmd[1])
                s = parse_sort(cmd[3])
                self.d.decls[cmd[1]] = s
                self.env[cmd[1]] = self.d.mk("var", (cmd[1],), s)
            elif k == "define-fun":
                if cmd[2]:
                    raise ValueError("defined function with arguments: %s" % cmd[1])
                self.env[cmd[1]] = self.t(cmd[4], {})
            elif k == "assert":
                self.asserts.append(self.t(cmd[1], {}))

    def bv(self, val, w):
        return self.d.mk("bv", (val & ((1 << w) - 1), w), w)

    def t(self, x, loc):
        d = self.d
        if isinstance(x, str):
            if x in loc:
                return loc[x]
            if x in self.env:
                return self.env[x]
            if x.startswith("#b"):
                return self.bv(int(x[2:], 2), len(x) - 2)
            if x.startswith("#x"):
                return self.bv(int(x[2:], 16), 4 * (len(x) - 2))
            if x in ("true", "false"):
                return d.mk(x, (), "Bool")
            raise ValueError("unknown symbol " + x)
        h = x[0]
        if h == "_":
            if x[1].startswith("bv"):
                return self.bv(int(x[1][2:]), int(x[2]))
            if x[1] in ("+zero", "-zero", "+oo", "-oo", "NaN"):
                e, s = int(x[2]), int(x[3])
                w = e + s
                v = {"+zero": 0, "-zero": 1 << (w - 1), "+oo": ((1 << e) - 1) << (s - 1),
                     "-oo": (((1 << (e + 1)) - 1) << (s - 1)), "NaN": (((1 << (e + 1)) - 1) << (s - 2))}[x[1]]
                return self.bv(v, w)
            raise ValueError("term %r" % (x,))
        if isinstance(h, list):
            # indexed operators
            if h[0] == "_":
                op = h[1]
                if op == "extract":
                    a = self.t(x[1], loc)
                    hi, lo = int(h[2]), int(h[3])
                    if lo == 0 and hi == d.sort[a] - 1:
                        return a
                    return d.mk("extract", (hi, lo, a), hi - lo + 1)
                if op in ("zero_extend", "sign_extend"):
                    a = self.t(x[1], loc)
                    n = int(h[2])
                    return a if n == 0 else d.mk(op, (n, a), d.sort[a] + n)
                if op in ("rotate_left", "rotate_right", "repeat"):
                    a = self.t(x[1], loc)
                    return d.mk(op, (int(h[2]), a), d.sort[a] * (int(h[2]) if op == "repeat" else 1))
                if op == "to_fp":
                    e, s = int(h[2]), int(h[3])
                    if len(x) == 2:
                        return self.t(x[1], loc)     # reinterpretation: exact
                    a = self.t(x[2], loc)
                    src = self.srckind(x[2], loc)
                    if src == "fp":
                        if d.sort[a] == e + s:
                            return a
                        return d.mk("fcvt", (x[1], e + s, a), e + s)
                    return d.mk("s2f", (x[1], e + s, a), e + s)
                if op == "to_fp_unsigned":
                    e, s = int(h[2]), int(h[3])
                    a = self.t(x[2], loc)
                    return d.mk("u2f", (x[1], e + s, a), e + s)
                if op in ("fp.to_sbv", "fp.to_ubv"):
                    a = self.t(x[2], loc)
                    return d.mk(op, (x[1], int(h[2]), a), int(h[2]))
            if h[0] == "as" and h[1] == "const":
                s = parse_sort(h[2])
                a = self.t(x[1], loc)
                return d.mk("constarr", (s, a), s)
            raise ValueError("term %r" % (h,))
        if h == "let":
            loc2 = dict(loc)
            for n, v in x[1]:
                loc2[n] = self.t(v, loc)
            body = x[2]
            # CBMC 6.11 packs {result, overflowed} of an overflow-checked operation the wrong way
            # round for its own field accesses (result = low bits); restore the struct layout.
            if x[1] and x[1][0][0] in ("?sum", "?prod", "prod") and isinstance(body, list) and body[0] == "concat" \
                    and len(body) == 3 and isinstance(body[2], list) and body[2][0] == "ite" and body[2][2:] == ["#b1", "#b0"]:
                body = ["concat", body[2], body[1]]
            return self.t(body, loc2)
        if h == "fp":
            a, b, c = (self.t(y, loc) for y in x[1:])
            return self.concat([a, b, c])
        if h in FPBIN:
            a, b = self.t(x[2], loc), self.t(x[3], loc)
            return d.mk(h, (x[1], a, b), d.sort[a])
        if h == "fp.fma":
            a = tuple(self.t(y, loc) for y in x[2:])
            return d.mk(h, (x[1],) + a, d.sort[a[0]])
        if h in ("fp.sqrt", "fp.roundToIntegral"):
            a = self.t(x[2], loc)
            return d.mk(h, (x[1], a), d.sort[a])
        if h in ("fp.neg", "fp.abs"):
            a = self.t(x[1], loc)
            return d.mk(h, (a,), d.sort[a])
        args = tuple(self.t(y, loc) for y in x[1:])
        if h in FPREL or h in BVREL or h in FPUN:
            return d.mk(h, args, "Bool")
        if h in ("not", "and", "or", "=>", "xor", "=", "distinct"):
            return d.mk(h, args, "Bool")
        if h == "ite":
            return d.mk("ite", args, d.sort[args[1]])
        if h in BVBIN:
            return d.mk(h, args, d.sort[args[0]])
        if h in ("bvnot", "bvneg"):
            return d.mk(h, args, d.sort[args[0]])
        if h == "concat":
            return self.concat(list(args))
        if h == "select":
            return d.mk("select", args, d.sort[args[0]][2])
        if h == "store":
            return d.mk("store", args, d.sort[args[0]])
        if h == "bvcomp":
            return d.mk("bvcomp", args, 1)
        raise ValueError("operator %r" % (h,))

    def concat(self, args):
        d = self.d
        if all(d.nodes[a][0] == "bv" for a in args):
            v = w = 0
            for a in args:
                av, aw = d.nodes[a][1]
                v = v << aw | av
                w += aw
            return self.bv(v, w)
        return d.mk("concat", tuple(args), sum(d.sort[a] for a in args))

    def srckind(self, x, loc):
        """is the operand of a 3-argument to_fp a float or an integer?"""
        if isinstance(x, str):
            return self.kinds.get(x, "bv")
        h = x[0]
        if isinstance(h, str) and (h.startswith("fp.") or h == "fp"):
            return "fp"
        if isinstance(h, list) and h[0] == "_" and h[1].startswith("to_fp"):
            return "fp"
        if h == "_" and x[1] in ("+zero", "-zero", "+oo", "-oo", "NaN"):
            return "fp"
        if h == "ite":
            return self.srckind(x[2], loc)
        return "bv"

    kinds = {}


def convert(text):
    c = Conv()
    c.kinds = {}
    for m in re.finditer(r"\((?:declare|define)-fun (\|[^|]*\||\S+) \(\) \(_ FloatingPoint", text):
        c.kinds[m.group(1)] = "fp"
    c.script(text)
    return c


class Emit:
    """Dag -> SMT-LIB with uninterpreted rounding operations + axioms"""
    def __init__(self, conv, axioms=("base",), exact_ops=(), cvt="exact"):
        self.c, self.d = conv, conv.d
        self.axioms = axioms
        self.blens = {}
        self.exact_ops = set(exact_ops)
        self.cvt = cvt
        self.flags = {}         # node -> facts established by the case analysis (see cells.py)
        self.out = []
        self.ax = []
        self.name = {}
        self.ufs = {}
        self.apps = 0
        self.helpers = set()

    # bit-level vocabulary
    def absx(self, x, w):
        return f"(bvand {x} {self.k((1 << (w - 1)) - 1, w)})"

    def k(self, v, w):
        return f"(_ bv{v & ((1 << w) - 1)} {w})"

    def helper(self, w):
        if w in self.helpers:
            return
        self.helpers.add(w)
        e, s = FMT[w]
        inf = ((1 << e) - 1) << (s - 1)
        S = f"(_ BitVec {w})"
        self.out += [
            f"(define-fun abs{w} ((x {S})) {S} (bvand x {self.k((1 << (w-1)) - 1, w)}))",
            f"(define-fun nan{w} ((x {S})) Bool (bvugt (abs{w} x) {self.k(inf, w)}))",
            f"(define-fun inf{w} ((x {S})) Bool (= (abs{w} x) {self.k(inf, w)}))",
            f"(define-fun zer{w} ((x {S})) Bool (= (abs{w} x) {self.k(0, w)}))",
            f"(define-fun neg{w} ((x {S})) Bool (= ((_ extract {w-1} {w-1}) x) #b1))",
            f"(define-fun sgn{w} ((x {S})) {S} (bvand x {self.k(1 << (w-1), w)}))",
            f"(define-fun flip{w} ((x {S})) {S} (bvxor x {self.k(1 << (w-1), w)}))",
            f"(define-fun lt{w} ((x {S}) (y {S})) Bool (and (not (nan{w} x)) (not (nan{w} y)) (not (and (zer{w} x) (zer{w} y)))"
            f" (ite (neg{w} x) (ite (neg{w} y) (bvugt (abs{w} x) (abs{w} y)) true) (ite (neg{w} y) false (bvult x y)))))",
            f"(define-fun eq{w} ((x {S}) (y {S})) Bool (and (not (nan{w} x)) (not (nan{w} y)) (or (= x y) (and (zer{w} x) (zer{w} y)))))",
            f"(define-fun le{w} ((x {S}) (y {S})) Bool (or (lt{w} x y) (eq{w} x y)))",
        ]

    def uf(self, name, argw, resw):
        if name not in self.ufs:
            self.ufs[name] = True
            self.out.append(f"(declare-fun {name} ({' '.join('(_ BitVec %d)' % w for w in argw)}) (_ BitVec {resw}))")
        return name

    def reach(self, roots):
        seen = set()
        order = []
        st = [(r, False) for r in roots]
        while st:
            n, done = st.pop()
            if done:
                order.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            st.append((n, True))
            op, args = self.d.nodes[n]
            for a in self.children(op, args):
                if a not in seen:
                    st.append((a, False))
        return order

    @staticmethod
    def children(op, args):
        if op in ("var", "bv", "true", "false"):
            return ()
        if op == "extract":
            return args[2:]
        if op in ("zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat", "constarr"):
            return args[1:]
        if op in ("fcvt", "s2f", "u2f", "fp.to_sbv", "fp.to_ubv"):
            return args[2:]
        if op in FPBIN or op in ("fp.fma", "fp.sqrt", "fp.roundToIntegral"):
            return args[1:]
        return args

    def define(self, n, body):
        nm = f"n{n}"
        self.out.append(f"(define-fun {nm} () {sort_str(self.d.sort[n])} {body})")
        self.name[n] = nm

    def fresh(self, body, w):
        nm = f"x{len(self.out)}"
        self.out.append(f"(define-fun {nm} () (_ BitVec {w}) {body})")
        return nm

    def go(self, assert_ids=None):
        d = self.d
        roots = assert_ids if assert_ids is not None else self.c.asserts
        order = self.reach(roots)
        head = ["(set-logic ALL)"]
        for n in order:
            op, args = d.nodes[n]
            if op == "var":
                head.append(f"(declare-fun {args[0]} () {sort_str(d.sort[n])})")
                self.name[n] = args[0]
        N = self.name
        for n in order:
            op, args = d.nodes[n]
            w = d.sort[n]
            if op == "var":
                continue
            if op == "bv":
                N[n] = f"(_ bv{args[0]} {args[1]})"
                continue
            if op in ("true", "false"):
                N[n] = op
                continue
            if op == "extract":
                self.define(n, f"((_ extract {args[0]} {args[1]}) {N[args[2]]})")
                continue
            if op in ("zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat"):
                self.define(n, f"((_ {op} {args[0]}) {N[args[1]]})")
                continue
            if op == "constarr":
                self.define(n, f"((as const {sort_str(args[0])}) {N[args[1]]})")
                continue
            if op in FPREL:
                aw = d.sort[args[0]]
                self.helper(aw)
                a, b = N[args[0]], N[args[1]]
                self.define(n, {"fp.lt": f"(lt{aw} {a} {b})", "fp.leq": f"(le{aw} {a} {b})", "fp.gt": f"(lt{aw} {b} {a})",
                                "fp.geq": f"(le{aw} {b} {a})", "fp.eq": f"(eq{aw} {a} {b})"}[op])
                continue
            if op in FPUN:
                aw = d.sort[args[0]]
                self.helper(aw)
                e, s = FMT[aw]
                a = N[args[0]]
                mn = self.k(1 << (s - 1), aw)
                inf = self.k(((1 << e) - 1) << (s - 1), aw)
                self.define(n, {"fp.isNaN": f"(nan{aw} {a})", "fp.isInfinite": f"(inf{aw} {a})", "fp.isZero": f"(zer{aw} {a})",
                                "fp.isNegative": f"(and (not (nan{aw} {a})) (neg{aw} {a}))", "fp.isPositive": f"(and (not (nan{aw} {a})) (not (neg{aw} {a})))",
                                "fp.isNormal": f"(and (bvuge (abs{aw} {a}) {mn}) (bvult (abs{aw} {a}) {inf}))",
                                "fp.isSubnormal": f"(and (not (zer{aw} {a})) (bvult (abs{aw} {a}) {mn}))"}[op])
                continue
            if op == "fp.neg":
                self.helper(w)
                self.define(n, f"(flip{w} {N[args[0]]})")
                continue
            if op == "fp.abs":
                self.helper(w)
                self.define(n, f"(abs{w} {N[args[0]]})")
                continue
            if op in ("fp.add", "fp.sub", "fp.mul", "fp.div") and args[0] in ("roundNearestTiesToEven", "RNE"):
                self.fpop(n, op, N[args[1]], N[args[2]], w, args)
                continue
            if op in ("fp.add", "fp.sub", "fp.mul", "fp.div", "fp.rem", "fp.sqrt", "fp.fma", "fp.roundToIntegral"):
                f = self.uf(op.replace(".", "_") + "_" + re.sub(r"\W", "", str(args[0])) + str(w), [w] * (len(args) - 1), w)
                self.define(n, f"({f} {' '.join(N[a] for a in args[1:])})")
                continue
            if op == "fcvt":
                self.cvtop(n, N[args[2]], d.sort[args[2]], w)
                continue
            if op == "bvmul" and "bvmul" in self.axioms and len(args) == 2 and self.bvmul(n, args, w):
                continue
            if op == "rintc":
                self.helper(w)
                f = self.uf(f"urint{w}", [w], w)
                a = N[args[0]]
                u = self.fresh(f"({f} (abs{w} {a}))", w)
                self.define(n, f"(ite (= {u} {self.k(0, w)}) {u} (bvor {u} (sgn{w} {a})))")
                e, s = FMT[w]
                self.ax.append(f"(assert (bvult {u} {self.k(((1 << e) - 1) << (s - 1), w)}))")
                self.ax.append(f"(assert (=> (zer{w} {a}) (= {u} {self.k(0, w)})))")
                continue
            if op == "s2f" and self.cvt == "uf":
                self.helper(w)
                iw = d.sort[args[2]]
                f = self.uf(f"us2f{iw}_{w}", [iw], w)
                a = N[args[2]]
                mag = self.fresh(f"(ite (bvslt {a} {self.k(0, iw)}) (bvneg {a}) {a})", iw)
                u = self.fresh(f"({f} {mag})", w)
                self.define(n, f"(ite (bvslt {a} {self.k(0, iw)}) (flip{w} {u}) {u})")
                e, s = FMT[w]
                inf = self.k(((1 << e) - 1) << (s - 1), w)
                self.ax.append(f"(assert (bvule {u} {inf}))")
                self.ax.append(f"(assert (= (= {u} {self.k(0, w)}) (= {a} {self.k(0, iw)})))")
                continue
            if op == "u2f" and self.cvt == "uf":
                self.helper(w)
                iw = d.sort[args[2]]
                f = self.uf(f"uu2f{iw}_{w}", [iw], w)
                u = self.fresh(f"({f} {N[args[2]]})", w)
                self.define(n, u)
                e, s = FMT[w]
                self.ax.append(f"(assert (bvule {u} {self.k(((1 << e) - 1) << (s - 1), w)}))")
                self.ax.append(f"(assert (= (= {u} {self.k(0, w)}) (= {N[args[2]]} {self.k(0, iw)})))")
                continue
            if op == "fp.to_sbv" and self.cvt == "uf" and args[0] in ("roundTowardZero", "RTZ"):
                aw = d.sort[args[2]]
                self.helper(aw)
                a = N[args[2]]
                f = self.uf(f"utosbv{aw}_{w}", [aw], w)
                g = self.uf(f"utosbvx{aw}_{w}", [aw], w)
                e, s = FMT[aw]
                bias = (1 << (e - 1)) - 1
                lim = self.k((bias + w - 1) << (s - 1), aw)        # 2^(w-1): outside is unspecified
                u = self.fresh(f"({f} (abs{aw} {a}))", w)
                x = self.fresh(f"({g} {a})", w)
                self.define(n, f"(ite (bvult (abs{aw} {a}) {lim}) (ite (neg{aw} {a}) (bvneg {u}) {u}) {x})")
                self.ax.append(f"(assert (bvsge {u} {self.k(0, w)}))")
                self.ax.append(f"(assert (=> (bvult (abs{aw} {a}) {self.k(bias << (s - 1), aw)}) (= {u} {self.k(0, w)})))")
                continue
            if op in ("s2f", "u2f"):
                e, s = FMT[w]
                o = "to_fp" if op == "s2f" else "to_fp_unsigned"
                self.define(n, f"(fp.to_ieee_bv ((_ {o} {e} {s}) RNE {N[args[2]]}))")
                continue
            if op in ("fp.to_sbv", "fp.to_ubv"):
                e, s = FMT[d.sort[args[2]]]
                rm = {"roundTowardZero": "RTZ", "roundNearestTiesToEven": "RNE"}.get(args[0], args[0])
                self.define(n, f"((_ {op} {args[1]}) {rm} ((_ to_fp {e} {s}) {N[args[2]]}))")
                continue
            self.define(n, f"({op} {' '.join(N[a] for a in args)})")
        return "\n".join(head + self.out + self.ax + [f"(assert {N[r]})" for r in roots]) + "\n"

    # ---- integer multiplication ----
    def blen(self, n):
        """static bound on the number of significant bits"""
        if n in self.blens:
            return self.blens[n]
        op, args = self.d.nodes[n]
        w = self.d.sort[n]
        if not isinstance(w, int):
            return 1 << 20
        r = w
        if op == "bv":
            r = args[0].bit_length()
        elif op == "zero_extend":
            r = self.blen(args[1])
        elif op == "extract":
            r = min(w, max(0, self.blen(args[2]) - args[1]))
        elif op == "ite":
            r = max(self.blen(args[1]), self.blen(args[2]))
        elif op == "bvand":
            r = min(self.blen(a) for a in args)
        elif op in ("bvor", "bvxor"):
            r = max(self.blen(a) for a in args)
        elif op == "concat" and len(args) == 2:
            h, l = self.blen(args[0]), self.blen(args[1])
            r = l if h == 0 else h + self.d.sort[args[1]]
        elif op in ("bvlshr", "bvshl"):
            a = self.blen(args[0])
            k = self.d.nodes[args[1]]
            if k[0] == "bv":
                r = max(0, a - k[1][0]) if op == "bvlshr" else min(w, a + k[1][0])
            elif op == "bvlshr":
                r = a
        r = min(r, w)
        self.blens[n] = r
        return r

    def bvmul(self, n, args, w):
        """a product as an uninterpreted function of its operands, exact below 2^(la+lb)"""
        a, b = args
        if self.d.nodes[a][0] == "bv" or self.d.nodes[b][0] == "bv":
            return False
        la, lb = self.blen(a), self.blen(b)
        if la < 8 or lb < 8:
            return False
        if (lb, b) < (la, a):
            a, b, la, lb = b, a, lb, la
        W = la + lb
        fit = lambda x, l: self.name[x] if self.d.sort[x] == l else f"((_ extract {l - 1} 0) {self.name[x]})"
        x, y = self.fresh(fit(a, la), la), self.fresh(fit(b, lb), lb)
        if la == lb:
            lo = self.fresh(f"(ite (bvule {x} {y}) {x} {y})", la)
            y = self.fresh(f"(ite (bvule {x} {y}) {y} {x})", la)
            x = lo
        p = self.fresh(f"({self.uf(f'bvm{la}_{lb}', [la, lb], W)} {x} {y})", W)
        A = self.ax.append
        A(f"(assert (bvule {p} {self.k(((1 << la) - 1) * ((1 << lb) - 1), W)}))")
        zx = lambda v, l: f"((_ zero_extend {W - l}) {v})"
        # top bit set: at least the other operand shifted
        A(f"(assert (=> (= ((_ extract {la - 1} {la - 1}) {x}) #b1) (bvuge {p} (bvshl {zx(y, lb)} {self.k(la - 1, W)}))))")
        A(f"(assert (=> (= ((_ extract {lb - 1} {lb - 1}) {y}) #b1) (bvuge {p} (bvshl {zx(x, la)} {self.k(lb - 1, W)}))))")
        A(f"(assert (= (= {p} {self.k(0, W)}) (or (= {x} {self.k(0, la)}) (= {y} {self.k(0, lb)}))))")
        A(f"(assert (= ((_ extract 0 0) {p}) (bvand ((_ extract 0 0) {x}) ((_ extract 0 0) {y}))))")
        self.define(n, p if W == w else f"((_ zero_extend {w - W}) {p})" if W < w else f"((_ extract {w - 1} 0) {p})")
        return True

    # ---- rounding operations -------------------------------------------------------------
    def fpop(self, n, op, a, b, w, args):
        self.helper(w)
        self.apps += 1
        e, s = FMT[w]
        bias = (1 << (e - 1)) - 1
        inf = self.k(((1 << e) - 1) << (s - 1), w)
        one = self.k(bias << (s - 1), w)
        zero = self.k(0, w)
        if op in self.exact_ops or "exact" in self.axioms:
            fo = op
            self.define(n, f"(fp.to_ieee_bv ({fo} RNE ((_ to_fp {e} {s}) {a}) ((_ to_fp {e} {s}) {b})))")
            return
        if op == "fp.sub":
            b = self.fresh(f"(flip{w} {b})", w)
            op = "fp.add"
        b2 = b
        A = self.ax.append
        if op in ("fp.mul", "fp.div"):
            o = "umul" if op == "fp.mul" else "udiv"
            aa, ab = f"(abs{w} {a})", f"(abs{w} {b})"
            if op == "fp.mul" and "comm" in self.axioms:
                aa, ab = f"(ite (bvule {aa} {ab}) {aa} {ab})", f"(ite (bvule {aa} {ab}) {ab} {aa})"
            elif op == "fp.mul" and args[1] > args[2]:
                aa, ab = ab, aa
            f = self.uf(f"{o}{w}", [w, w], w)
            fl = self.flags.get(n)
            if fl is not None and not fl["nan"] and "pow2" not in self.axioms:
                # the case analysis excludes NaN; zero/inf/one only where possible
                if op == "fp.mul" and args[1] == args[2]:
                    sg = None
                else:
                    sg = f"(bvxor (sgn{w} {a}) (sgn{w} {b}))"
                u = self.fresh(f"({f} {aa} {ab})", w)
                self.define(n, u if sg is None else f"(bvor {u} {sg})")
                A(f"(assert (bvule {u} {inf}))")
                aa, ab = f"(abs{w} {a})", f"(abs{w} {b})"
                za, zb = fl["z"]
                ia, ib = fl["i"]
                oa, ob = fl["one"]
                if op == "fp.mul":
                    if za: A(f"(assert (=> (zer{w} {a}) (= {u} {zero})))")
                    if zb: A(f"(assert (=> (zer{w} {b}) (= {u} {zero})))")
                    if ia: A(f"(assert (=> (inf{w} {a}) (= {u} {inf})))")
                    if ib: A(f"(assert (=> (inf{w} {b}) (= {u} {inf})))")
                    if oa: A(f"(assert (=> (= {aa} {one}) (= {u} {ab})))")
                    if ob: A(f"(assert (=> (= {ab} {one}) (= {u} {aa})))")
                else:
                    if za: A(f"(assert (=> (zer{w} {a}) (= {u} {zero})))")
                    if zb: A(f"(assert (=> (zer{w} {b}) (= {u} {inf})))")
                    if ia: A(f"(assert (=> (inf{w} {a}) (= {u} {inf})))")
                    if ib: A(f"(assert (=> (inf{w} {b}) (= {u} {zero})))")
                    if ob: A(f"(assert (=> (= {ab} {one}) (= {u} {aa})))")
                return
            g = self.uf(f"{o}nan{w}", [w, w], w)
            if op == "fp.mul" and "pow2" in self.axioms:
                u = self.pow2mul(f"({f} {aa} {ab})", f"(abs{w} {a})", f"(abs{w} {b})", w)
            else:
                u = self.fresh(f"({f} {aa} {ab})", w)
            na = self.fresh(f"({g} {a} {b})", w)
            if op == "fp.mul":
                isn = f"(or (nan{w} {a}) (nan{w} {b}) (and (zer{w} {a}) (inf{w} {b})) (and (inf{w} {a}) (zer{w} {b})))"
            else:
                isn = f"(or (nan{w} {a}) (nan{w} {b}) (and (zer{w} {a}) (zer{w} {b})) (and (inf{w} {a}) (inf{w} {b})))"
            self.define(n, f"(ite {isn} {na} (bvor {u} (bvxor (sgn{w} {a}) (sgn{w} {b}))))")
            A(f"(assert (nan{w} {na}))")
            A(f"(assert (bvule {u} {inf}))")
            aa, ab = f"(abs{w} {a})", f"(abs{w} {b})"
            if op == "fp.mul":
                A(f"(assert (=> (and (not {isn}) (or (zer{w} {a}) (zer{w} {b}))) (= {u} {zero})))")
                A(f"(assert (=> (and (not {isn}) (or (inf{w} {a}) (inf{w} {b}))) (= {u} {inf})))")
                A(f"(assert (=> (and (not {isn}) (= {aa} {one})) (= {u} {ab})))")
                A(f"(assert (=> (and (not {isn}) (= {ab} {one})) (= {u} {aa})))")
                if "range" in self.axioms:
                    A(f"(assert (=> (and (not {isn}) (bvule {aa} {one})) (bvule {u} {ab})))")
                    A(f"(assert (=> (and (not {isn}) (bvule {ab} {one})) (bvule {u} {aa})))")
                    A(f"(assert (=> (and (not {isn}) (bvuge {aa} {one})) (bvuge {u} {ab})))")
                    A(f"(assert (=> (and (not {isn}) (bvuge {ab} {one})) (bvuge {u} {aa})))")
                if "expo" in self.axioms:
                    self.mul_expo(u, aa, ab, isn, w)
            else:
                A(f"(assert (=> (and (not {isn}) (or (zer{w} {a}) (inf{w} {b}))) (= {u} {zero})))")
                A(f"(assert (=> (and (not {isn}) (or (inf{w} {a}) (zer{w} {b}))) (= {u} {inf})))")
                A(f"(assert (=> (and (not {isn}) (= {ab} {one})) (= {u} {aa})))")
                if "range" in self.axioms:
                    A(f"(assert (=> (and (not {isn}) (bvuge {ab} {one})) (bvule {u} {aa})))")
                    A(f"(assert (=> (and (not {isn}) (bvule {ab} {one})) (bvuge {u} {aa})))")
                    A(f"(assert (=> (and (not {isn}) (bvule {aa} {ab})) (bvule {u} {one})))")
                    A(f"(assert (=> (and (not {isn}) (bvuge {aa} {ab})) (bvuge {u} {one})))")
                if "expo" in self.axioms:
                    self.div_expo(u, aa, ab, isn, w)
            return
        # addition: canonical operand order by DAG id, sign-normalised on the first operand
        if args[1] > args[2]:
            a, b = b, a
        f = self.uf(f"uadd{w}", [w, w], w)
        fl = self.flags.get(n)
        if fl is not None and not fl["nan"] and not fl["canc"] and "comm" not in self.axioms and "range" not in self.axioms:
            za, zb = fl["z"]
            ia, ib = fl["i"]
            if args[1] > args[2]:
                za, zb, ia, ib = zb, za, ib, ia
            bs = self.fresh(f"(bvxor {b} (sgn{w} {a}))", w)
            u = self.fresh(f"({f} (abs{w} {a}) {bs})", w)
            body = f"(bvxor {u} (sgn{w} {a}))"
            if za and zb:
                body = f"(ite (and (zer{w} {a}) (zer{w} {b})) (bvand {a} {b}) {body})"
            self.define(n, body)
            r = f"n{n}"
            A(f"(assert (bvule (abs{w} {u}) {inf}))")
            nz = f"(not (= (abs{w} {u}) {zero}))"
            A(f"(assert (or (and (zer{w} {a}) (zer{w} {b})) {nz}))" if za and zb else f"(assert {nz})")
            if ia: A(f"(assert (=> (inf{w} {a}) (= {r} {a})))")
            if ib: A(f"(assert (=> (inf{w} {b}) (= {r} {b})))")
            if za: A(f"(assert (=> (and (zer{w} {a}) (not (zer{w} {b}))) (= {r} {b})))")
            if zb: A(f"(assert (=> (and (zer{w} {b}) (not (zer{w} {a}))) (= {r} {a})))")
            if fl["dom"] == 1: A(f"(assert (= (sgn{w} {r}) (sgn{w} {self.name[args[1]]})))")
            if fl["dom"] == 2: A(f"(assert (= (sgn{w} {r}) (sgn{w} {b2})))")
            return
        g = self.uf(f"addnan{w}", [w, w], w)
        bs = self.fresh(f"(bvxor {b} (sgn{w} {a}))", w)
        if "comm" in self.axioms:
            # order by magnitude, then normalise by the sign of the larger operand
            big = self.fresh(f"(ite (bvuge (abs{w} {a}) (abs{w} {b})) {a} {b})", w)
            sml = self.fresh(f"(ite (bvuge (abs{w} {a}) (abs{w} {b})) {b} {a})", w)
            # equal magnitudes and opposite signs sum to zero, handled below
            u = self.fresh(f"({f} (abs{w} {big}) (bvxor {sml} (sgn{w} {big})))", w)
            sg = f"(sgn{w} {big})"
        else:
            u = self.fresh(f"({f} (abs{w} {a}) {bs})", w)
            sg = f"(sgn{w} {a})"
        if fl is not None and not fl["nan"]:
            na, isn = a, "false"
        else:
            na = self.fresh(f"({g} {a} {b})", w)
            isn = f"(or (nan{w} {a}) (nan{w} {b}) (and (inf{w} {a}) (inf{w} {b}) (not (= {a} {b}))))"
        zz = f"(and (zer{w} {a}) (zer{w} {b}))"
        canc = f"(= {a} (flip{w} {b}))"
        # exact zero iff operands cancel
        body = (f"(ite {isn} {na} (ite {zz} (bvand {a} {b}) (ite {canc} {zero} (bvxor {u} {sg}))))")
        self.define(n, body)
        r = f"n{n}"
        A(f"(assert (nan{w} {na}))" if isn != "false" else f"(assert (not (nan{w} {r})))")
        ok = f"(and (not {isn}) (not {zz}) (not {canc}))"
        A(f"(assert (=> {ok} (and (not (nan{w} {u})) (not (zer{w} {u})))))")
        A(f"(assert (=> (and (not {isn}) (zer{w} {a}) (not (zer{w} {b}))) (= {r} {b})))")
        A(f"(assert (=> (and (not {isn}) (zer{w} {b}) (not (zer{w} {a}))) (= {r} {a})))")
        A(f"(assert (=> (and (not {isn}) (inf{w} {a})) (= {r} {a})))")
        A(f"(assert (=> (and (not {isn}) (inf{w} {b})) (= {r} {b})))")
        # sign of the larger operand
        A(f"(assert (=> (and {ok} (bvugt (abs{w} {a}) (abs{w} {b}))) (= (sgn{w} {r}) (sgn{w} {a}))))")
        A(f"(assert (=> (and {ok} (bvule (abs{w} {a}) (abs{w} {b}))) (= (sgn{w} {r}) (sgn{w} {b}))))")
        if "range" in self.axioms:
            same = f"(= (sgn{w} {a}) (sgn{w} {b}))"
            A(f"(assert (=> (and {ok} {same}) (and (bvuge (abs{w} {r}) (abs{w} {a})) (bvuge (abs{w} {r}) (abs{w} {b})))))")
            A(f"(assert (=> (and {ok} (not {same}) (bvuge (abs{w} {a}) (abs{w} {b}))) (bvule (abs{w} {r}) (abs{w} {a}))))")
            A(f"(assert (=> (and {ok} (not {same}) (bvuge (abs{w} {b}) (abs{w} {a}))) (bvule (abs{w} {r}) (abs{w} {b}))))")
            # |a+b| <= 2 max(|a|,|b|)
            step = self.k(1 << (s - 1), w)
            big = self.fresh(f"(ite (bvuge (abs{w} {a}) (abs{w} {b})) (abs{w} {a}) (abs{w} {b}))", w)
            A(f"(assert (=> (and {ok} (bvuge {big} {step}) (bvult {big} {self.k((((1<<e)-2) << (s-1)), w)})) (bvule (abs{w} {r}) (bvadd {big} {step}))))")
            A(f"(assert (=> (and {ok} (bvult {big} {step})) (bvule (abs{w} {r}) (bvadd {big} {big}))))")

    def pow2_helper(self, w):
        """exact |a| * 2^k for finite nonzero a: renormalise, add exponents, round once"""
        if ("pow2", w) in self.helpers:
            return
        self.helpers.add(("pow2", w))
        e, s = FMT[w]
        sig = s - 1
        bias = (1 << (e - 1)) - 1
        S = f"(_ BitVec {w})"
        K = lambda v: self.k(v, w)
        O = self.out.append
        cur, cnt = "m", K(0)
        # normalisation stages: bring the leading bit to position sig
        lets = []
        st = 1
        while st * 2 <= sig:
            st *= 2
        i = 0
        closing = 0
        body = ""
        mm, cc = "m", K(0)
        pre = ""
        while st >= 1:
            cond = f"(= ((_ extract {sig} {sig - st + 1}) {mm}) {self.k(0, st)})"
            pre += f"(let ((q{i} {cond})) (let ((m{i} (ite q{i} (bvshl {mm} {K(st)}) {mm})) (c{i} (ite q{i} (bvadd {cc} {K(st)}) {cc}))) "
            closing += 2
            mm, cc = f"m{i}", f"c{i}"
            i += 1
            st //= 2
        # residual shift by one more stage (sum of stages may fall short by the total width)
        cond = f"(= ((_ extract {sig} {sig}) {mm}) #b0)"
        pre += f"(let ((q{i} {cond})) (let ((m{i} (ite q{i} (bvshl {mm} {K(1)}) {mm})) (c{i} (ite q{i} (bvadd {cc} {K(1)}) {cc}))) "
        closing += 2
        mm, cc = f"m{i}", f"c{i}"
        O(f"(define-fun nrm_c{w} ((m {S})) {S} {pre}{cc}{')' * closing})")
        O(f"(define-fun nrm_m{w} ((m {S})) {S} {pre}{mm}{')' * closing})")
        rne = (f"(ite (bvsgt sh {K(sig + 1)}) {K(0)} (let ((t (bvlshr m sh)) (rem (bvand m (bvsub (bvshl {K(1)} sh) {K(1)}))) (half (bvshl {K(1)} (bvsub sh {K(1)}))))"
               f" (ite (or (bvugt rem half) (and (= rem half) (= ((_ extract 0 0) t) #b1))) (bvadd t {K(1)}) t)))")
        O(f"(define-fun rne{w} ((m {S}) (sh {S})) {S} {rne})")
        O(f"(define-fun p2mul{w} ((x {S}) (p {S})) {S} (let ((ex (bvlshr x {K(sig)})) (ep (bvlshr p {K(sig)})) (fr (bvand x {K((1 << sig) - 1)})))"
          f" (ite (and (= ex {K(0)}) (bvsle ep {K(bias)})) (ite (= ep {K(bias)}) x (rne{w} x (bvsub {K(bias)} ep)))"
          f" (let ((m (ite (= ex {K(0)}) (nrm_m{w} fr) (bvor fr {K(1 << sig)}))) (E (ite (= ex {K(0)}) (bvsub {K(1)} (nrm_c{w} fr)) ex)))"
          f" (let ((R (bvsub (bvadd E ep) {K(bias)})))"
          f" (ite (bvsge R {K(2 * bias + 1)}) {K(((1 << e) - 1) << sig)}"
          f" (ite (bvsge R {K(1)}) (bvor (bvshl R {K(sig)}) (bvand m {K((1 << sig) - 1)}))"
          f" (rne{w} m (bvsub {K(1)} R)))))))))")
        O(f"(define-fun isp2_{w} ((x {S})) Bool (and (= (bvand x {K((1 << sig) - 1)}) {K(0)}) (bvuge x {K(1 << sig)}) (bvult x {K(((1 << e) - 1) << sig)})))")
        O(f"(define-fun finz{w} ((x {S})) Bool (and (not (= x {K(0)})) (bvult x {K(((1 << e) - 1) << sig)})))")

    def pow2mul(self, gen, aa, ab, w):
        self.pow2_helper(w)
        return self.fresh(f"(ite (and (isp2_{w} {ab}) (finz{w} {aa})) (p2mul{w} {aa} {ab}) (ite (and (isp2_{w} {aa}) (finz{w} {ab})) (p2mul{w} {ab} {aa}) {gen}))", w)

    def expo(self, x, w):
        e, s = FMT[w]
        return f"((_ zero_extend 8) ((_ extract {w-2} {s-1}) {x}))", e + 8

    def mul_expo(self, u, aa, ab, isn, w):
        e, s = FMT[w]
        bias = (1 << (e - 1)) - 1
        ea, ew = self.expo(aa, w)
        eb, _ = self.expo(ab, w)
        eu, _ = self.expo(u, w)
        fin = f"(and (not {isn}) (bvult {aa} {self.k(((1<<e)-1) << (s-1), w)}) (bvult {ab} {self.k(((1<<e)-1) << (s-1), w)}) (bvuge {aa} {self.k(1 << (s-1), w)}) (bvuge {ab} {self.k(1 << (s-1), w)}))"
        sm = f"(bvsub (bvadd {ea} {eb}) {self.k(bias, ew)})"
        K = lambda v: self.k(v, ew)
        mx = (1 << e) - 1
        # result exponent is the sum or one more; clamp to [0, esat]
        self.ax.append(f"(assert (=> {fin} (and (=> (bvsge {sm} {K(1)}) (bvuge {eu} (ite (bvsge {sm} {K(mx)}) {K(mx)} {sm}))) "
                       f"(=> (bvslt {sm} {K(mx)}) (bvsle {eu} (ite (bvsle {sm} {K(0)}) {K(1)} (bvadd {sm} {K(1)})))) (=> (bvslt {sm} {K(0)}) (= {eu} {K(0)})))))")

    def div_expo(self, u, aa, ab, isn, w):
        e, s = FMT[w]
        bias = (1 << (e - 1)) - 1
        ea, ew = self.expo(aa, w)
        eb, _ = self.expo(ab, w)
        eu, _ = self.expo(u, w)
        fin = f"(and (not {isn}) (bvult {aa} {self.k(((1<<e)-1) << (s-1), w)}) (bvult {ab} {self.k(((1<<e)-1) << (s-1), w)}) (bvuge {aa} {self.k(1 << (s-1), w)}) (bvuge {ab} {self.k(1 << (s-1), w)}))"
        sm = f"(bvadd (bvsub {ea} {eb}) {self.k(bias, ew)})"
        K = lambda v: self.k(v, ew)
        mx = (1 << e) - 1
        # quotient exponent is the difference or one less (rounding can restore it)
        self.ax.append(f"(assert (=> {fin} (and (=> (bvsge {sm} {K(2)}) (bvuge {eu} (ite (bvsgt {sm} {K(mx)}) {K(mx)} (bvsub {sm} {K(1)})))) "
                       f"(=> (bvslt {sm} {K(mx)}) (bvsle {eu} (ite (bvsle {sm} {K(0)}) {K(1)} {sm}))) (=> (bvslt {sm} {K(0)}) (= {eu} {K(0)})))))")

    def cvtop(self, n, a, aw, w):
        e1, s1 = FMT[aw]
        e2, s2 = FMT[w]
        if self.cvt == "exact":
            self.define(n, f"(fp.to_ieee_bv ((_ to_fp {e2} {s2}) RNE ((_ to_fp {e1} {s1}) {a})))")
            return
        # sign-normalised uninterpreted conversion
        self.helper(aw)
        self.helper(w)
        f = self.uf(f"cvt{aw}_{w}", [aw], w)
        g = self.uf(f"cvtnan{aw}_{w}", [aw], w)
        u = self.fresh(f"({f} (abs{aw} {a}))", w)
        na = self.fresh(f"({g} {a})", w)
        inf2 = self.k(((1 << e2) - 1) << (s2 - 1), w)
        self.define(n, f"(ite (nan{aw} {a}) {na} (bvor {u} (ite (neg{aw} {a}) {self.k(1 << (w-1), w)} {self.k(0, w)})))")
        A = self.ax.append
        A(f"(assert (nan{w} {na}))")
        A(f"(assert (bvule {u} {inf2}))")
        A(f"(assert (=> (zer{aw} {a}) (= {u} {self.k(0, w)})))")
        A(f"(assert (=> (inf{aw} {a}) (= {u} {inf2})))")
        if w > aw:
            A(f"(assert (=> (not (or (zer{aw} {a}) (inf{aw} {a}))) (and (not (= {u} {self.k(0, w)})) (bvult {u} {inf2}))))")


def reach_ids(d, roots, extra=None):
    """topological order of the cone of roots; extra maps a node to one more child"""
    seen, order = set(), []
    st = [(r, False) for r in roots]
    while st:
        n, done = st.pop()
        if done:
            order.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        st.append((n, True))
        if extra and n in extra:
            st.append((extra[n], False))
            continue
        op, args = d.nodes[n]
        for a in Emit.children(op, args):
            if a not in seen:
                st.append((a, False))
    return order


def rebuild(d, roots, subst=None, const=None):
    """copy the cone of roots, replacing variables by definitions and decided branch conditions"""
    memo = {}
    for n in reach_ids(d, roots, subst):
        if subst and n in subst:
            memo[n] = memo[subst[n]]
            continue
        op, args = d.nodes[n]
        ch = Emit.children(op, args)
        k = len(args) - len(ch)
        if op == "ite" and const and args[0] in const:
            memo[n] = memo[args[1]] if const[args[0]] else memo[args[2]]
            continue
        memo[n] = simp(d, op, tuple(args[:k]) + tuple(memo[a] for a in ch), d.sort[n])
    return memo


def simp(d, op, args, sort):
    """local simplifications that keep the graph small"""
    N = d.nodes
    if op in ("zero_extend", "sign_extend") and N[args[1]][0] == "bv":
        v, w = N[args[1]][1]
        if op == "sign_extend" and v >> (w - 1):
            v += (1 << sort) - (1 << w)
        return d.mk("bv", (v, sort), sort)
    if op == "extract" and N[args[2]][0] == "bv":
        return d.mk("bv", (N[args[2]][1][0] >> args[1] & ((1 << sort) - 1), sort), sort)
    if op in ("bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr") and len(args) == 2 and N[args[0]][0] == N[args[1]][0] == "bv":
        a, b = N[args[0]][1][0], N[args[1]][1][0]
        M = (1 << sort) - 1
        r = {"bvadd": lambda: a + b, "bvsub": lambda: a - b, "bvmul": lambda: a * b, "bvand": lambda: a & b, "bvor": lambda: a | b,
             "bvxor": lambda: a ^ b, "bvshl": lambda: a << b if b < sort else 0, "bvlshr": lambda: a >> b if b < sort else 0}[op]() & M
        return d.mk("bv", (r, sort), sort)
    if op == "=" and len(args) == 2:
        if args[0] == args[1]:
            return d.mk("true", (), "Bool")
        a, b = N[args[0]], N[args[1]]
        if a[0] == "bv" and b[0] == "bv":
            return d.mk("true" if a == b else "false", (), "Bool")
        # (= (ite c k1 k2) k) for constants
        for x, y in ((a, b), (b, a)):
            if x[0] == "ite" and y[0] == "bv":
                t, e = N[x[1][1]], N[x[1][2]]
                if t[0] == "bv" and e[0] == "bv":
                    if t == y and e != y:
                        return x[1][0]
                    if e == y and t != y:
                        return simp(d, "not", (x[1][0],), "Bool")
                    if t != y and e != y:
                        return d.mk("false", (), "Bool")
    if op == "not":
        a = N[args[0]]
        if a[0] == "not":
            return a[1][0]
        if a[0] == "true":
            return d.mk("false", (), "Bool")
        if a[0] == "false":
            return d.mk("true", (), "Bool")
    if op in ("and", "or"):
        unit, zero = ("true", "false") if op == "and" else ("false", "true")
        out = []
        for x in args:
            o = N[x][0]
            if o == zero:
                return d.mk(zero, (), "Bool")
            if o == unit or x in out:
                continue
            out.append(x)
        if not out:
            return d.mk(unit, (), "Bool")
        if len(out) == 1:
            return out[0]
        return d.mk(op, tuple(out), "Bool")
    if op == "=>":
        a, b = N[args[0]][0], N[args[1]][0]
        if a == "false" or b == "true":
            return d.mk("true", (), "Bool")
        if a == "true":
            return args[1]
    if op == "ite":
        c = N[args[0]][0]
        if c == "true" or args[1] == args[2]:
            return args[1]
        if c == "false":
            return args[2]
    return d.mk(op, args, sort)


def inline_definitions(conv):
    """asserts of the form (= fresh-variable term) become substitutions"""
    d = conv.d
    *assume, goal = conv.asserts
    subst, rest = {}, []
    order = {}
    for a in assume:
        op, args = d.nodes[a]
        done = False
        if op == "=" and len(args) == 2:
            for v, t in ((args[0], args[1]), (args[1], args[0])):
                if d.nodes[v][0] == "var" and v not in subst and v != t:
                    # acyclic: v must not be reachable from t through the substitution so far
                    if v in set(reach_ids(d, [t], subst)):
                        continue
                    subst[v] = t
                    done = True
                    break
        if not done:
            rest.append(a)
    memo = rebuild(d, rest + [goal], subst)
    conv.asserts = [memo[a] for a in rest if d.nodes[memo[a]][0] != "true"] + [memo[goal]]
    for k, n in list(conv.env.items()):
        if n in memo:
            conv.env[k] = memo[n]


def prune(conv, per_check_ms=300, budget_s=20):
    """Replace branch conditions that the formula itself decides (its assumptions are part of the
    goal) by constants.  A condition is replaced only when the solver answers `unsat` for its other
    value; the condition itself is then kept as an assertion, so the result is equisatisfiable."""
    import time
    import z3
    inline_definitions(conv)
    d = conv.d
    t_end = time.time() + budget_s
    *assume, goal = conv.asserts
    assume = [a for a in assume if a != goal]
    # CBMC also states "some claim fails" a second time, as a disjunction; dropping it only weakens
    assume = [a for a in assume if d.nodes[a][0] != "or"]
    em = Emit(conv, axioms=("base",), cvt="uf")
    conds = []
    seen = set()
    for n in em.reach([goal]):
        op, args = d.nodes[n]
        if op == "ite" and args[0] not in seen:
            seen.add(args[0])
            conds.append(args[0])
    if not conds:
        return 0
    roots = assume + [goal] + conds
    lines = em.go(roots).rstrip("\n").split("\n")
    body = lines[:len(lines) - len(roots)]
    decl = "\n".join(body + [f"(declare-fun cond_{k} () Bool)\n(assert (= cond_{k} {em.name[c]}))" for k, c in enumerate(conds)]
                     + [f"(assert {em.name[a]})" for a in assume + [goal]])
    s = z3.Solver()
    s.set("timeout", per_check_ms)
    s.from_string(decl.replace("(set-logic ALL)", ""))
    const = {}
    for k, c in enumerate(conds):
        if time.time() > t_end:
            break
        v = z3.Bool(f"cond_{k}")
        if s.check(v) == z3.unsat:
            const[c] = False
        elif s.check(z3.Not(v)) == z3.unsat:
            const[c] = True
    if const:
        # nested conditions: state them bottom-up over already pruned terms
        facts, cur = [], {}
        memo = rebuild(d, [goal], None, const)
        for c, v in const.items():
            sub = {k: w for k, w in const.items() if k != c}
            m = rebuild(d, [c], None, sub)[c]
            facts.append(m if v else simp(d, "not", (m,), "Bool"))
        conv.asserts = assume + [f for f in dict.fromkeys(facts) if d.nodes[f][0] != "true"] + [memo[goal]]
    return len(const)


def find_args(conv, em, mangled, argnames):
    """emitted names of the harness arguments (None when the formula does not mention one)"""
    gets = []
    for a in argnames:
        best = None
        for nm, n in conv.env.items():
            m = re.match(r"\|?" + re.escape(mangled) + r"::1::(?:var_\d+::)?" + re.escape(a) + r"!0@1#(\d+)\|?$", nm)
            if m and n in em.name and (best is None or int(m.group(1)) > best[0]):
                best = (int(m.group(1)), em.name[n])
        gets.append(best[1] if best else None)
    return gets


def main():
    """ufsmt.py <cbmc.smt2> <out.smt2> <json options> -> prints a json summary"""
    import json
    o = json.loads(sys.argv[3])
    conv = convert(open(sys.argv[1]).read())
    if not conv.asserts:
        raise SystemExit("empty formula")
    ax = o.get("axioms", ["base"])
    pruned = prune(conv) if o.get("prune", True) else 0
    em = Emit(conv, axioms=ax, cvt="uf" if "cvtuf" in ax else "exact")
    txt = em.go()
    gets = find_args(conv, em, o["mangled"], o["args"])
    with open(sys.argv[2], "w") as f:
        f.write("(set-option :produce-models true)\n" + txt + "(check-sat)\n")
        f.write("".join(f"(get-value ({g}))\n" for g in gets if g))
    print(json.dumps({"gets": gets, "pruned": pruned, "fpops": em.apps}))


if __name__ == "__main__":
    main()
