"""Engine 3: interval case analysis of a verification condition.

Input: the verification condition of one contract (CBMC's SMT-LIB output for the goto program that
the Kani compiler produced from the current source), as the Dag of ufsmt.py.  The argument space is
covered by boxes of bit patterns; on each box the condition is evaluated abstractly (sets of integer
intervals; IEEE operations on interval end points with the same rounding, which is sound because
rounding is monotone).  A box is discharged when some conjunct of the negated goal is false on all
of it.  A box that is not discharged is either bisected or handed to z3 as a residual formula in
which the branch conditions that the box decides have been replaced by constants and float
operations are uninterpreted functions (ufsmt.Emit).
"""
import bisect, json, math, os, re, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ufsmt

INF = float("inf")
KMAX = 6


def f_of(bits, w):
    if w == 64:
        return struct.unpack("<d", struct.pack("<Q", bits))[0]
    return struct.unpack("<f", struct.pack("<I", bits))[0]


def bits_of(x, w):
    if w == 64:
        return struct.unpack("<Q", struct.pack("<d", x))[0]
    return struct.unpack("<I", struct.pack("<f", x))[0]


def rnd(x, w):
    if w == 64:
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


MINPOS = {64: 5e-324, 32: 1.401298464324817e-45}
INFB = {64: 0x7ff << 52, 32: 0xff << 23}


def norm(iv):
    """sort and merge a list of (lo,hi); keep at most KMAX pieces"""
    if len(iv) == 1:
        return (iv[0],)
    iv.sort()
    out = [iv[0]]
    for lo, hi in iv[1:]:
        if lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    while len(out) > KMAX:
        k = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
        out[k:k + 2] = [(out[k][0], out[k + 1][1])]
    return tuple(out)


def wrap(lo, hi, w, out):
    """add the integer interval [lo,hi] modulo 2^w to out"""
    M = 1 << w
    if hi - lo >= M - 1:
        out.append((0, M - 1))
        return
    lo2, hi2 = lo & (M - 1), hi & (M - 1)
    if lo2 <= hi2:
        out.append((lo2, hi2))
    else:
        out.append((lo2, M - 1))
        out.append((0, hi2))


def signed(iv, w):
    """unsigned interval set -> list of signed intervals"""
    H, M = 1 << (w - 1), 1 << w
    r = []
    for lo, hi in iv:
        if hi < H:
            r.append((lo, hi))
        elif lo >= H:
            r.append((lo - M, hi - M))
        else:
            r.append((lo, H - 1))
            r.append((-H, hi - M))
    return r


class Box:
    """abstract evaluation of Dag nodes over one box"""

    def __init__(self, P, env):
        self.P, self.d = P, P.d
        self.env = env            # var node -> (lo, hi)
        self.memo = {}
        self.fmemo = {}
        self.nan = env.get("nan")  # 0/1: computed NaNs are the positive/negative default NaN
        self.purenan = False
        self.fix = dict(env.get("fix", ()))   # case split: value assumed for an integer conversion
        self.amb = None                       # an integer conversion with two possible values
        self.empty = False

    def eval(self, root):
        memo, nodes = self.memo, self.d.nodes
        st = [root]
        while st:
            n = st[-1]
            if n in memo:
                st.pop()
                continue
            op, args = nodes[n]
            # lazy connectives
            if op == "ite":
                c = args[0]
                if c not in memo:
                    st.append(c)
                    continue
                cv = memo[c]
                if cv is None:
                    miss = [a for a in args[1:] if a not in memo]
                    if miss:
                        st.extend(miss)
                        continue
                    a, b = memo[args[1]], memo[args[2]]
                    if self.d.sort[n] == "Bool":
                        memo[n] = a if a == b else None
                    elif a is None or b is None:
                        memo[n] = None
                    else:
                        memo[n] = norm(list(a) + list(b))
                else:
                    t = args[1] if cv else args[2]
                    if t not in memo:
                        st.append(t)
                        continue
                    memo[n] = memo[t]
                st.pop()
                continue
            if op in ("and", "or", "=>"):
                ans, unk, push = None, False, None
                stop = op == "or"
                for i, a in enumerate(args):
                    if a not in memo:
                        push = a
                        break
                    v = memo[a]
                    if op == "=>" and i == 0 and v is not None:
                        v = not v
                    if op == "=>":
                        stop = True
                    if v is stop:
                        ans = stop
                        break
                    if v is None:
                        unk = True
                if push is not None:
                    st.append(push)
                    continue
                memo[n] = ans if ans is not None else (None if unk else (not stop))
                st.pop()
                continue
            ch = ufsmt.Emit.children(op, args)
            miss = [a for a in ch if a not in memo]
            if miss:
                st.extend(miss)
                continue
            v = self.step(n, op, args)
            if op in ("fp.to_sbv", "fp.to_ubv") and v is not None:
                k = self.fix.get(n)
                if k is not None:
                    if not any(l <= k <= h for l, h in v):
                        self.empty = True
                    v = ((k, k),)
                elif sum(h - l + 1 for l, h in v) == 2 and self.amb is None:
                    self.amb = (n, v[0][0], v[-1][1])
            memo[n] = v
            st.pop()
        return memo[root]

    # ---------------------------------------------------------------- one node
    def step(self, n, op, args):
        d, memo, sort = self.d, self.memo, self.d.sort
        w = sort[n]
        if op == "var":
            if n in self.env:
                return (self.env[n],)
            if w == "Bool" or not isinstance(w, int):
                return None
            return ((0, (1 << w) - 1),)
        if op == "bv":
            return ((args[0], args[0]),)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            v = memo[args[0]]
            return None if v is None else not v
        if op == "xor":
            a, b = memo[args[0]], memo[args[1]]
            return None if a is None or b is None else a != b
        if op in ("=", "distinct"):
            r = self.eq(args)
            return r if op == "=" or r is None else not r
        if op in ufsmt.BVREL:
            return self.rel(op, args)
        if op in ufsmt.FPREL:
            return self.frel(op, args)
        if op in ufsmt.FPUN:
            return self.fun(op, args[0])
        if op == "select":
            return self.select(n, args)
        if not isinstance(w, int):
            return None
        full = ((0, (1 << w) - 1),)
        if op in ("store", "constarr"):
            return None
        if op == "rintc":
            if memo[args[0]] is None:
                return full
            A = self.fval(args[0])
            f = lambda p: None if p is None else tuple(x if x >= 2.0 ** 52 else float(round(x)) for x in p)
            return self.ftobits(f(A[0]), f(A[1]), A[2], w)
        ch = ufsmt.Emit.children(op, args)
        vals = [memo[a] for a in ch]
        if any(v is None for v in vals):
            return full
        try:
            r = self.bvop(n, op, args, vals, w)
        except OverflowError:
            r = None
        return full if r is None else r

    def eq(self, args):
        if len(args) != 2:
            return None
        if args[0] == args[1]:
            return True
        a, b = self.memo[args[0]], self.memo[args[1]]
        if a is None or b is None:
            return None
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        if len(a) == 1 and len(b) == 1 and a[0][0] == a[0][1] == b[0][0] == b[0][1]:
            return True
        for lo, hi in a:
            for l2, h2 in b:
                if lo <= h2 and l2 <= hi:
                    return None
        return False

    def rel(self, op, args):
        if args[0] == args[1]:
            return op in ("bvule", "bvuge", "bvsle", "bvsge")
        a, b = self.memo[args[0]], self.memo[args[1]]
        w = self.d.sort[args[0]]
        if op[2] == "s":
            a, b = signed(a, w), signed(b, w)
        amin, amax = min(x[0] for x in a), max(x[1] for x in a)
        bmin, bmax = min(x[0] for x in b), max(x[1] for x in b)
        k = op[3:]
        if k in ("gt", "ge"):
            amin, amax, bmin, bmax = bmin, bmax, amin, amax
            k = {"gt": "lt", "ge": "le"}[k]
        if k == "lt":
            return True if amax < bmin else False if amin >= bmax else None
        return True if amax <= bmin else False if amin > bmax else None

    def select(self, n, args):
        w = self.d.sort[n]
        full = ((0, (1 << w) - 1),) if isinstance(w, int) else None
        arr, idx = args
        iv = self.memo[idx]
        if iv is None or full is None:
            return full
        out = []
        nodes = self.d.nodes
        # walk stores
        while True:
            op, a = nodes[arr]
            if op == "store":
                si = self.memo.get(a[1])
                sv = self.memo.get(a[2])
                if si is None:
                    si = self.eval(a[1])
                if sv is None:
                    sv = self.eval(a[2])
                if si is None or sv is None:
                    return full
                hit = any(lo <= h2 and l2 <= hi for lo, hi in iv for l2, h2 in si)
                if hit:
                    out.extend(sv)
                    if len(iv) == 1 and len(si) == 1 and iv[0] == si[0] and iv[0][0] == iv[0][1]:
                        return norm(out)
                arr = a[0]
                continue
            if op == "ite":
                return full
            if op == "constarr":
                out.extend(self.eval(a[1]))
                return norm(out)
            tab = self.P.tables.get(arr)
            if tab is None:
                return full
            for lo, hi in iv:
                i0 = bisect.bisect_left(tab[0], lo)
                i1 = bisect.bisect_right(tab[0], hi)
                if i1 - i0 != hi - lo + 1:
                    return full         # an index without a known element
                for k in range(i0, i1):
                    v = self.memo.get(tab[1][k])
                    if v is None:
                        v = self.eval(tab[1][k])
                    if v is None:
                        return full
                    out.extend(v)
            return norm(out)

    # ---------------------------------------------------------------- bit vectors
    def bvop(self, n, op, args, vals, w):
        M = 1 << w
        if op == "extract":
            hi, lo, a = args
            out = []
            m = hi - lo + 1
            for l, h in vals[0]:
                wrap(l >> lo, h >> lo, m, out)
            return norm(out)
        if op == "zero_extend":
            return vals[0]
        if op == "sign_extend":
            out = []
            for l, h in signed(vals[0], self.d.sort[args[1]]):
                wrap(l, h, w, out)
            return norm(out)
        if op == "concat":
            cur = vals[0]
            for a, v in zip(args[1:], vals[1:]):
                k = self.d.sort[a]
                out = []
                for l, h in cur:
                    if l == h or (len(v) == 1 and v[0] == (0, (1 << k) - 1)):
                        for l2, h2 in v:
                            out.append(((l << k) | l2, (h << k) | h2))
                    elif h - l <= 3:
                        for t in range(l, h + 1):
                            for l2, h2 in v:
                                out.append(((t << k) | l2, (t << k) | h2))
                    else:
                        out.append(((l << k) | v[0][0], (h << k) | v[-1][1]))
                cur = norm(out)
            return cur
        if op == "bvadd":
            cur = vals[0]
            for v in vals[1:]:
                out = []
                for l, h in cur:
                    for l2, h2 in v:
                        wrap(l + l2, h + h2, w, out)
                cur = norm(out)
            return cur
        if op == "bvsub":
            if args[0] == args[1]:
                return ((0, 0),)
            out = []
            for l, h in vals[0]:
                for l2, h2 in vals[1]:
                    wrap(l - h2, h - l2, w, out)
            return norm(out)
        if op == "bvneg":
            out = []
            for l, h in vals[0]:
                wrap(-h, -l, w, out)
            return norm(out)
        if op == "bvnot":
            return norm([(M - 1 - h, M - 1 - l) for l, h in vals[0]])
        if op == "bvmul":
            cur = vals[0]
            for v in vals[1:]:
                out = []
                sa, sb = signed(cur, w), signed(v, w)
                for l, h in sa:
                    for l2, h2 in sb:
                        c = (l * l2, l * h2, h * l2, h * h2)
                        wrap(min(c), max(c), w, out)
                cur = norm(out)
            return cur
        if op in ("bvudiv", "bvurem"):
            if len(vals[1]) != 1:
                return None
            l2, h2 = vals[1][0]
            if l2 == 0:
                return None
            out = []
            for l, h in vals[0]:
                if op == "bvudiv":
                    out.append((l // h2, h // l2))
                elif h < l2:
                    out.append((l, h))
                elif l2 == h2 and l // l2 == h // l2:
                    out.append((l % l2, h % l2))
                elif l2 == h2 and l // l2 + 1 == h // l2:
                    out += [(l % l2, l2 - 1), (0, h % l2)]
                else:
                    out.append((0, min(h, h2 - 1)))
            return norm(out)
        if op in ("bvsdiv", "bvsrem"):
            if len(vals[1]) != 1 or vals[1][0][0] != vals[1][0][1]:
                return None
            c = vals[1][0][0]
            if c >= M >> 1:
                c -= M
            if c == 0:
                return None
            out = []
            tq = lambda a: (abs(a) // abs(c)) * (1 if (a < 0) == (c < 0) else -1)
            for l, h in signed(vals[0], w):
                if op == "bvsdiv":
                    a, b = tq(l), tq(h)
                    wrap(min(a, b), max(a, b), w, out)
                else:
                    m = abs(c) - 1
                    wrap(max(-m, min(l, 0)), min(m, max(h, 0)), w, out)
            return norm(out)
        if op in ("bvshl", "bvlshr", "bvashr"):
            sh = []
            for l, h in vals[1]:
                if h - l > 70:
                    h = l + 70 if l > w else h
                if h - l > 140:
                    # result is bounded anyway
                    if op == "bvlshr":
                        return norm([(0, max(x[1] for x in vals[0]) >> l)])
                    return None
                sh += range(l, h + 1)
            out = []
            for s in sh:
                if s >= w:
                    if op == "bvashr":
                        for l, h in signed(vals[0], w):
                            wrap(-1 if l < 0 else 0, -1 if h < 0 else 0, w, out)
                    else:
                        out.append((0, 0))
                    continue
                if op == "bvshl":
                    for l, h in vals[0]:
                        wrap(l << s, h << s, w, out)
                elif op == "bvlshr":
                    for l, h in vals[0]:
                        out.append((l >> s, h >> s))
                else:
                    for l, h in signed(vals[0], w):
                        wrap(l >> s, h >> s, w, out)
            return norm(out)
        if op in ("bvand", "bvor", "bvxor"):
            cur, ca = vals[0], args[0]
            for a, v in zip(args[1:], vals[1:]):
                if op == "bvxor" and a == ca:
                    cur = ((0, 0),)
                else:
                    cur = self.bitop(op, cur, v, w, (self.lowz(ca) if ca is not None else 0, self.lowz(a)))
                ca = None
            return cur
        if op == "bvcomp":
            r = self.eq(args)
            return ((0, 1),) if r is None else ((int(r), int(r)),)
        if op in ("fp.neg", "fp.abs"):
            S = M >> 1
            if op == "fp.abs":
                return self.bitop("bvand", vals[0], ((S - 1, S - 1),), w)
            return self.bitop("bvxor", vals[0], ((S, S),), w)
        if op in ("fp.add", "fp.sub", "fp.mul", "fp.div") and w in (32, 64) and args[0] in ("roundNearestTiesToEven", "RNE"):
            return self.farith(op, args[1], args[2], w)
        if op == "fp.sqrt" and w in (32, 64):
            return self.fsqrt(args[1], w)
        if op == "fcvt":
            return self.fcvt(args[2], self.d.sort[args[2]], w)
        if op in ("s2f", "u2f") and w in (32, 64):
            src = vals[0]
            iv = signed(src, self.d.sort[args[2]]) if op == "s2f" else src
            neg = [(l, h) for l, h in iv if h < 0]
            pos = [(l, h) for l, h in iv if l >= 0]
            out = []

            def c(i, up):
                f = float(i)
                r = rnd(f, w)
                if w == 32 and abs(i) > 1 << 53:
                    return None
                return r
            for l, h in iv:
                if w == 32 and max(abs(l), abs(h)) > 1 << 53:
                    return None
                if h < 0:
                    out.append((bits_of(rnd(float(h), w), w), bits_of(rnd(float(l), w), w)))
                elif l >= 0:
                    out.append((bits_of(rnd(float(l), w), w), bits_of(rnd(float(h), w), w)))
                else:
                    out.append((0, bits_of(rnd(float(h), w), w)))
                    out.append((bits_of(-1.0, w), bits_of(rnd(float(l), w), w)))
            return norm(out)
        if op in ("fp.to_sbv", "fp.to_ubv"):
            return self.ftoi(op, args[0], args[2], args[1])
        if op == "fp.roundToIntegral":
            return None
        return None

    def lowz(self, n):
        """number of low bits of node n known to be zero from its form"""
        op, a = self.d.nodes[n]
        if op == "bvshl" and self.d.nodes[a[1]][0] == "bv":
            return min(self.d.nodes[a[1]][1][0], 200) + self.lowz(a[0])
        if op == "bvand":
            return max(self.lowz(x) for x in a)
        if op in ("bvor", "bvadd"):
            return min(self.lowz(x) for x in a)
        if op in ("zero_extend", "sign_extend"):
            return self.lowz(a[-1])
        if op == "bv":
            return (a[0] & -a[0]).bit_length() - 1 if a[0] else 200
        return 0

    def bitop(self, op, A, B, w, zs=(0, 0)):
        M = 1 << w
        out = []
        for l, h in A:
            for l2, h2 in B:
                if l == h and l2 == h2:
                    v = l & l2 if op == "bvand" else l | l2 if op == "bvor" else l ^ l2
                    out.append((v, v))
                    continue
                if op != "bvand" and (h < (1 << zs[1]) or h2 < (1 << zs[0])):
                    out.append((l + l2, h + h2))
                    continue
                if l == h:
                    l, h, l2, h2 = l2, h2, l, h
                if l2 == h2:
                    self.bitconst(op, l, h, l2, w, out)
                    continue
                if op == "bvand":
                    out.append((0, min(h, h2)))
                elif op == "bvor":
                    b = max(h.bit_length(), h2.bit_length())
                    # disjoint: low part below the alignment of the other
                    z2 = self.tz(l2, h2)
                    z1 = self.tz(l, h)
                    if h < (1 << z2) or h2 < (1 << z1):
                        out.append((l + l2, h + h2))
                    else:
                        out.append((max(l, l2), (1 << b) - 1))
                else:
                    b = max(h.bit_length(), h2.bit_length())
                    z2 = self.tz(l2, h2)
                    z1 = self.tz(l, h)
                    if h < (1 << z2) or h2 < (1 << z1):
                        out.append((l + l2, h + h2))
                    else:
                        out.append((0, (1 << b) - 1))
        return norm(out)

    @staticmethod
    def tz(l, h):
        """trailing zeros known for every member of [l,h] (only exact for singletons)"""
        if l == h:
            return (l & -l).bit_length() - 1 if l else 200
        return 0

    def bitconst(self, op, l, h, c, w, out):
        M = 1 << w
        if op == "bvor":
            # x | c = ~(~x & ~c)
            o2 = []
            self.bitconst("bvand", M - 1 - h, M - 1 - l, M - 1 - c, w, o2)
            out.extend((M - 1 - b, M - 1 - a) for a, b in o2)
            return
        if op == "bvxor":
            if c == M >> 1:
                wrap(l + c, h + c, w, out)
                return
            if c == M - 1:
                out.append((M - 1 - h, M - 1 - l))
                return
            k = max((l ^ h).bit_length(), 0)
            pre = l >> k << k
            if c < (1 << k) and k:
                out.append((pre, pre | ((1 << k) - 1)))
            else:
                base = (pre ^ c) >> k << k
                out.append((base, base | ((1 << k) - 1)))
            return
        # and with constant: split the constant into contiguous runs of ones
        if c == 0:
            out.append((0, 0))
            return
        k = (l ^ h).bit_length()       # bits below k vary
        if k == 0:
            out.append((l & c, l & c))
            return
        top = c.bit_length()
        lowz = (c & -c).bit_length() - 1
        if c == (1 << top) - (1 << lowz):
            # contiguous mask
            t = []
            wrap(l, h, top, t)
            out.extend((a >> lowz << lowz, b >> lowz << lowz) for a, b in t)
            return
        # sign bit plus a contiguous remainder, or general: keep the common prefix exactly
        pre = l >> k << k
        lowc = c & ((1 << k) - 1)
        if lowc == 0:
            out.append((pre & c, pre & c))
            return
        lt = lowc.bit_length()
        lz = (lowc & -lowc).bit_length() - 1
        if lowc == (1 << lt) - (1 << lz):
            t = []
            wrap(l & ((1 << k) - 1), h & ((1 << k) - 1), lt, t)
            out.extend(((pre & c) | (a >> lz << lz), (pre & c) | (b >> lz << lz)) for a, b in t)
            return
        out.append((pre & c, (pre & c) | lowc))

    # ---------------------------------------------------------------- floats
    def fval(self, n):
        """-> (neg magnitude interval or None, pos magnitude interval or None, may be NaN)"""
        v = self.fmemo.get(n)
        if v is not None:
            return v
        w = self.d.sort[n]
        iv = self.memo[n]
        I, S = INFB[w], 1 << (w - 1)
        nl = nh = pl = ph = None
        nan = False
        for l, h in iv:
            # positive part
            a, b = l, min(h, I)
            if a <= b:
                pl = a if pl is None else min(pl, a)
                ph = b if ph is None else max(ph, b)
            if h > I and l < S and max(l, I + 1) <= min(h, S - 1):
                nan = True
            a, b = max(l, S), min(h, S + I)
            if a <= b:
                nl = a - S if nl is None else min(nl, a - S)
                nh = b - S if nh is None else max(nh, b - S)
            if h > S + I:
                nan = True
        v = ((f_of(nl, w), f_of(nh, w)) if nl is not None else None,
             (f_of(pl, w), f_of(ph, w)) if pl is not None else None, nan)
        self.fmemo[n] = v
        return v

    def ftobits(self, neg, pos, nan, w):
        S, I = 1 << (w - 1), INFB[w]
        out = []
        if pos is not None:
            out.append((bits_of(pos[0], w), bits_of(pos[1], w)))
        if neg is not None:
            out.append((S + bits_of(neg[0], w), S + bits_of(neg[1], w)))
        if nan:
            if pos is None and neg is None:
                self.purenan = True
            if self.nan is None:
                out.append((I + 1, S - 1))
                out.append((S + I + 1, 2 * S - 1))
            else:
                q = I | (1 << ((52 if w == 64 else 23) - 1)) | (S if self.nan else 0)
                out.append((q, q))
        if not out:
            # contradictory box (no value possible): any value will do
            out.append((0, 0))
        return norm(out)

    def redux(self, x, s, w):
        """x - ((x + C) - C) with C = 1.5 * 2^k above |x|: at most half an ulp of C -> bound or None"""
        N = self.d.nodes
        op, a = N[s]
        if op != "fp.sub" or len(a) != 3 or N[a[2]][0] != "bv":
            return None
        C = f_of(N[a[2]][1][0], w)
        op2, a2 = N[a[1]]
        if op2 != "fp.add" or C <= 0 or C == INF:
            return None
        if not ((a2[1] == x and a2[2] == a[2]) or (a2[2] == x and a2[1] == a[2])):
            return None
        m, e = math.frexp(C)
        if m != 0.75:
            return None
        X = self.fval(x)
        if X[2] or any(t is not None and t[1] >= 2.0 ** (e - 2) for t in X[:2]):
            return None
        return 2.0 ** (e - 1 - (52 if w == 64 else 23) - 1)

    def farith(self, op, a, b, w):
        if op == "fp.sub":
            z = self.redux(a, b, w)
            if z is not None:
                return self.ftobits((0.0, z), (0.0, z), False, w)
        A, B = self.fval(a), self.fval(b)
        nan = A[2] or B[2]
        if op in ("fp.mul", "fp.div"):
            neg = pos = None
            same = a == b
            for i in (0, 1):
                for j in (0, 1):
                    x, y = A[i], B[j]
                    if x is None or y is None or (same and i != j):
                        continue
                    if op == "fp.mul":
                        if (x[0] == 0 and y[1] == INF) or (x[1] == INF and y[0] == 0):
                            if not same:
                                nan = True
                        lo, hi = x[0] * y[0], x[1] * y[1]
                        if lo != lo:
                            lo = 0.0
                        if hi != hi:
                            hi = 0.0
                    else:
                        if same:
                            if x[0] == 0 or x[1] == INF:
                                nan = True
                            lo = hi = 1.0
                        else:
                            if (x[0] == 0 and y[0] == 0) or (x[1] == INF and y[1] == INF):
                                nan = True
                            if x[0] == INF and y[1] == INF:
                                lo = 0.0
                            else:
                                lo = 0.0 if y[1] == INF else (x[0] / y[1] if y[1] != 0 else (INF if x[0] > 0 else 0.0))
                            hi = (0.0 if y[0] == INF else x[1] / y[0]) if y[0] != 0 else (INF if x[1] > 0 else 0.0)
                            if x[1] == INF:
                                hi = INF
                            if hi < lo:
                                hi = lo
                    lo, hi = rnd(lo, w), rnd(hi, w)
                    if i == j:
                        pos = (lo, hi) if pos is None else (min(lo, pos[0]), max(hi, pos[1]))
                    else:
                        neg = (lo, hi) if neg is None else (min(lo, neg[0]), max(hi, neg[1]))
            return self.ftobits(neg, pos, nan, w)
        if op == "fp.sub":
            if a == b:
                n2 = nan or (A[1] is not None and A[1][1] == INF) or (A[0] is not None and A[0][1] == INF)
                return self.ftobits(None, (0.0, 0.0), n2, w)
            B = (B[1], B[0], B[2])
        neg = pos = None

        def addp(s, lo, hi):
            nonlocal neg, pos
            lo, hi = rnd(lo, w), rnd(hi, w)
            if s:
                pos = (lo, hi) if pos is None else (min(lo, pos[0]), max(hi, pos[1]))
            else:
                neg = (lo, hi) if neg is None else (min(lo, neg[0]), max(hi, neg[1]))
        for s in (0, 1):
            if A[s] is not None and B[s] is not None:
                addp(s, A[s][0] + B[s][0], A[s][1] + B[s][1])
        for p, q in ((A[1], B[0]), (B[1], A[0])):
            if p is None or q is None:
                continue
            if p[1] == INF and q[1] == INF:
                nan = True
            lo = p[0] - q[1]
            hi = p[1] - q[0]
            if lo != lo:
                lo = INF
            if hi != hi:
                hi = -INF
            if lo > hi:
                if p[0] == INF and q[0] == INF:
                    continue
                lo, hi = min(lo, hi), max(lo, hi)
            lo, hi = rnd(lo, w), rnd(hi, w)
            if lo < 0:
                addp(0, max(-hi, MINPOS[w]) if hi < 0 else MINPOS[w], -lo)
            if hi >= 0:
                addp(1, max(lo, 0.0), hi)
        return self.ftobits(neg, pos, nan, w)

    def fsqrt(self, a, w):
        A = self.fval(a)
        nan = A[2] or (A[0] is not None and A[0][1] > 0)
        neg = (0.0, 0.0) if A[0] is not None and A[0][0] == 0 else None
        pos = None
        if A[1] is not None:
            # one rounding of the exact root: double sqrt, then (for f32) innocuous second rounding
            pos = (rnd(math.sqrt(A[1][0]), w), rnd(math.sqrt(A[1][1]), w))
        return self.ftobits(neg, pos, nan, w)

    def fcvt(self, a, aw, w):
        if aw not in (32, 64) or w not in (32, 64):
            return None
        A = self.fval(a)
        f = lambda p: None if p is None else (rnd(p[0], w), rnd(p[1], w))
        return self.ftobits(f(A[0]), f(A[1]), A[2], w)

    def ftoi(self, op, rm, a, w):
        if self.d.sort[a] not in (32, 64) or rm not in ("roundTowardZero", "RTZ"):
            return None
        A = self.fval(a)
        if A[2]:
            return None
        out = []
        lim = (1 << (w - 1)) if op == "fp.to_sbv" else (1 << w)
        if A[1] is not None:
            if A[1][1] >= lim:
                return None
            out.append((int(A[1][0]), int(A[1][1])))
        if A[0] is not None:
            if A[0][1] >= (lim + 1 if op == "fp.to_sbv" else 1):
                return None
            wrap(-int(A[0][1]), -int(A[0][0]), w, out)
        return norm(out) if out else None

    def real(self, n):
        """(min, max, nan) of a float node as extended reals; None when NaN only"""
        A = self.fval(n)
        lo = -A[0][1] if A[0] is not None else (A[1][0] if A[1] is not None else None)
        hi = A[1][1] if A[1] is not None else (-A[0][0] if A[0] is not None else None)
        return lo, hi, A[2]

    def frel(self, op, args):
        w = self.d.sort[args[0]]
        if w not in (32, 64) or self.memo[args[0]] is None or self.memo[args[1]] is None:
            return None
        a, b = args
        if op in ("fp.gt", "fp.geq"):
            a, b = b, a
        k = {"fp.lt": "lt", "fp.gt": "lt", "fp.leq": "le", "fp.geq": "le", "fp.eq": "eq"}[op]
        al, ah, an = self.real(a)
        bl, bh, bn = self.real(b)
        if al is None or bl is None:
            return False
        nan = an or bn
        if a == b:
            if k == "lt":
                return False
            return None if nan else True
        if k == "lt":
            if al >= bh:
                return False
            return True if ah < bl and not nan else None
        if k == "le":
            if al > bh:
                return False
            return True if ah <= bl and not nan else None
        if ah < bl or bh < al:
            return False
        return True if not nan and al == ah == bl == bh else None

    def fun(self, op, a):
        w = self.d.sort[a]
        if self.memo[a] is None or w not in (16, 32, 64, 128):
            return None
        if w in (16, 128):
            return None
        A = self.fval(a)
        can = {"fp.isNaN": A[2]}
        hasn = A[0] is not None or A[1] is not None
        if op == "fp.isNaN":
            return False if not A[2] else (None if hasn else True)
        mags = [p for p in (A[0], A[1]) if p is not None]
        if op == "fp.isInfinite":
            if not any(p[1] == INF for p in mags):
                return False
            return True if not A[2] and all(p[0] == INF for p in mags) else None
        if op == "fp.isZero":
            if not any(p[0] == 0 for p in mags):
                return False
            return True if not A[2] and all(p[1] == 0 for p in mags) else None
        if op == "fp.isNegative":
            return False if A[0] is None else (True if A[1] is None and not A[2] else None)
        if op == "fp.isPositive":
            return False if A[1] is None else (True if A[0] is None and not A[2] else None)
        mn = {64: 2.2250738585072014e-308, 32: 1.1754943508222875e-38}[w]
        if op == "fp.isNormal":
            if not any(p[1] >= mn and p[0] < INF for p in mags):
                return False
            return True if not A[2] and all(p[0] >= mn and p[1] < INF for p in mags) else None
        if op == "fp.isSubnormal":
            if not any(p[0] < mn and p[1] > 0 for p in mags):
                return False
            return True if not A[2] and all(p[0] > 0 and p[1] < mn for p in mags) else None
        return None


class Problem:
    def __init__(self, conv, mangled, argnames):
        ufsmt.inline_definitions(conv)
        self.conv, self.d = conv, conv.d
        d = self.d
        self.marks()
        self.tables = {}
        tmp = {}
        rest = []
        for a in conv.asserts:
            op, args = d.nodes[a]
            if op == "=" and len(args) == 2:
                for s, v in (args, args[::-1]):
                    so, sa = d.nodes[s]
                    if so == "select" and d.nodes[sa[0]][0] == "var" and d.nodes[sa[1]][0] == "bv":
                        tmp.setdefault(sa[0], {})[d.nodes[sa[1]][1][0]] = v
                        break
                else:
                    rest.append(a)
                continue
            if op == "true":
                continue
            # CBMC's pointer bookkeeping: dropping an assertion only weakens the hypotheses
            if op == "=>" and self.objsize(args[1]):
                continue
            if self.objsize(a):
                continue
            rest.append(a)
        for k, t in tmp.items():
            ks = sorted(t)
            self.tables[k] = (ks, [t[i] for i in ks])
        self.tabfacts = tmp
        self.asserts = rest
        # free variables
        self.vars = []
        seen = set()
        reach = ufsmt.reach_ids(d, self.asserts)
        argpat = re.compile(r"\|?" + re.escape(mangled) + r"::1::(?:var_\d+::)?(\w+)!0@1#\d+\|?$")
        self.args = []
        for an in argnames:
            node = None
            for nm, n in conv.env.items():
                m = argpat.match(nm)
                if m and m.group(1) == an:
                    node = n
            self.args.append(node)
        self.argvars = []
        for n in self.args:
            if n is None:
                continue
            for k in ufsmt.reach_ids(d, [n]):
                if d.nodes[k][0] == "var" and isinstance(d.sort[k], int) and k not in self.argvars:
                    self.argvars.append(k)

    def objsize(self, n):
        op, a = self.d.nodes[n]
        return op == "=" and any(self.d.nodes[x][0] == "var" and "object_size" in self.d.nodes[x][1][0] for x in a)

    def marks(self):
        """stubs mark an abstracted call by multiplying with a fresh variable named vh_mark_<op>"""
        d, c = self.d, self.conv
        mk = {}
        for nm, n in c.env.items():
            m = re.search(r"::vh_mark_(\w+?)!", nm)
            if m and d.nodes[n][0] == "var":
                mk[n] = m.group(1)
        if not mk:
            return
        memo = {}
        for n in ufsmt.reach_ids(d, c.asserts):
            op, args = d.nodes[n]
            if op == "fp.mul" and (args[1] in mk or args[2] in mk):
                v, x = (args[1], args[2]) if args[1] in mk else (args[2], args[1])
                if mk[v] == "sqrt":
                    memo[n] = d.mk("fp.sqrt", (args[0], memo[x]), d.sort[n])
                    continue
            ch = ufsmt.Emit.children(op, args)
            k = len(args) - len(ch)
            memo[n] = d.mk(op, tuple(args[:k]) + tuple(memo[a] for a in ch), d.sort[n])
        c.asserts = [memo[a] for a in c.asserts]
        for k, n in list(c.env.items()):
            if n in memo:
                c.env[k] = memo[n]

    def thresholds(self, var):
        """constants that the program compares (a monotone slice of) var with"""
        d = self.d
        w = d.sort[var]
        ts = {0, 1 << (w - 1)}
        H = (1 << (w - 1)) - 1
        sl = {}       # node -> (shift, offset): the node is a slice of |var| plus a constant

        def slice_of(n):
            if n in sl:
                return sl[n]
            sl[n] = None
            op, a = d.nodes[n]
            r = None
            if n == var:
                r = (0, 0)
            elif op == "extract":
                s = slice_of(a[2])
                if s is not None and (s[1] == 0 or s[0] == 0 and s[1] % (1 << a[1]) == 0):
                    r = (s[0] + a[1], s[1] >> a[1])
            elif op == "bvlshr" and d.nodes[a[1]][0] == "bv":
                s = slice_of(a[0])
                if s is not None and (s[1] == 0 or s[0] == 0 and s[1] % (1 << d.nodes[a[1]][1][0]) == 0):
                    r = (s[0] + d.nodes[a[1]][1][0], s[1] >> d.nodes[a[1]][1][0])
            elif op in ("zero_extend", "sign_extend"):
                r = slice_of(a[1])
            elif op == "bvand":
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if d.nodes[y][0] == "bv" and slice_of(x) is not None:
                        r = slice_of(x)
            elif op in ("fp.abs", "fp.neg"):
                r = slice_of(a[0])
            elif op == "fp.add" and len(a) == 3 and a[1] == a[2] and slice_of(a[1]) == (0, 0):
                r = (0, 1 << {32: 23, 64: 52}.get(w, 0))          # doubling moves the exponent field
            elif op == "fp.mul" and {32: 0x40000000, 64: 0x4000000000000000}.get(w) in [d.nodes[z][1][0] for z in a[1:] if d.nodes[z][0] == "bv"] \
                    and (0, 0) in [slice_of(z) for z in a[1:]]:
                r = (0, 1 << {32: 23, 64: 52}.get(w, 0))
            elif op in ("bvadd", "bvsub") and len(a) == 2:
                M = 1 << d.sort[n]
                if d.nodes[a[1]][0] == "bv" and slice_of(a[0]) is not None:
                    s, o = slice_of(a[0])
                    c = d.nodes[a[1]][1][0]
                    r = (s, (o + c if op == "bvadd" else o - c) % M)
                elif op == "bvadd" and d.nodes[a[0]][0] == "bv" and slice_of(a[1]) is not None:
                    s, o = slice_of(a[1])
                    r = (s, (o + d.nodes[a[0]][1][0]) % M)
            sl[n] = r
            return r
        for n in ufsmt.reach_ids(d, self.asserts):
            slice_of(n)
        for n in ufsmt.reach_ids(d, self.asserts):
            op, a = d.nodes[n]
            if op in ufsmt.BVREL or op in ("=",) and len(a) == 2 or op in ufsmt.FPREL:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if d.nodes[y][0] != "bv":
                        continue
                    s = slice_of(x)
                    if s is None:
                        continue
                    s, off = s
                    M = 1 << d.sort[x]
                    cs = [(d.nodes[y][1][0] - off) % M]
                    if off:
                        cs.append(-off % M)
                    for c in cs:
                        v = (c << s) & H
                        if s + c.bit_length() > w:
                            continue
                        for t in (v, v + (1 << s)):
                            if 0 < t <= H:
                                ts.add(t)
                                ts.add(t | (1 << (w - 1)))
                        if op in ufsmt.FPREL or s == 0:
                            for t in (v, v + 1):
                                if t <= H:
                                    ts.add(t)
                                    ts.add(t | (1 << (w - 1)))
        # masked equality (x >> s) & m = c with a low mask: cut around the few points of each short gap
        masked = set()
        for n in ufsmt.reach_ids(d, self.asserts):
            op, a = d.nodes[n]
            if op == "=" and len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if d.nodes[y][0] == "bv" and d.nodes[x][0] == "bvand":
                        for p, q in (d.nodes[x][1], d.nodes[x][1][::-1]):
                            if d.nodes[q][0] == "bv" and slice_of(p) is not None:
                                m = d.nodes[q][1][0]
                                if m and m & (m + 1) == 0 and d.nodes[y][1][0] <= m:
                                    masked.add((slice_of(p)[0], m, d.nodes[y][1][0]))
        for s, m, c in sorted(masked):
            step = (m + 1) << s
            if step >= 1 << (w - 1) or step < 1 << (w // 2):
                continue
            edges = sorted(t for t in ts if t <= H) + [H + 1]
            for lo, hi in zip(edges, edges[1:]):
                if (hi - lo) // step > 4:
                    continue
                v = (lo & ~(step - 1)) | (c << s)
                while v < hi:
                    for t in (v, v + (1 << s)):
                        if lo < t < hi:
                            ts.add(t)
                            ts.add(t | (1 << (w - 1)))
                    v += step
        if w in (32, 64):
            I = INFB[w]
            for t in (1, I, I + 1):
                ts.add(t)
                ts.add(t | (1 << (w - 1)))
        return sorted(ts)


def residual(P, box):
    """asserts with the branch conditions the box decides replaced by constants"""
    d = P.d
    memo = {}
    P.zbox, P.zmemo = box, {}
    T, F = d.mk("true", (), "Bool"), d.mk("false", (), "Bool")
    out = []
    for root in P.asserts:
        st = [root]
        while st:
            n = st[-1]
            if n in memo:
                st.pop()
                continue
            v = box.memo.get(n, 0)
            if d.sort[n] == "Bool" and (v is True or v is False):
                memo[n] = T if v else F
                st.pop()
                continue
            if isinstance(v, tuple) and len(v) == 1 and v[0][0] == v[0][1] and isinstance(d.sort[n], int):
                memo[n] = d.mk("bv", (v[0][0], d.sort[n]), d.sort[n])
                st.pop()
                continue
            op, args = d.nodes[n]
            if op == "ite":
                cv = box.memo.get(args[0], None)
                if cv is True or cv is False:
                    t = args[1] if cv else args[2]
                    if t not in memo:
                        st.append(t)
                        continue
                    memo[n] = memo[t]
                    st.pop()
                    continue
            ch = ufsmt.Emit.children(op, args)
            miss = [a for a in ch if a not in memo]
            if miss:
                st.extend(miss)
                continue
            k = len(args) - len(ch)
            memo[n] = special(P, box, op, tuple(args[:k]) + tuple(memo[a] for a in ch), d.sort[n], args, n)
            st.pop()
        if d.nodes[memo[root]][0] != "true":
            out.append(memo[root])
    return tuple(sorted(set(out)))


def strip(d, n):
    while d.nodes[n][0] in ("fp.neg", "fp.abs"):
        n = d.nodes[n][1][0]
    return n


def maxmag(box, n):
    if n not in box.memo:
        box.eval(n)
    if box.memo[n] is None:
        return INF
    V = box.fval(n)
    return INF if V[2] else max([p[1] for p in V[:2] if p is not None], default=INF)


def smaller(d, box, p, q, depth=0):
    """|p| < |q| whenever q is nonzero: p is a product of q (or of something smaller) by a factor at most 1/2"""
    p, q = strip(d, p), strip(d, q)
    op, a = d.nodes[p]
    if depth > 6 or op not in ("fp.mul", "fp.div"):
        return False
    if op == "fp.div":
        m = box_minmag(box, a[2])
        if strip(d, a[1]) == q and m >= 2:
            return True
        return m >= 1 and smaller(d, box, a[1], q, depth + 1)
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        m = maxmag(box, y)
        if m <= 0.5 and strip(d, x) == q:
            return True
        if m <= 1.0 and smaller(d, box, x, q, depth + 1):
            return True
    return False


def box_minmag(box, n):
    if n not in box.memo:
        box.eval(n)
    if box.memo[n] is None:
        return 0.0
    V = box.fval(n)
    return 0.0 if V[2] else min([p[0] for p in V[:2] if p is not None], default=0.0)


def pretty(d, n, depth=6):
    op, a = d.nodes[n]
    if op == "var":
        return a[0].split("::")[-1].rstrip("|")
    if op == "bv":
        if a[1] == 64 and a[0] >> 40:
            return repr(f_of(a[0], 64))
        return hex(a[0])
    if op in ("true", "false"):
        return op
    if depth == 0:
        return f"@{n}"
    ch = ufsmt.Emit.children(op, a)
    pre = ",".join(str(x) for x in a[:len(a) - len(ch)] if not str(x).startswith("round"))
    return f"{op}{'[' + pre + ']' if pre else ''}(" + ", ".join(pretty(d, c, depth - 1) for c in ch) + ")"


def flagkey(P, box, res):
    """facts about every float operation of the residual on this box (see ufsmt.Emit.flags)"""
    d = P.d
    fl, key = {}, []
    order = getattr(P, "fpord", {}).get(res)
    if order is None:
        order = [n for n in ufsmt.reach_ids(d, res) if d.nodes[n][0] in ("fp.add", "fp.sub", "fp.mul", "fp.div") and d.sort[n] in (32, 64)
                 and d.nodes[n][1][0] in ("roundNearestTiesToEven", "RNE")]
        P.fpord = getattr(P, "fpord", {})
        P.fpord[res] = order
    for n in order:
        op, args = d.nodes[n]
        w = d.sort[n]
        for x in (args[1], args[2], n):
            if x not in box.memo:
                box.eval(x)
        nan = box.memo[n] is None or box.fval(n)[2]
        A, B = box.fval(args[1]), box.fval(args[2])
        hit = lambda V, c: any(p is not None and p[0] <= c <= p[1] for p in V[:2])
        z = (hit(A, 0.0), hit(B, 0.0))
        f = dict(nan=nan, z=z, i=(hit(A, INF), hit(B, INF)), one=(hit(A, 1.0), hit(B, 1.0)), canc=True, dom=0)
        if op in ("fp.add", "fp.sub"):
            if op == "fp.sub":
                B = (B[1], B[0], B[2])
            canc = False
            for p, q in ((A[0], B[1]), (A[1], B[0])):
                if p is not None and q is not None and p[0] <= q[1] and q[0] <= p[1] and not (p[1] == 0 and q[1] == 0):
                    canc = True
            if canc:
                # both operands zero with opposite signs is the remaining case
                if smaller(d, box, args[2], args[1]):
                    canc = z[0] and z[1]
                elif smaller(d, box, args[1], args[2]):
                    canc = z[0] and z[1]
            f["canc"] = canc
            ma = [p for p in A[:2] if p is not None]
            mb = [p for p in B[:2] if p is not None]
            if ma and mb:
                if min(p[0] for p in ma) > max(p[1] for p in mb):
                    f["dom"] = 1
                elif min(p[0] for p in mb) > max(p[1] for p in ma):
                    f["dom"] = 2
            f["one"] = (False, False)
        fl[n] = f
        key.append((nan, f["z"], f["i"], f["one"], f["canc"], f["dom"]))
    return fl, tuple(key)


FARITH = ("fp.add", "fp.sub", "fp.mul", "fp.div", "fp.sqrt", "fcvt")
FREL = ("fp.lt", "fp.leq", "fp.gt", "fp.geq", "fp.eq")
TOINT = {64: 0x4338 << 48, 32: 0x4B400000}


def unneg(d, n):
    """-> (negated?, node below)"""
    s = False
    while d.nodes[n][0] == "fp.neg":
        s, n = not s, d.nodes[n][1][0]
    op, a = d.nodes[n]
    if op == "bv" and a[0] >> (a[1] - 1):
        return not s, negate(d, n)
    return s, n


def negate(d, n):
    op, a = d.nodes[n]
    if op == "fp.neg":
        return a[0]
    if op == "bv":
        w = a[1]
        return d.mk("bv", (a[0] ^ (1 << (w - 1)), w), w)
    return d.mk("fp.neg", (n,), d.sort[n])


def nonan(box, n):
    if n not in box.memo:
        box.eval(n)
    return box.memo[n] is not None and not box.fval(n)[2]


def nocancel(d, box, a, b, sub):
    """a + b (a - b) cannot cancel exactly, nor add zeros of opposite sign"""
    for x in (a, b):
        if x not in box.memo:
            box.eval(x)
        if box.memo[x] is None:
            return False
    A, B = box.fval(a), box.fval(b)
    if sub:
        B = (B[1], B[0], B[2])
    overlap = False
    zeros = False
    for p, q in ((A[0], B[1]), (A[1], B[0])):
        if p is not None and q is not None and p[0] <= q[1] and q[0] <= p[1]:
            overlap = True
            if p[0] == 0 and q[0] == 0:
                zeros = True
    if not overlap:
        return True
    return not zeros and (smaller(d, box, b, a) or smaller(d, box, a, b))


def dropsign(P, n, w):
    """n only matters below its sign bit"""
    d = P.d
    while True:
        op, a = d.nodes[n]
        if op in ("fp.neg", "fp.abs"):
            n = a[0]
            continue
        return zcanon(P, n)[1] if d.sort[n] in (32, 64) else n


def demand(P, n, mask):
    """n, of which only the bits in mask matter"""
    d = P.d
    op, a = d.nodes[n]
    w = d.sort[n]
    if op == "extract":
        return d.mk("extract", (a[0], a[1], demand(P, a[2], mask << a[1])), w)
    if op in ("bvlshr", "bvashr") and d.nodes[a[1]][0] == "bv":
        k = d.nodes[a[1]][1][0]
        if k < w and (op == "bvlshr" or mask >> (w - 1 - k) <= 1):
            m2 = (mask << k) & ((1 << w) - 1)
            return d.mk(op, (demand(P, a[0], m2), a[1]), w)
        return n
    if op in ("zero_extend", "sign_extend"):
        x = a[-1]
        if mask >> (d.sort[x] - (1 if op == "sign_extend" else 0)) == 0:
            return d.mk(op, a[:-1] + (demand(P, x, mask),), w)
        return n
    if isinstance(w, int) and w in (32, 64) and not mask >> (w - 1) & 1:
        return dropsign(P, n, w)
    return n


ZSIGN = ("fp.add", "fp.sub", "fp.mul", "fp.div", "fp.abs", "fcvt", "rintc", "ite", "fp.neg", "bv")


def zcanon(P, n):
    """-> (s, m): n equals (-1)^s * m as a value (NaN alike; the sign of a zero is not tracked).
    Holds in round-to-nearest, which is symmetric; a divisor is kept exactly as it is."""
    d = P.d
    memo = P.__dict__.setdefault("zmemo", {})
    st = [n]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        op, a = d.nodes[x]
        S = d.sort[x]
        isf = S in (32, 64)
        if not isf or op not in ZSIGN:
            memo[x] = (False, x)
            st.pop()
            continue
        if op == "bv":
            memo[x] = (True, negate(d, x)) if a[0] >> (a[1] - 1) else (False, x)
            st.pop()
            continue
        if op == "ite":
            ch = a[1:]
        elif op == "fp.div":
            ch = (a[1], a[2]) if P.zbox is not None and noz(P.zbox, a[2]) else (a[1],)
        elif op in ("fp.add", "fp.sub", "fp.mul"):
            ch = a[1:]
        elif op == "fcvt":
            if a[1] not in (32, 64):
                memo[x] = (False, x)
                st.pop()
                continue
            ch = (a[2],)
        else:
            ch = (a[0],)
        if op not in ("fp.neg", "fp.abs", "ite", "rintc") and a[0] not in ("roundNearestTiesToEven", "RNE"):
            memo[x] = (False, x)
            st.pop()
            continue
        miss = [c for c in ch if c not in memo]
        if miss:
            st.extend(miss)
            continue
        r = [memo[c] for c in ch]
        if op == "fp.neg":
            v = (not r[0][0], r[0][1])
        elif op == "fp.abs":
            v = (False, d.mk("fp.abs", (r[0][1],), S))
        elif op == "rintc":
            v = (r[0][0], d.mk("rintc", (r[0][1],), S))
        elif op == "fcvt":
            v = (r[0][0], d.mk("fcvt", (a[0], a[1], r[0][1]), S))
        elif op == "ite":
            if r[0][1] == r[1][1] and r[0][0] == r[1][0]:
                v = r[0]
            elif r[0][0]:
                v = (True, d.mk("ite", (a[0], r[0][1], negate(d, r[1][1]) if not r[1][0] else r[1][1]), S))
            else:
                v = (False, d.mk("ite", (a[0], r[0][1], negate(d, r[1][1]) if r[1][0] else r[1][1]), S))
        elif op == "fp.div":
            s2, den = unneg(d, a[2]) if len(ch) == 1 else r[1]
            v = (r[0][0] != s2, d.mk("fp.div", (a[0], r[0][1], den), S))
        elif op == "fp.mul":
            p, q = sorted((r[0][1], r[1][1]))
            v = (r[0][0] != r[1][0], d.mk("fp.mul", (a[0], p, q), S))
        else:
            (s1, p), (s2, q) = r
            if op == "fp.sub":
                s2 = not s2
            zero = ("bv", (0, S))
            if d.nodes[p] == zero or d.nodes[q] == zero:
                memo[x] = (s1, p) if d.nodes[q] == zero else (s2, q)
                st.pop()
                continue
            if p > q:
                p, q, s1, s2 = q, p, s2, s1
            v = (s1, d.mk("fp.sub" if s1 != s2 else "fp.add", (a[0], p, q), S))
        memo[x] = v
        st.pop()
    return memo[n]


def zval(P, n):
    s, m = zcanon(P, n)
    return negate(P.d, m) if s else m


def noz(box, n):
    """the box excludes zero (of either sign) for n"""
    if n not in box.memo:
        box.eval(n)
    if box.memo[n] is None:
        return False
    V = box.fval(n)
    return all(p is None or p[0] > 0 for p in V[:2])


def absorbed(box, p, q, w):
    """1 (2) when p + q and p - q round to p (to +-q): the other operand is below half an ulp"""
    mant = 24 if w == 32 else 53
    for k, (x, y) in ((1, (p, q)), (2, (q, p))):
        for z in (x, y):
            if z not in box.memo:
                box.eval(z)
            if box.memo[z] is None:
                return 0
        X, Y = box.fval(x), box.fval(y)
        if X[2] or Y[2]:
            continue
        parts = [t for t in X[:2] if t is not None]
        if not parts or any(t[0] <= 0 for t in parts):
            continue
        lo = min(t[0] for t in parts)
        hi = max(t[1] for t in parts)
        ym = max([t[1] for t in Y[:2] if t is not None] or [0.0])
        if hi == INF or ym == math.inf or lo < 2.0 ** (-100 if w == 32 else -900):
            continue
        # exponent of the smallest operand; its lower neighbour is half an ulp closer at a power of two
        m, e = math.frexp(lo)          # lo = m * 2^e, 0.5 <= m < 1
        half = 2.0 ** (e - mant - 1) if m > 0.5 else 2.0 ** (e - mant - 2)
        if ym < half:
            return k
    return 0


def special(P, box, op, args, sort, orig, n0):
    d = P.d
    if op == "extract":
        hi, lo, a = args
        if hi < d.sort[a] - 1:
            a2 = demand(P, a, ((2 << (hi - lo)) - 1) << lo)
            if a2 != a:
                return ufsmt.simp(d, op, (hi, lo, a2), sort)
    if op == "bvand" and len(args) == 2:
        for x, y in ((0, 1), (1, 0)):
            c = d.nodes[args[y]]
            if c[0] == "bv" and c[1][0] < 1 << (sort - 1):
                a = demand(P, args[x], c[1][0])
                if a != args[x]:
                    return d.mk("bvand", (a, args[y]) if x == 0 else (args[y], a), sort)
    if op in ("bvuge", "bvugt", "bvule", "bvult") and d.sort[args[0]] in (32, 64):
        # NaN tests on the bits
        S = d.sort[args[0]]
        inf = 0x7F800000 if S == 32 else 0x7FF << 52
        x, c = (args[0], args[1]) if op in ("bvuge", "bvugt") else (args[1], args[0])
        if d.nodes[c] == ("bv", (inf + (1 if op in ("bvuge", "bvule") else 0), S)) and d.nodes[x][0] == "bvand" and len(d.nodes[x][1]) == 2:
            m = ("bv", ((1 << (S - 1)) - 1, S))
            p, q = d.nodes[x][1]
            if m in (d.nodes[p], d.nodes[q]):
                f = q if d.nodes[p] == m else p
                return ufsmt.simp(d, "fp.isNaN", (zcanon(P, f)[1],), "Bool")
    if op == "fp.to_sbv" and args[0] in ("roundTowardZero", "RTZ") and d.sort[args[2]] in (32, 64):
        s1, m = zcanon(P, args[2])
        if s1:
            lo, hi, nan = box.real(orig[2]) if box.memo.get(orig[2]) is not None else (None, None, True)
            lim = 2.0 ** (sort - 1)
            if not nan and lo is not None and -lim < lo and hi < lim:
                return d.mk("bvneg", (d.mk(op, (args[0], args[1], m), sort),), sort)
        return ufsmt.simp(d, op, (args[0], args[1], negate(d, m) if s1 else m), sort)
    if op == "fp.abs":
        a = dropsign(P, args[0], sort)
        return d.mk("fp.abs", (a,), sort)
    if op == "fp.neg":
        return negate(d, args[0])
    if op in FREL and P.d.sort[args[0]] in (32, 64):
        if op in ("fp.gt", "fp.geq"):
            op, args = {"fp.gt": "fp.lt", "fp.geq": "fp.leq"}[op], (args[1], args[0])
        (s1, a), (s2, b) = zcanon(P, args[0]), zcanon(P, args[1])
        if op == "fp.eq":
            if a > b:
                a, b, s1, s2 = b, a, s2, s1
            if a == b and s1 == s2:
                if nonan(box, orig[0]):
                    return d.mk("true", (), "Bool")
                return d.mk("not", (d.mk("fp.isNaN", (a,), "Bool"),), "Bool")
            return ufsmt.simp(d, op, (a, negate(d, b) if s1 != s2 else b), sort)
        if s1 and s2:
            return ufsmt.simp(d, op, (b, a), sort)
        if s1 and a > b or s2 and a > b:
            a, b = b, a
        if s1:
            a = negate(d, a)
        if s2:
            b = negate(d, b)
        return ufsmt.simp(d, op, (a, b), sort)
    if op in ("fp.isNaN", "fp.isInfinite", "fp.isZero") and P.d.sort[args[0]] in (32, 64):
        return ufsmt.simp(d, op, (zcanon(P, args[0])[1],), sort)
    if op in ("fp.isNaN", "fp.isInfinite", "fp.isZero", "fp.isNormal", "fp.isSubnormal"):
        return ufsmt.simp(d, op, (dropsign(P, args[0], 0),), sort)
    if op in ("fp.mul", "fp.div") and sort in (32, 64):
        (s1, a), (s2, b) = unneg(d, args[1]), unneg(d, args[2])
        if s1 or s2:
            if op == "fp.mul" and a > b:
                a, b = b, a
            r = d.mk(op, (args[0], a, b), sort)
            return negate(d, r) if s1 != s2 else r
        if op == "fp.mul" and args[1] > args[2]:
            args = (args[0], args[2], args[1])
    if op in ("fp.add", "fp.sub") and sort in (32, 64):
        k = absorbed(box, orig[1], orig[2], sort)
        if k:
            return args[1] if k == 1 else (args[2] if op == "fp.add" else negate(d, args[2]))
        a, b = args[1], args[2]
        if d.nodes[b][0] == "bv" or not (d.nodes[b] == ("bv", (TOINT.get(sort), sort))):
            (s1, a1), (s2, b1) = unneg(d, a), unneg(d, b)
            if op == "fp.sub":
                s2 = not s2
            isc = any(d.nodes[x][0] == "bv" and d.nodes[x][1][0] & ((1 << (sort - 1)) - 1) == TOINT[sort] for x in (a1, b1))
            if not isc:
                if d.nodes[a1][0] == "bv" and d.nodes[a1][1][0] >> (sort - 1):
                    s1, a1 = not s1, negate(d, a1)
                if d.nodes[b1][0] == "bv" and d.nodes[b1][1][0] >> (sort - 1):
                    s2, b1 = not s2, negate(d, b1)
                if a1 > b1:
                    a1, b1, s1, s2 = b1, a1, s2, s1
                if not s1:
                    r = d.mk("fp.sub" if s2 else "fp.add", (args[0], a1, b1), sort)
                    return r
                if nocancel(d, box, orig[1], orig[2], op == "fp.sub"):
                    r = d.mk("fp.add" if s2 else "fp.sub", (args[0], a1, b1), sort)
                    return negate(d, r)
    if op == "fcvt" and d.nodes[args[2]][0] == "fp.neg":
        return negate(d, d.mk("fcvt", (args[0], args[1], d.nodes[args[2]][1][0]), sort))
    if op == "=" and len(args) == 2 and d.sort[args[0]] not in ("Bool",):
        # cancel a common sign change
        (s1, a), (s2, b) = unneg(d, args[0]), unneg(d, args[1])
        if s1 and s2:
            args = (a, b)
        S = d.sort[args[0]]
        if S in (32, 64):
            x, y, fl = args[0], args[1], False
            while True:
                if d.nodes[x][0] == "bvxor" and len(d.nodes[x][1]) == 2 and ("bv", (1 << (S - 1), S)) in [d.nodes[z] for z in d.nodes[x][1]]:
                    x, fl = [z for z in d.nodes[x][1] if d.nodes[z] != ("bv", (1 << (S - 1), S))][0], not fl
                    continue
                if d.nodes[y][0] == "bvxor" and len(d.nodes[y][1]) == 2 and ("bv", (1 << (S - 1), S)) in [d.nodes[z] for z in d.nodes[y][1]]:
                    y, fl = [z for z in d.nodes[y][1] if d.nodes[z] != ("bv", (1 << (S - 1), S))][0], not fl
                    continue
                break
            if d.nodes[x][0] in ZSIGN and d.nodes[y][0] in ZSIGN:
                (s1, p), (s2, q) = zcanon(P, x), zcanon(P, y)
                if p == q and (s1 != s2) == fl and all(noz(box, z) and nonan(box, z) for z in orig):
                    return d.mk("true", (), "Bool")
        for x, y in ((args[0], args[1]), (args[1], args[0])):
            # x = y ^ signbit
            if isinstance(S, int) and d.nodes[y][0] == "bvxor" and len(d.nodes[y][1]) == 2:
                for p, q in (d.nodes[y][1], d.nodes[y][1][::-1]):
                    if d.nodes[q] == ("bv", (1 << (S - 1), S)) and (d.nodes[x] == ("fp.neg", (p,)) or d.nodes[p] == ("fp.neg", (x,))):
                        return d.mk("true", (), "Bool")
    if op == "fp.sub" and sort in (32, 64):
        # (a + C) - C with C = 1.5 * 2^(p-1) and |a| small: round to nearest integer
        a, c = args[1], args[2]
        if d.nodes[c] == ("bv", (TOINT[sort], sort)) and d.nodes[a][0] == "fp.add":
            x = d.nodes[a][1]
            for p, q in ((x[1], x[2]), (x[2], x[1])):
                if q == c:
                    # magnitude from the box
                    on = d.nodes[orig[1]]
                    src = None
                    if on[0] == "fp.add":
                        for pp, qq in ((on[1][1], on[1][2]), (on[1][2], on[1][1])):
                            if d.nodes[qq] == ("bv", (TOINT[sort], sort)):
                                src = pp
                    if src is not None and src in box.memo:
                        lo, hi, nan = box.real(src)
                        lim = 2.0 ** (51 if sort == 64 else 22)
                        if not nan and lo is not None and -lim <= lo and hi <= lim:
                            return d.mk("rintc", (p,), sort)
    return ufsmt.simp(d, op, args, sort)


def z3_residual(P, group, res, opts, flags=None):
    """group: list of boxes (env dicts) sharing the residual formula -> unsat/sat/unknown, model"""
    d = P.d
    em = ufsmt.Emit(P.conv, axioms=opts.get("axioms", ("base", "cvtuf")), cvt="uf")
    em.flags = flags or {}
    extra = []
    # hull of the boxes per variable and the union of table facts needed
    tabs = []
    for n in ufsmt.reach_ids(d, res):
        op, a = d.nodes[n]
        if op == "select" and a[0] in P.tabfacts:
            pass
    used = {d.nodes[n][1][0] for n in ufsmt.reach_ids(d, res) if d.nodes[n][0] == "select" and d.nodes[n][1][0] in P.tabfacts}
    for arr in used:
        for i, v in P.tabfacts[arr].items():
            s = d.mk("select", (arr, d.mk("bv", (i, d.sort[arr][1]), d.sort[arr][1])), d.sort[arr][2])
            tabs.append(d.mk("=", (s, v), "Bool"))
    txt = em.go(list(res) + tabs)
    lines = []
    for v in P.argvars:
        w = d.sort[v]
        if v not in em.name:
            txt = txt.replace("(set-logic ALL)", f"(set-logic ALL)\n(declare-fun {d.nodes[v][1][0]} () (_ BitVec {w}))", 1)
    cons = []
    # union of boxes merged when adjacent (single variable); otherwise the hull
    if len(P.argvars) == 1:
        v = P.argvars[0]
        iv = norm_all([b[v] for b in group])
        w = d.sort[v]
        nm = d.nodes[v][1][0]
        cons.append("(or " + " ".join(f"(and (bvuge {nm} (_ bv{l} {w})) (bvule {nm} (_ bv{h} {w})))" for l, h in iv) + ")")
    else:
        for v in P.argvars:
            w = d.sort[v]
            nm = d.nodes[v][1][0]
            lo, hi = min(b[v][0] for b in group), max(b[v][1] for b in group)
            cons.append(f"(and (bvuge {nm} (_ bv{lo} {w})) (bvule {nm} (_ bv{hi} {w})))")
    if len(group) <= 4:
        # what the interval evaluation knows about every float operation
        bxs = [Box(P, b) for b in group]
        for n in ufsmt.reach_ids(d, res):
            if d.nodes[n][0] in FARITH and d.sort[n] in (32, 64) and n in em.name:
                iv = []
                for bx in bxs:
                    bx.eval(n)
                    if bx.memo[n] is None:
                        iv = None
                        break
                    iv += list(bx.memo[n])
                if iv:
                    iv = norm(iv)
                    if len(iv) > 1 or iv[0][1] - iv[0][0] < (1 << d.sort[n]) - 1:
                        w, nm = d.sort[n], em.name[n]
                        cons.append("(or " + " ".join(f"(and (bvuge {nm} (_ bv{l} {w})) (bvule {nm} (_ bv{h} {w})))" for l, h in iv) + ")")
    txt += "".join(f"(assert {c})\n" for c in cons) + "(check-sat)\n"
    names = [d.nodes[v][1][0] for v in P.argvars]
    txt += "".join(f"(get-value ({nm}))\n" for nm in names)
    fd, fn = tempfile.mkstemp(suffix=".smt2")
    with os.fdopen(fd, "w") as f:
        f.write("(set-option :produce-models true)\n" + txt)
    to = opts.get("z3_timeout", 5)
    try:
        p = subprocess.run(["z3-new", "-T:%d" % to, "-memory:4000", fn], capture_output=True, text=True, timeout=to + 10)
        o = p.stdout.strip().splitlines()
    except subprocess.TimeoutExpired:
        o = ["timeout"]
    if os.environ.get("CELLS_KEEP"):
        print("z3", o[:1], fn, file=sys.stderr)
    else:
        os.remove(fn)
    if o and o[0] == "unsat":
        return "unsat", None
    if o and o[0] == "sat":
        vals = re.findall(r"#x[0-9a-f]+|#b[01]+", " ".join(o[1:]))
        return "sat", {v: (int(x[2:], 16 if x[1] == "x" else 2)) for v, x in zip(P.argvars, vals)}
    return "unknown", None


def norm_all(iv):
    iv = sorted(iv)
    out = [iv[0]]
    for l, h in iv[1:]:
        if l <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(h, out[-1][1]))
        else:
            out.append((l, h))
    return out


def prove(P, opts):
    """-> dict(result=proved|candidate|unknown, boxes=…, …)"""
    d = P.d
    t_end = time.time() + opts.get("budget", 120)
    F = "false"
    full = {v: (0, (1 << d.sort[v]) - 1) for v in P.argvars}
    stat = dict(boxes=0, discharged=0, z3=0, z3_unsat=0, residuals=0)
    # initial cover: thresholds of each variable (bounded product)
    work = [full]
    lists = {v: P.thresholds(v) for v in P.argvars}
    total = 1
    for v in P.argvars:
        total *= len(lists[v]) + 1
    if total <= opts.get("max_initial", 20000):
        for v in P.argvars:
            nw = []
            ts = [t for t in lists[v] if t > 0]
            edges = [0] + ts + [1 << d.sort[v]]
            for b in work:
                for lo, hi in zip(edges, edges[1:]):
                    if lo < hi:
                        nb = dict(b)
                        nb[v] = (lo, hi - 1)
                        nw.append(nb)
            work = nw
    cands = []
    usez3 = opts.get("z3", "first")     # first | last | never
    depth_left = opts.get("depth", 40)
    done_res = {}
    level = 0
    for n in P.asserts:
        if d.nodes[n][0] == "false":
            return dict(result="proved", **stat)
    maxboxes = opts.get("max_boxes", 40000)
    while work:
        if time.time() > t_end or stat["boxes"] > maxboxes:
            return dict(result="unknown", why="budget", left=len(work), example=[[hex(x) for x in work[0][v]] for v in P.argvars], **stat)
        groups, nxt0 = {}, []
        for b in work:
            if time.time() > t_end:
                break
            stat["boxes"] += 1
            bx = Box(P, b)
            ok = False
            for a in P.asserts:
                if bx.eval(a) is False:
                    ok = True
                    break
            if ok or bx.empty:
                stat["discharged"] += 1
                continue
            if bx.amb is not None and usez3 == "never":
                n, k1, k2 = bx.amb
                nxt0 += [dict(b, fix=b.get("fix", ()) + ((n, k),)) for k in (k1, k2)]
                continue
            if bx.purenan and "nan" not in b:
                # the default NaN is positive on some targets and negative on others: two cases
                nxt0 += [dict(b, nan=0), dict(b, nan=1)]
                continue
            if usez3 == "never":
                groups.setdefault(id(b), (None, [], None))[1].append(b)
                continue
            r = residual(P, bx)
            if any(d.nodes[x][0] == "false" for x in r):
                stat["discharged"] += 1
                continue
            fl, fk = flagkey(P, bx, r)
            if level < opts.get("presplit", 12) and any(x["canc"] for x in fl.values()) and span(P, b) > 1 and len(P.argvars) == 1:
                nxt0 += split(P, b)
                continue
            groups.setdefault((r, fk), (r, [], fl))[1].append(b)
        if time.time() > t_end:
            return dict(result="unknown", why="budget", left=len(work), **stat)
        nxt = nxt0
        for key, (r, bs, fl) in groups.items():
            if r is not None and (usez3 == "first" or level >= opts.get("z3_level", 6)):
                stat["z3"] += 1
                o2 = dict(opts)
                o2["z3_timeout"] = max(1, min(opts.get("z3_timeout", 5), int(t_end - time.time())))
                if time.time() > t_end:
                    return dict(result="unknown", why="budget", left=len(groups), **stat)
                tz = time.time()
                s, model = z3_residual(P, bs, r, o2, fl)
                if os.environ.get("CELLS_DEBUG"):
                    print(s, round(time.time() - tz, 2), len(bs), [[hex(x) for x in bs[0][v]] for v in P.argvars], file=sys.stderr)
                    if s != "unsat":
                        for x in r:
                            print("   ", pretty(d, x, int(os.environ["CELLS_DEBUG"])), file=sys.stderr)
                        print("    canc:", [pretty(d, k, 3) for k, v in fl.items() if v["canc"]], file=sys.stderr)
                if s == "unsat":
                    stat["z3_unsat"] += 1
                    stat["discharged"] += len(bs)
                    continue
                if s == "sat" and len(cands) < 50:
                    cands.append(model)
            if len(cands) >= opts.get("max_cands", 60) and level >= 2:
                return dict(result="candidate", cands=cands, why="abstract counterexamples", example=[[hex(x) for x in bs[0][v]] for v in P.argvars], **stat)
            for b in bs:
                sp = split(P, b)
                if sp is None:
                    return dict(result="candidate", cands=cands + [{v: b[v][0] for v in P.argvars}], why="single point", **stat)
                nxt += sp
        work = nxt
        level += 1
    return dict(result="proved", **stat)


def span(P, b):
    """number of binades covered by the box (largest over the arguments)"""
    m = 0
    for v in P.argvars:
        w = P.d.sort[v]
        sg = {16: 10, 32: 23, 64: 52, 128: 112}.get(w, 0)
        m = max(m, (b[v][1] >> sg) - (b[v][0] >> sg))
    return m


def split(P, b):
    best, bw = None, 0
    for v in P.argvars:
        lo, hi = b[v]
        w = hi - lo
        # compare widths relative to the type
        rel = w / (1 << P.d.sort[v])
        if w > 0 and rel > bw:
            best, bw = v, rel
    if best is None:
        return None
    lo, hi = b[best]
    # prefer a cut on a power-of-two boundary inside the interval
    k = (lo ^ hi).bit_length() - 1
    mid = (hi >> k) << k
    if not (lo < mid <= hi) or min(mid - lo, hi - mid + 1) * 16 < hi - lo:
        mid = (lo + hi) // 2 + 1
    b1, b2 = dict(b), dict(b)
    b1[best] = (lo, mid - 1)
    b2[best] = (mid, hi)
    return [b1, b2]


def main():
    """cells.py <cbmc.smt2> <json options>  (options: mangled, args, axioms, budget, z3 …)"""
    o = json.loads(sys.argv[2])
    conv = ufsmt.convert(open(sys.argv[1]).read())
    if not conv.asserts:
        raise SystemExit("empty formula")
    P = Problem(conv, o["mangled"], o["args"])
    r = prove(P, o)
    if "cands" in r:
        out = []
        for c in r["cands"]:
            if c is None:
                continue
            bx = Box(P, {v: (x, x) for v, x in c.items()})
            vals = []
            for n in P.args:
                if n is None:
                    vals.append(0)
                    continue
                e = bx.eval(n)
                vals.append(e[0][0] if e else 0)
            out.append(vals)
        r["cands"] = [[str(x) for x in c] for c in out]
    print(json.dumps(r))


if __name__ == "__main__":
    main()
