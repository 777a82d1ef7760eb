"""Forward abstract interpreter over normalised IR, with trace partitioning.

Abstract values are interned terms: constants, linear forms over opaque atoms
(initial memory contents, arguments, call results), bit operations kept precise
enough to recover bit provenance, floating point terms.  Every trace carries an
interval for each atom that was compared, plus the truth value of the conditions
met.  Loops are entered once with every loop-carried value forgotten (one
generic iteration), so no trace depends on an input value or a trip count.
No program code is executed and no path is handed to a solver.
"""
import math
import itertools
import re
from .build import ToolError

_tab = {}
_ctr = [0]


class T:
    __slots__ = ("k", "w", "a", "n")

    def __repr__(self):
        return show(self)


def mk(k, w, *a):
    key = (k, w, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.w, t.a = k, w, a
        _ctr[0] += 1
        t.n = _ctr[0]
        _tab[key] = t
    return t


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def C(v, w):
    return mk("c", w, signed(v, w))


def isc(t):
    return t.k == "c"


def uval(t):
    return t.a[0] & ((1 << t.w) - 1)


def aslin(t):
    if t.k == "c":
        return t.a[0], {}
    if t.k == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(w, c, d):
    if any(k.k in ("lin", "c") for k in d):
        e = {}
        for k, v in d.items():
            c2, d2 = aslin(k)
            c += v * c2
            for x, u in d2.items():
                e[x] = e.get(x, 0) + u * v
        d = e
    d = {k: signed(v, w) for k, v in d.items()}
    d = {k: v for k, v in d.items() if v}
    c = signed(c, w)
    if not d:
        return C(c, w)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", w, c, tuple(sorted(d.items(), key=lambda kv: kv[0].n)))


def add(a, b, s=1):
    c1, d1 = aslin(a)
    c2, d2 = aslin(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + s * v
    return mklin(a.w, c1 + s * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = aslin(a)
    return mklin(a.w, c * k, {x: v * k for x, v in d.items()})


def show(t, depth=0):
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    k = t.k
    if k == "c":
        return str(t.a[0])
    if k == "fc":
        return repr(t.a[0])
    if k == "lin":
        p = []
        for x, c in t.a[1]:
            p.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + s(x))
        if t.a[0]:
            p.append(str(t.a[0]))
        return "(" + " + ".join(p) + ")"
    if k == "arg":
        return t.a[1]
    if k == "ld":
        return "[%s]%s" % (s(t.a[0]), "'" * min(t.a[1], 3) if t.a[1] else "")
    if k == "glob":
        return "@" + t.a[0]
    if k == "alloca":
        return "&loc%s" % t.a[0]
    if k == "call":
        nm = t.a[0].split("(")[0].split("::")[-1]
        return "%s(%s)#%s" % (nm, ", ".join(s(x) for x in t.a[1]), t.a[2])
    if k in ("zext", "sext", "trunc", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
        return "%s%s(%s)" % (k, t.w, s(t.a[0]))
    return "%s(%s)" % (k, ", ".join(s(x) if not isinstance(x, tuple) else "(" + ",".join(map(s, x)) + ")" for x in t.a))


def atoms(t, acc=None):
    """all sub-terms of t"""
    if acc is None:
        acc = set()
    if t in acc:
        return acc
    acc.add(t)
    for x in t.a:
        if isinstance(x, T):
            atoms(x, acc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    atoms(y, acc)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            atoms(z, acc)
    return acc


WID = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64, "i128": 128, "i24": 24}


def width(ty):
    w = WID.get(ty)
    if w:
        return w
    if ty == "double":
        return "d"
    if ty == "float":
        return "fl"
    if ty == "x86_fp80":
        return "ld80"
    m = re.match(r"i(\d+)$", ty or "")
    if m:
        return int(m.group(1))
    return "agg"


class _Size(dict):
    def get(self, k, d=None):
        v = dict.get(self, k)
        if v is None and k and re.match(r"i\d+$", k):
            v = (int(k[1:]) + 7) // 8
        return d if v is None else v


SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "float": 4, "x86_fp80": 16}
SIZE = _Size(SIZE)

FREL = {"lt": ("lt",), "le": ("lt", "eq"), "gt": ("gt",), "ge": ("gt", "eq"), "eq": ("eq",), "ne": ("lt", "gt")}
FREL = {**{"o" + k: frozenset(v) for k, v in FREL.items()}, **{"u" + k: frozenset(v + ("un",)) for k, v in FREL.items()},
        "ord": frozenset(("lt", "eq", "gt")), "uno": frozenset(("un",)), "true": frozenset(("lt", "eq", "gt", "un")), "false": frozenset()}
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}
TOPF = (float("-inf"), False, float("inf"), False, True)  # lo, lo_open, hi, hi_open, maybe_nan


class State:
    __slots__ = ("env", "mem", "epoch", "known", "iv", "fiv", "ev", "loops", "seq", "copies", "unwinding", "ne", "objs", "fr")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.epoch = {}
        self.known = {}
        self.iv = {}
        self.fiv = {}
        self.ev = []
        self.loops = frozenset()
        self.seq = 0
        self.copies = {}
        self.unwinding = False
        self.ne = {}
        self.objs = {}
        self.fr = {}

    def fork(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.epoch = dict(self.epoch)
        s.known = dict(self.known)
        s.iv = dict(self.iv)
        s.fiv = dict(self.fiv)
        s.ev = list(self.ev)
        s.loops = self.loops
        s.seq = self.seq
        s.copies = dict(self.copies)
        s.unwinding = self.unwinding
        s.ne = dict(self.ne)
        s.objs = dict(self.objs)
        s.fr = dict(self.fr)
        return s

    # ---- integer ranges
    def rng(self, t, depth=0):
        """(slo, shi, ulo, uhi)"""
        w = t.w
        if t.k == "c":
            v = t.a[0]
            u = uval(t)
            return (v, v, u, u)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1, 0, (1 << w) - 1)
        if depth > 12:
            return full
        r = full
        k = t.k
        if k == "bits":
            uhi = sum(1 << j for j, x in enumerate(t.a[0]) if x != 0)
            ulo = sum(1 << j for j, x in enumerate(t.a[0]) if isinstance(x, int) and x == 1)
            r = (ulo, uhi, ulo, uhi) if uhi < 1 << (w - 1) else full[:2] + (ulo, uhi)
        elif k == "lin":
            slo = shi = t.a[0]
            ulo = uhi = t.a[0]
            for x, c in t.a[1]:
                q = self.rng(x, depth + 1)
                if c > 0:
                    slo += c * q[0]; shi += c * q[1]; ulo += c * q[2]; uhi += c * q[3]
                else:
                    slo += c * q[1]; shi += c * q[0]; ulo += c * q[3]; uhi += c * q[2]
            if full[0] <= slo and shi <= full[1]:
                r = (slo, shi) + r[2:]
            if 0 <= ulo and uhi <= full[3]:
                r = r[:2] + (ulo, uhi)
        elif k == "zext":
            q = self.rng(t.a[0], depth + 1)
            r = (q[2], q[3], q[2], q[3])
        elif k == "sext":
            q = self.rng(t.a[0], depth + 1)
            r = (q[0], q[1]) + ((q[0], q[1]) if q[0] >= 0 else (0, full[3]))
        elif k == "trunc":
            q = self.rng(t.a[0], depth + 1)
            if q[3] <= full[3]:
                r = r[:2] + (q[2], q[3])
            if q[0] >= full[0] and q[1] <= full[1]:
                r = (q[0], q[1]) + r[2:]
        elif k == "and":
            for x in t.a:
                if isc(x) and x.a[0] >= 0:
                    r = (0, x.a[0], 0, x.a[0])
                    break
        elif k == "lshr" and isc(t.a[1]):
            q = self.rng(t.a[0], depth + 1)
            s = uval(t.a[1])
            if s < w:
                r = (q[2] >> s, q[3] >> s, q[2] >> s, q[3] >> s) if s > 0 else q
        elif k == "shl" and isc(t.a[1]):
            q = self.rng(t.a[0], depth + 1)
            s = uval(t.a[1])
            if q[3] << s <= full[1]:
                r = (q[2] << s, q[3] << s, q[2] << s, q[3] << s)
        elif k == "urem" and isc(t.a[1]) and uval(t.a[1]):
            m = uval(t.a[1])
            r = (0, m - 1, 0, m - 1) if m - 1 <= full[1] else r
        elif k == "srem" and isc(t.a[1]) and t.a[1].a[0] > 0:
            m = t.a[1].a[0]
            q = self.rng(t.a[0], depth + 1)
            r = (0 if q[0] >= 0 else -(m - 1), m - 1) + ((0, m - 1) if q[0] >= 0 else r[2:])
        elif k in ("udiv", "sdiv") and isc(t.a[1]) and t.a[1].a[0] > 0:
            m = t.a[1].a[0]
            q = self.rng(t.a[0], depth + 1)
            if k == "udiv" or q[0] >= 0:
                r = (q[2] // m, q[3] // m, q[2] // m, q[3] // m)
        elif k in ("smin", "smax"):
            q1, q2 = self.rng(t.a[0], depth + 1), self.rng(t.a[1], depth + 1)
            g = min if k == "smin" else max
            r = (g(q1[0], q2[0]), g(q1[1], q2[1])) + r[2:]
        elif k in ("umin", "umax"):
            q1, q2 = self.rng(t.a[0], depth + 1), self.rng(t.a[1], depth + 1)
            g = min if k == "umin" else max
            r = r[:2] + (g(q1[2], q2[2]), g(q1[3], q2[3]))
        elif k in ("ctlz", "cttz"):
            r = (0, w, 0, w)
        elif k == "call" and len(t.a[1]) == 1 and t.a[0] in ("lround", "llround", "lrint", "llrint") or k in ("lround", "llround", "lrint", "llrint", "fptosi"):
            q = self.frng(t.a[1][0] if k == "call" else t.a[0])
            if not q[4] and abs(q[0]) < 1e18 and abs(q[2]) < 1e18:
                lo, hi = math.floor(q[0]), math.ceil(q[2])
                if lo >= full[0] and hi <= full[1]:
                    r = (lo, hi) + ((lo, hi) if lo >= 0 else full[2:])
        elif k == "or":
            q1 = self.rng(t.a[0], depth + 1); q2 = self.rng(t.a[1], depth + 1)
            if q1[0] >= 0 and q2[0] >= 0:
                m = max(q1[3], q2[3])
                n = (1 << m.bit_length()) - 1
                lo = max(q1[2], q2[2])
                r = (lo, n, lo, n)
        iv = self.iv.get(t)
        if iv:
            r = (max(r[0], iv[0]), min(r[1], iv[1]), max(r[2], iv[2]), min(r[3], iv[3]))
        # link the two views
        if r[0] >= 0:
            r = (r[0], r[1], max(r[2], r[0]), min(r[3], r[1]))
            r = (max(r[0], r[2]), min(r[1], r[3]), r[2], r[3])
        elif r[3] <= full[1]:
            r = (max(r[0], r[2]), min(r[1], r[3]), r[2], r[3])
        return r

    def diff(self, b, a):
        """exact bounds of b - a when both linear forms are known not to wrap"""
        for t in (a, b):
            lo = hi = 0
            c, d = aslin(t)
            lo = hi = c
            for x, k in d.items():
                q = self.rng(x)
                lo += k * (q[0] if k > 0 else q[1])
                hi += k * (q[1] if k > 0 else q[0])
            lim = 1 << (t.w - 1)
            if lo < -lim or hi >= lim:
                return None
        cb, db = aslin(b)
        ca, da = aslin(a)
        for x, k in da.items():
            db[x] = db.get(x, 0) - k
        lo = hi = cb - ca
        for x, k in db.items():
            q = self.rng(x)
            lo += k * (q[0] if k > 0 else q[1])
            hi += k * (q[1] if k > 0 else q[0])
        return lo, hi

    def setiv(self, t, slo=None, shi=None, ulo=None, uhi=None):
        """refine the interval of t; False when it becomes empty"""
        if t.k == "c":
            r = self.rng(t)
        else:
            full = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1, 0, (1 << t.w) - 1)
            o = self.iv.get(t, full)
            n = (max(o[0], slo) if slo is not None else o[0], min(o[1], shi) if shi is not None else o[1],
                 max(o[2], ulo) if ulo is not None else o[2], min(o[3], uhi) if uhi is not None else o[3])
            self.iv[t] = n
            r = self.rng(t)
            if t.k == "zext" and r[0] <= r[1]:
                if not self.setiv(t.a[0], ulo=r[2], uhi=r[3]):
                    return False
            elif t.k == "sext" and r[0] <= r[1]:
                if not self.setiv(t.a[0], slo=r[0], shi=r[1]):
                    return False
            elif t.k == "lin" and len(t.a[1]) == 1:
                (x, c), = t.a[1]
                if c == 1:
                    k = t.a[0]
                    q = self.rng(x)
                    # only when the sum provably does not wrap
                    if q[0] + k >= full[0] and q[1] + k <= full[1]:
                        if not self.setiv(x, slo=r[0] - k, shi=r[1] - k):
                            return False
                elif c == -1:
                    k = t.a[0]
                    q = self.rng(x)
                    if k - q[1] >= full[0] and k - q[0] <= full[1]:
                        # k - x within r, where unsigned bounds say the same of numbers that are not negative
                        lo, hi = r[0], r[1]
                        if k - q[1] >= 0:
                            lo, hi = max(lo, r[2]), min(hi, r[3])
                        if not self.setiv(x, slo=k - hi, shi=k - lo):
                            return False
        if t.k == "c":
            if slo is not None and r[0] < slo or shi is not None and r[1] > shi:
                return False
            if ulo is not None and r[2] < ulo or uhi is not None and r[3] > uhi:
                return False
        return r[0] <= r[1] and r[2] <= r[3]

    # ---- conditions
    def decide(self, c):
        if c.k == "c":
            return bool(c.a[0])
        v = self.known.get(c)
        if v is not None:
            return v
        if c.k == "not":
            v = self.decide(c.a[0])
            return None if v is None else not v
        if c.k == "eq0":
            d = c.a[0]
            if isc(d):
                return d.a[0] == 0
            if d.k in ("glob", "alloca"):
                return False
            if d.w == 1:
                k, at = aslin(d)
                for x in at:
                    v = self.decide(x)
                    if v is None:
                        break
                    k += v
                else:
                    return k % 2 == 0
            if d.k == "abs":
                return self.decide(mk("eq0", 1, d.a[0]))
            r = self.rng(d)
            if r[0] > 0 or r[1] < 0 or r[2] > 0:
                return False
            if r[2] == r[3] == 0:
                return True
            k, at = aslin(d)
            if len(at) == 1:
                (x, co), = at.items()
                if x.k in ("glob", "alloca") and co == 1 and abs(k) < 1 << 24:
                    return False
                if co in (1, -1):
                    v = signed(-k * co, d.w)
                    q = self.rng(x)
                    u = v & ((1 << d.w) - 1)
                    if v < q[0] or v > q[1] or u < q[2] or u > q[3]:
                        return False
                    if q[0] == q[1] == v or q[2] == q[3] == u:
                        return True
                    if v in self.ne.get(x, ()):
                        return False
            elif len(at) == 2 and k == 0 and d.w == 64:
                (x, cx), (y, cy) = at.items()
                if cx == -cy and abs(cx) == 1 and distinct(x, y):
                    return False
            if len(at) == 2 and k == 0:
                (x, cx), (y, cy) = at.items()
                if cx == -cy and abs(cx) == 1:
                    ps = [(x, y)]
                    if x.k == y.k == "zext" and x.a[0].w == y.a[0].w:
                        ps.append((x.a[0], y.a[0]))
                    for p, q in ps:
                        for kk in ("ult", "slt"):
                            if self.known.get(mk(kk, 1, p, q)) or self.known.get(mk(kk, 1, q, p)):
                                return False
            return None
        if c.k in ("slt", "ult"):
            a, b = c.a
            if a is b:
                return False
            if a.w == 64 and a.k in ("arg", "lin") and b.k in ("arg", "lin"):
                (xa, oa), (xb, ob) = split(a), split(b)
                if xa is xb and xa.k == "arg" and xa.a[0] == -1:
                    return oa < ob          # into the same abstract object
            ra, rb = self.rng(a), self.rng(b)
            i = 0 if c.k == "slt" else 2
            if ra[i + 1] < rb[i]:
                return True
            if ra[i] >= rb[i + 1]:
                return False
            if ra[0] >= 0 and rb[0] >= 0:
                d = self.diff(b, a)
                if d is not None:
                    if d[0] > 0:
                        return True
                    if d[1] <= 0:
                        return False
            # the same comparison, the opposite one, with either signedness where they agree
            ks = ("slt", "ult") if ra[0] >= 0 and rb[0] >= 0 else (c.k,)
            for k in ks:
                v = self.known.get(mk(k, 1, a, b))
                if v is not None:
                    return v
                if self.known.get(mk(k, 1, b, a)) is True:
                    return False
            return None
        if c.k == "fcmp":
            return self.fdecide(c)
        if c.k == "and" and c.w == 1:
            vs = [self.decide(x) for x in c.a]
            if False in vs:
                return False
            if all(v is True for v in vs):
                return True
        if c.k == "or" and c.w == 1:
            vs = [self.decide(x) for x in c.a]
            if True in vs:
                return True
            if all(v is False for v in vs):
                return False
        if c.k == "zext" or c.k == "trunc":
            return None
        return None

    def assume(self, c, v):
        """add condition c == v; False if infeasible"""
        d = self.decide(c)
        if d is not None and d != v:
            return False
        if c.k == "not":
            return self.assume(c.a[0], not v)
        self.known[c] = v
        if c.k == "eq0":
            t = c.a[0]
            k, at = aslin(t)
            if len(at) == 1:
                (x, co), = at.items()
                if co in (1, -1):
                    val = signed(-k * co, t.w)
                    u = val & ((1 << t.w) - 1)
                    if v:
                        return self.setiv(x, slo=val, shi=val, ulo=u, uhi=u)
                    self.ne[x] = self.ne.get(x, frozenset()) | {val}
                    q = self.rng(x)
                    kw = {}
                    lo, hi = q[0], q[1]
                    while lo in self.ne[x] and lo <= hi:
                        lo += 1
                    while hi in self.ne[x] and lo <= hi:
                        hi -= 1
                    ok = self.setiv(x, slo=lo, shi=hi)
                    if not ok:
                        return False
                    q = self.rng(x)
                    if q[2] == u:
                        return self.setiv(x, ulo=u + 1)
                    if q[3] == u:
                        return self.setiv(x, uhi=u - 1)
        elif c.k in ("slt", "ult"):
            a, b = c.a
            ra, rb = self.rng(a), self.rng(b)
            s = c.k == "slt"
            if v:   # a < b
                if s:
                    return self.setiv(a, shi=rb[1] - 1) and self.setiv(b, slo=ra[0] + 1)
                return self.setiv(a, uhi=rb[3] - 1) and self.setiv(b, ulo=ra[2] + 1)
            if s:
                return self.setiv(a, slo=rb[0]) and self.setiv(b, shi=ra[1])
            return self.setiv(a, ulo=rb[2]) and self.setiv(b, uhi=ra[3])
        elif c.k == "fcmp":
            return self.fassume(c, v)
        elif c.k == "and" and c.w == 1 and v:
            return all(self.assume(x, True) for x in c.a)
        elif c.k == "or" and c.w == 1 and not v:
            return all(self.assume(x, False) for x in c.a)
        return True

    # ---- floating point intervals (atom versus constant only)
    def frng(self, t):
        if t.k == "fc":
            v = t.a[0]
            if v != v:
                return (1.0, False, 0.0, False, True)
            return (v, False, v, False, False)
        base = TOPF
        if t.k in ("sitofp", "uitofp"):
            q = self.rng(t.a[0])
            base = (float(q[0]), False, float(q[1]), False, False) if t.k == "sitofp" else (float(q[2]), False, float(q[3]), False, False)
        elif t.k in ROUNDS or t.k == "call" and t.a[0] in ROUNDS and len(t.a[1]) == 1:
            q = self.frng(t.a[0] if t.k in ROUNDS else t.a[1][0])
            if abs(q[0]) < 1e300:
                base = (float(math.floor(q[0])), False) + base[2:]
            if abs(q[2]) < 1e300:
                base = base[:2] + (float(math.ceil(q[2])), False) + base[4:]
            base = base[:4] + (q[4],)
        f = self.fiv.get(t)
        if f is None:
            return base
        lo, lop = max((base[0], base[1]), (f[0], f[1]))
        hi = min(base[2], f[2])
        hop = (base[3] if base[2] == hi else False) or (f[3] if f[2] == hi else False)
        return (lo, lop, hi, hop, base[4] and f[4])

    def fempty(self, r):
        return (r[0] > r[2] or (r[0] == r[2] and (r[1] or r[3]))) and not r[4]

    def frel(self, a, b):
        """possible order relations of two floating point terms"""
        r = FREL["true"] if a is not b else frozenset(("eq", "un"))
        r = r & self.fr.get((a, b), r)
        if FREL["uno"] in (self.fr.get((a, a)), self.fr.get((b, b))):
            return r & FREL["uno"]
        if not self.frng(a)[4] and not self.frng(b)[4]:
            r = r - {"un"}
        return r

    def fdecide(self, c):
        pred, a, b = c.a
        r, h = self.frel(a, b), FREL.get(pred)
        if h is not None:
            if r <= h:
                return True
            if not (r & h):
                return False
        ra, rb = self.frng(a), self.frng(b)
        if ra[4] or rb[4]:
            return None
        if self.fempty(ra) or self.fempty(rb):
            return None
        p = pred[1:]
        lt = ra[2] < rb[0] or (ra[2] == rb[0] and (ra[3] or rb[1]))
        le = ra[2] <= rb[0]
        gt = ra[0] > rb[2] or (ra[0] == rb[2] and (ra[1] or rb[3]))
        ge = ra[0] >= rb[2]
        if pred in ("ord",):
            return True
        if pred in ("uno",):
            return False
        if p == "lt":
            return True if lt else False if ge else None
        if p == "le":
            return True if le else False if gt else None
        if p == "gt":
            return True if gt else False if le else None
        if p == "ge":
            return True if ge else False if lt else None
        if p == "eq":
            if ra[0] == ra[2] == rb[0] == rb[2]:
                return True
            return False if lt or gt else None
        if p == "ne":
            if ra[0] == ra[2] == rb[0] == rb[2]:
                return False
            return True if lt or gt else None
        return None

    def fassume(self, c, v):
        pred, a, b = c.a
        h = FREL.get(pred)
        if h is not None:
            r = self.frel(a, b) & (h if v else FREL["true"] - h)
            if not r:
                return False
            self.fr[(a, b)] = r
            self.fr[(b, a)] = frozenset(FLIP[x] for x in r)
        FL = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
        if pred in ("ord", "uno"):
            isord = (pred == "ord") == v
            for x in (a, b):
                r = self.frng(x)
                if x.k != "fc":
                    self.fiv[x] = (r[0], r[1], r[2], r[3], False if isord else r[4])
            return True
        ordered = pred[0] == "o"
        p = pred[1:]
        # truth of an ordered comparison excludes NaN; falsity of an unordered one too
        nonan = (ordered and v) or (not ordered and not v)
        if not v:
            p = FL[p]
        for x, y, q in ((a, b, p), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p))):
            if x.k == "fc":
                continue
            r, o = self.frng(x), self.frng(y)
            lo, lop, hi, hop, nan = r
            if o[4]:
                # other side may be NaN: only the no-NaN reading gives bounds
                if not nonan:
                    continue
            if q == "lt" and o[2] < float("inf"):
                if o[2] < hi or (o[2] == hi and not hop):
                    hi, hop = o[2], True
            elif q == "le":
                if o[2] < hi:
                    hi, hop = o[2], o[3]
            elif q == "gt" and o[0] > float("-inf"):
                if o[0] > lo or (o[0] == lo and not lop):
                    lo, lop = o[0], True
            elif q == "ge":
                if o[0] > lo:
                    lo, lop = o[0], o[1]
            elif q == "eq":
                if o[0] > lo:
                    lo, lop = o[0], o[1]
                if o[2] < hi:
                    hi, hop = o[2], o[3]
            elif q == "ne":
                if o[0] == o[2] == lo and not lop:
                    lop = True
                if o[0] == o[2] == hi and not hop:
                    hop = True
            nan2 = nan and not nonan
            n = (lo, lop, hi, hop, nan2)
            if self.fempty(n):
                return False
            self.fiv[x] = n
        return True


def live_blocks(fn):
    """blocks from which the function can return normally"""
    live = set()
    st = [b.id for b in fn.blocks if b.term.op == "ret"]
    while st:
        x = st.pop()
        if x in live:
            continue
        live.add(x)
        st.extend(fn.blocks[x].pred)
    return live


def split(addr):
    """address term -> (root, offset); root has no constant part"""
    c, d = aslin(addr)
    return mklin(64, 0, d) if d else C(0, 64), c


def base_atoms(addr):
    c, d = aslin(addr)
    r = [x for x, k in d.items() if k == 1 and x.k in ("alloca", "glob", "arg", "ld", "call", "new", "fresh", "sel", "strdata", "vdata")]
    return r


class Path:
    """One abstract trace: how it ended, its effects, and its final state"""
    __slots__ = ("end", "ret", "st", "ins", "what")

    def __init__(self, end, st, ins, ret=None, what=None):
        self.end = end      # 'ret' | 'throw' | 'noreturn' | 'loop' | 'resume' | 'unreachable'
        self.st = st
        self.ins = ins
        self.ret = ret
        self.what = what

    @property
    def ev(self):
        return self.st.ev


class Ev:
    __slots__ = ("kind", "ins", "a", "res", "known_n", "loops", "snap")

    def __init__(self, kind, ins, a, res=None, loops=frozenset(), snap=None):
        self.kind, self.ins, self.a, self.res, self.loops, self.snap = kind, ins, a, res, loops, snap

    def __repr__(self):
        return "%s@%s%r" % (self.kind, self.ins.loc if self.ins else "?", self.a)


PURE = re.compile(
    r"^(strcmp|strncmp|strlen|memcmp|strchr|strcasecmp|isspace|isdigit|isalpha|isalnum|isprint|toupper|tolower|"
    r"lround|lrint|rint|round|floor|ceil|pow|exp|log|log10|fabs|trunc|nearbyint|sqrt|fmod|lround|llround|llrint|ldexp|scalbn|exp2|exp10|roundeven|htonl|ntohl|htons|ntohs|abs|labs|"
    r"__errno_location|__ctype_b_loc)$"
    r"|^std::__cxx11::basic_string<.*>::(size|length|empty|data|c_str|begin|end|cbegin|cend|back|front|operator\[\]|compare|find|rfind|find_first_of|substr)\b.*const$"
    r"|^(std::(round|floor|ceil|rint|lround|pow|abs|fabs|isnan|isfinite|isinf|log10|exp)\b)")

FFOLD = {"ldexp": lambda x, e: math.ldexp(x, e), "scalbn": lambda x, e: math.ldexp(x, e), "exp2": lambda x: 2.0 ** x, "pow": lambda x, y: x ** y, "powi": lambda x, y: x ** y,
         "exp10": lambda x: 10.0 ** x, "fabs": abs, "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)), "log10": math.log10,
         "rint": lambda x: float(round(x)), "nearbyint": lambda x: float(round(x)), "roundeven": lambda x: float(round(x)), "trunc": lambda x: float(math.trunc(x))}


def ffold(name, args):
    """library functions of constants"""
    f = FFOLD.get(name) or FFOLD.get(re.sub(r"^std::|\(.*$", "", name))
    if f is None or not args or not all(a.k in ("fc", "c") for a in args) or args[0].k != "fc":
        return None
    try:
        v = f(*[a.a[0] for a in args])
        return v if isinstance(v, float) else None
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        return None


ROUNDS = ("rint", "nearbyint", "roundeven", "round", "floor", "ceil", "trunc")

NEW = re.compile(r"^operator new(\[\])?\(")
DELETE = re.compile(r"^operator delete(\[\])?\(")


_cp = {}


def split_params(dem):
    """parameter type strings of a demangled signature (without 'this')"""
    from .ir import strip_args
    h = strip_args(dem)
    rest = dem[len(h):]
    if not rest.startswith("("):
        return None
    depth, cur, out = 0, "", []
    for c in rest[1:]:
        if c in "(<[":
            depth += 1
        elif c in ")>]":
            if c == ")" and depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def const_params(dem, nargs):
    """per argument: True when the callee receives it as const T& / const T*"""
    k = (dem, nargs)
    r = _cp.get(k)
    if r is None:
        r = [False] * nargs
        ps = split_params(dem) if dem else None
        if ps is not None and "..." not in ps:
            shift = nargs - len(ps)
            if shift in (0, 1):
                for j, p in enumerate(ps):
                    if re.search(r" const[&*]$", p):
                        r[j + shift] = True
        _cp[k] = r
    return r


def distinct(x, y):
    """addresses of different objects: a local or a new block against anything that existed before"""
    for a, b in ((x, y), (y, x)):
        if a.k in ("alloca", "new"):
            if b.k in ("arg", "glob"):
                return True
            if b.k in ("alloca", "new") and b is not a:
                return True
            if b.k == "ld" and b.a[1] == 0 and not any(z.k in ("alloca", "new", "fresh", "call") for z in atoms(b)):
                return True
    return False


class Restart(Exception):
    """a loop could not be followed iteration by iteration: treat it generically"""
    def __init__(self, header):
        self.header = header


class Interp:
    memset_max = 64

    def __init__(self, mod, fn, hooks=None, unwind=None, max_paths=4000, max_steps=2000000, pure=None, record_loads=False,
                 keep_loop_paths=True, record_conds=False, nohavoc=None, assume_nw=True, fork_select=True, unroll=0,
                 on_loop=None, on_havoc=None, generic=(), canon_bits=False, on_loop_exit=None, icall_pure=False,
                 fork_exits=False, stable=None, into=None):
        self.mod, self.fn = mod, fn
        self.into = re.compile(into) if isinstance(into, str) else into      # calls to follow into their target, by its name
        self.depth = 0
        self.kw = dict(unwind=unwind, max_paths=max_paths, max_steps=max_steps, record_loads=record_loads, keep_loop_paths=keep_loop_paths,
                       assume_nw=assume_nw, fork_select=fork_select, unroll=unroll, on_loop=on_loop, on_havoc=on_havoc, canon_bits=canon_bits,
                       on_loop_exit=on_loop_exit, icall_pure=icall_pure, fork_exits=fork_exits, stable=stable, into=self.into)
        self.hooks = [(re.compile(p), h) for p, h in (hooks or [])]
        self.unwind = unwind
        self.max_paths, self.max_steps = max_paths, max_steps
        self.pure = re.compile(pure) if pure else None
        self.nohavoc = re.compile(nohavoc) if nohavoc else None
        self.paths = []
        self.steps = 0
        self.ptr = set()
        self.record_loads = record_loads
        self.keep_loop_paths = keep_loop_paths
        self.assume_nw = assume_nw
        self.fork_select = fork_select
        self.unknown_ops = set()
        self.freshctr = 0
        self.unroll = unroll
        self.generic = set(generic)
        self.vary = set()
        self._refs = {}
        self.on_loop = on_loop
        self.on_loop_exit = on_loop_exit
        self.canon_bits = canon_bits
        self.icall_pure = icall_pure
        self.fork_exits = fork_exits
        self.on_havoc = on_havoc
        self.stable = stable        # memory that no call changes

    # ---- terms
    def fresh(self, w, tag):
        self.freshctr += 1
        return mk("fresh", w, "%s.%d" % (tag, self.freshctr))

    def const(self, s, ty):
        w = width(ty)
        if s == "null":
            return C(0, 64)
        if s[0] == "#":
            return C(int(s[1:]), w if isinstance(w, int) else 64)
        if s[0] == "F":
            return mk("fc", w, float(s[1:]))
        if s[0] == "@":
            n, _, o = s[1:].partition("+")
            g = mk("glob", 64, n)
            return add(g, C(int(o), 64)) if o else g
        if s == "undef":
            return mk("undef", w)
        if s == "zero":
            return mk("zero", w)
        return mk("opaque", w, s)

    def val(self, st, s, ty):
        if s[0] == "%":
            v = st.env.get(int(s[1:]))
            if v is None:
                v = mk("undef", width(ty), s)
            return v
        if s[0] == "$":
            return self.args[int(s[1:])]
        return self.const(s, ty)

    def resize(self, st, k, t, w):
        """casts with simplification"""
        if t.w == w:
            return t
        if t.k == "undef":
            return mk("undef", w)
        if isc(t):
            if k == "zext":
                return C(uval(t), w)
            return C(t.a[0], w)
        if k == "trunc":
            if t.k in ("zext", "sext"):
                x = t.a[0]
                if x.w == w:
                    return x
                if x.w < w:
                    return self.resize(st, t.k, x, w)
                return self.resize(st, "trunc", x, w)
            if t.k == "trunc":
                return self.resize(st, "trunc", t.a[0], w)
            if t.k == "bits":
                return frombits(self, st, bits(t)[:w])
            if t.k == "lin" and st.rng(t)[3] < (1 << w):
                return mk("trunc", w, t)     # value preserving: undone by a later zext
            if t.k == "lin":
                d = {}
                c = t.a[0]
                for x, co in t.a[1]:
                    y = self.resize(st, "trunc", x, w)
                    c2, d2 = aslin(y)
                    c += co * c2
                    for z, v in d2.items():
                        d[z] = d.get(z, 0) + co * v
                return mklin(w, c, d)
            if t.k in ("and", "or", "xor"):
                return self.binop(st, t.k, self.resize(st, "trunc", t.a[0], w), self.resize(st, "trunc", t.a[1], w))
            if t.k == "shl" and isc(t.a[1]) and uval(t.a[1]) < w:
                return self.binop(st, "shl", self.resize(st, "trunc", t.a[0], w), C(t.a[1].a[0], w))
            if w == 1:
                pass
            return mk("trunc", w, t)
        if k == "zext":
            if t.k == "zext":
                return self.resize(st, "zext", t.a[0], w)
            if t.k == "trunc" and isinstance(t.a[0].w, int) and st.rng(t.a[0])[3] < (1 << t.w):
                x = t.a[0]
                return x if x.w == w else self.resize(st, "zext" if x.w < w else "trunc", x, w)
            if t.k == "lin":
                # distribute when no wrap is possible
                lo = hi = t.a[0]
                for x, co in t.a[1]:
                    r = st.rng(x)
                    lo += co * (r[2] if co > 0 else r[3])
                    hi += co * (r[3] if co > 0 else r[2])
                if lo >= 0 and hi < (1 << t.w):
                    r = C(t.a[0], w)
                    for x, co in t.a[1]:
                        r = add(r, scale(self.resize(st, "zext", x, w), co))
                    return r
            return mk("zext", w, t)
        if k == "sext":
            if t.k == "sext":
                return self.resize(st, "sext", t.a[0], w)
            if t.k == "trunc" and isinstance(t.a[0].w, int) and t.w > 1:
                q = st.rng(t.a[0])
                if q[0] >= -(1 << (t.w - 1)) and q[1] < 1 << (t.w - 1):
                    x = t.a[0]
                    return x if x.w == w else self.resize(st, "sext" if x.w < w else "trunc", x, w)
            if t.k == "zext":
                return self.resize(st, "zext", t.a[0], w)
            if t.w > 1 and st.rng(t)[0] >= 0:
                return self.resize(st, "zext", t, w)
            if t.k == "lin":
                lo = hi = t.a[0]
                for x, co in t.a[1]:
                    r = st.rng(x)
                    lo += co * (r[0] if co > 0 else r[1])
                    hi += co * (r[1] if co > 0 else r[0])
                if lo >= -(1 << (t.w - 1)) and hi < (1 << (t.w - 1)):
                    r = C(t.a[0], w)
                    for x, co in t.a[1]:
                        r = add(r, scale(self.resize(st, "sext", x, w), co))
                    return r
            return mk("sext", w, t)
        raise AssertionError(k)

    def nowrap(self, st, t):
        """the linear form does not wrap as an unsigned number"""
        lo = hi = t.a[0]
        for x, co in t.a[1]:
            r = st.rng(x)
            lo += co * (r[2] if co > 0 else r[3])
            hi += co * (r[3] if co > 0 else r[2])
        return lo >= 0 and hi < (1 << t.w)

    def binop(self, st, op, a, b):
        w = a.w
        if a.k == "undef" or b.k == "undef":
            return mk("undef", w)
        if op == "add":
            return add(a, b)
        if op == "sub":
            return sub(a, b)
        if op == "mul":
            if isc(a):
                return scale(b, a.a[0])
            if isc(b):
                return scale(a, b.a[0])
        if isc(a) and isc(b):
            x, y = a.a[0], b.a[0]
            ux, uy = uval(a), uval(b)
            try:
                if op == "and": return C(x & y, w)
                if op == "or": return C(x | y, w)
                if op == "xor": return C(x ^ y, w)
                if op == "shl": return C(x << uy, w) if uy < w else mk("undef", w)
                if op == "lshr": return C(ux >> uy, w) if uy < w else mk("undef", w)
                if op == "ashr": return C(x >> uy, w) if uy < w else mk("undef", w)
                if op == "udiv": return C(ux // uy, w)
                if op == "urem": return C(ux % uy, w)
                if op == "sdiv":
                    q = abs(x) // abs(y)
                    return C(q if (x < 0) == (y < 0) else -q, w)
                if op == "srem":
                    r = abs(x) % abs(y)
                    return C(-r if x < 0 else r, w)
            except ZeroDivisionError:
                return mk("undef", w)
        if op in ("and", "or", "xor", "mul") and (isc(a) or (not isc(b) and a.n > b.n)):
            a, b = b, a
        if isc(b) and op == "urem" and b.a[0] > 1 and b.a[0] & (b.a[0] - 1) == 0:
            op, b = "and", C(b.a[0] - 1, w)
        if op in ("udiv", "urem", "sdiv", "srem") and isc(b) and b.a[0] > 1:
            # (c * x + y) / c with 0 <= y < c
            t = a
            if t.k == "trunc" and isinstance(t.a[0].w, int) and st.rng(t.a[0])[0] >= 0 and st.rng(t.a[0])[1] < 1 << (w - 1):
                t = t.a[0]
            if t.k == "lin" and st.rng(t)[0] >= 0 and (op[0] == "u" or st.rng(t)[1] < 1 << (w - 1)):
                c = b.a[0]
                q = mklin(t.w, t.a[0] // c, {x: v // c for x, v in t.a[1] if v % c == 0})
                r = mklin(t.w, t.a[0] % c, {x: v for x, v in t.a[1] if v % c})
                rr, rq = st.rng(r), st.rng(q)
                if (t.a[0] >= c or any(v % c == 0 for _, v in t.a[1])) and 0 <= rr[0] and rr[1] < c and 0 <= rq[0] and rq[1] * c + rr[1] < 1 << (t.w - 1):
                    x = q if op.endswith("div") else r
                    return x if t.w == w else self.resize(st, "trunc", x, w)
        if isc(b):
            c = b.a[0]
            if op == "and":
                if c == 0: return C(0, w)
                if c == -1: return a
                if c == 1 and w > 1:
                    p = parity(a)
                    return C(p, w) if isinstance(p, int) else mk("zext", w, p)
                if a.k == "zext":
                    iw = a.a[0].w
                    m = uval(b)
                    if m & ((1 << iw) - 1) == (1 << iw) - 1:
                        return a
                    if w > 1:
                        return self.resize(st, "zext", self.binop(st, "and", a.a[0], C(m, iw)), w)
            elif op == "or":
                if c == 0: return a
                if c == -1: return b
            elif op == "xor":
                if c == 0: return a
                if w == 1: return self.neg(a)
            elif op in ("shl", "lshr", "ashr"):
                if c == 0: return a
                if op == "shl" and 0 < c < w:
                    if w > 1 and st.rng(a)[3] << c < (1 << (w - 1)):
                        return scale(a, 1 << c)
                    if a.k == "shl" and isc(a.a[1]):
                        c2 = uval(a.a[1]) + c
                        return mk("shl", w, a.a[0], C(c2, w)) if c2 < w else C(0, w)
                    return mk("shl", w, a, b)
                if op == "ashr" and st.rng(a)[0] >= 0:
                    op = "lshr"
                # exact shift of a scaled linear form: (2^c * x) >> c (element counts)
                if a.k == "lin" and all(v % (1 << c) == 0 for _, v in a.a[1]) and a.a[0] % (1 << c) == 0 and 0 < c < w:
                    return mklin(w, a.a[0] >> c, {x: v >> c for x, v in a.a[1]})
            elif op in ("udiv", "sdiv"):
                if c == 1: return a
                r = st.rng(a)
                if op == "sdiv" and r[0] >= 0 and c > 0:
                    op = "udiv"
                if op == "udiv" and c > 0:
                    q = (r[2] // c, r[3] // c)
                    if q[0] == q[1]:
                        return C(q[0], w)
                    if a.k == "lin" and self.nowrap(st, a):
                        # (c*x + k) / c == x + k/c
                        if all(v % c == 0 for _, v in a.a[1]):
                            return mklin(w, a.a[0] // c, {x: v // c for x, v in a.a[1]})
            elif op in ("urem", "srem"):
                r = st.rng(a)
                if op == "srem" and r[0] >= 0 and c > 0:
                    op = "urem"
                if op == "urem" and c > 0:
                    q = (r[2] // c, r[3] // c)
                    if q[0] == q[1]:
                        return sub(a, C(q[0] * c, w))
                    if a.k == "lin" and self.nowrap(st, a) and all(v % c == 0 for _, v in a.a[1]):
                        return C(a.a[0] % c, w)
        if op in ("and", "or") and a is b:
            return a
        if op == "xor" and a is b:
            return C(0, w)
        if op == "or" and w > 1:
            # disjoint bits: keep as addition so that byte concatenations normalise
            pass
        return mk(op, w, a, b)

    def canon(self, st, t):
        """a value re-assembled from consecutive bits of one atom is that atom"""
        w = t.w
        if not isinstance(w, int) or w < 8 or t.k not in ("or", "lin", "and", "lshr", "zext", "trunc", "sel", "xor"):
            return t
        b = bits(t)
        if t.k in ("sel", "or", "xor") and None not in b and not any(isinstance(x, tuple) and x[0] is t for x in b):
            return frombits(self, st, b)
        lead = 0
        while lead < w and b[lead] == 0:
            lead += 1
        if lead:
            # 2^lead * y
            if lead == w:
                return C(0, w)
            f = b[lead]
            if not isinstance(f, tuple) or f[0] is t or not isinstance(f[0].w, int):
                return t
            x, lo = f
            n = 0
            while lead + n < w and b[lead + n] == (x, lo + n):
                n += 1
            if any(z != 0 for z in b[lead + n:]) or lo + n > x.w or t.k == "lin":
                return t
            y = self.binop(st, "lshr", x, C(lo, x.w)) if lo else x
            if lo + n < x.w and st.rng(x)[3] >= (1 << (lo + n)):
                y = mk("trunc", n, y) if n < y.w else y
            y = y if y.w == w else self.resize(st, "zext" if y.w < w else "trunc", y, w)
            return self.binop(st, "shl", y, C(lead, w))
        f = b[0]
        if not isinstance(f, tuple) or f[0] is t:
            return t
        x, lo = f
        if not isinstance(x.w, int):
            return t
        n = 0
        while n < w and b[n] == (x, lo + n):
            n += 1
        if any(z != 0 for z in b[n:]):
            return t
        if lo + n > x.w:
            return t
        if lo + n < x.w and st.rng(x)[3] >= (1 << (lo + n)):
            if n < w or lo:
                y = self.binop(st, "lshr", x, C(lo, x.w)) if lo else x
                y = mk("trunc", n, y) if n < x.w else y
                return y if n == w else mk("zext", w, y)
            return mk("trunc", w, x) if x.w > w else t
        y = self.binop(st, "lshr", x, C(lo, x.w)) if lo else x
        return y if y.w == w else self.resize(st, "zext" if y.w < w else "trunc", y, w)

    def neg(self, c):
        if c.k == "not":
            return c.a[0]
        if isc(c):
            return C(0 if c.a[0] else 1, 1)
        return mk("not", 1, c)

    def icmp(self, st, pred, a, b):
        if pred == "ne":
            return self.neg(self.icmp(st, "eq", a, b))
        if pred == "eq":
            return self.mkeq(st, a, b)
        m = {"sgt": ("slt", 1), "ugt": ("ult", 1), "sle": ("slt", 2), "ule": ("ult", 2), "sge": ("slt", 3), "uge": ("ult", 3),
             "slt": ("slt", 0), "ult": ("ult", 0)}
        k, how = m[pred]
        if how in (1, 2):
            a, b = b, a
        t = self.mklt(st, k, a, b)
        return self.neg(t) if how in (2, 3) else t

    def mkeq(self, st, a, b):
        d = sub(a, b)
        if isc(d):
            return C(1 if d.a[0] == 0 else 0, 1)
        if d.k == "and" and isc(d.a[1]) and d.w > 1:
            m = uval(d.a[1])
            if m & (m - 1) == 0:
                bt = bits(d.a[0])[m.bit_length() - 1]
                if bt == 0:
                    return C(1, 1)
                if bt == 1:
                    return C(0, 1)
                if bt is not None:
                    return self.neg(mk("bit", 1, bt[0], bt[1]))
        k, at = aslin(d)
        if len(at) == 1:
            (x, co), = at.items()
            if co in (1, -1):
                v = signed(-k * co, d.w)
                if x.k == "arg" and x.a[0] == -1 and x.w == 64 and 0 < abs(v) < 1 << 24 and (isc(a) or isc(b)) and st.known.get(mk("eq0", 1, x)) is False:
                    return C(0, 1)           # inside an object, not null
                if x.w == 1:
                    return x if v else self.neg(x)
                if x.k in ("zext", "sext"):
                    y = x.a[0]
                    lo, hi = (0, (1 << y.w) - 1) if x.k == "zext" else (-(1 << (y.w - 1)), (1 << (y.w - 1)) - 1)
                    if y.w == 1 and x.k == "zext":
                        if v == 1: return y
                        if v == 0: return self.neg(y)
                    if not (lo <= v <= hi):
                        return C(0, 1)
                    return self.mkeq(st, y, C(v, y.w))
                return mk("eq0", 1, mklin(d.w, -v, {x: 1}))
        # difference of two zext of the same width
        if len(at) == 2 and k == 0:
            (x, cx), (y, cy) = sorted(at.items(), key=lambda q: q[0].n)
            if cx == -cy and x.k == y.k and x.k in ("zext", "sext") and x.a[0].w == y.a[0].w:
                return self.mkeq(st, x.a[0], y.a[0])
        # sign-normalise
        first = min(at, key=lambda x: x.n)
        if at[first] < 0:
            d = scale(d, -1)
        return mk("eq0", 1, d)

    def mklt(self, st, k, a, b):
        if a is b:
            return C(0, 1)
        # strip equal zero extensions
        if a.k == "zext" and b.k == "zext" and a.a[0].w == b.a[0].w:
            return self.mklt(st, "ult", a.a[0], b.a[0])
        if a.k == "sext" and b.k == "sext" and a.a[0].w == b.a[0].w and k == "slt":
            return self.mklt(st, "slt", a.a[0], b.a[0])
        ra, rb = st.rng(a), st.rng(b)
        if k == "ult" and ra[0] >= 0 and rb[0] >= 0:
            k = "slt"
        i = 0 if k == "slt" else 2
        if ra[i + 1] < rb[i]:
            return C(1, 1)
        if ra[i] >= rb[i + 1]:
            return C(0, 1)
        return mk(k, 1, a, b)

    # ---- memory
    def ginit(self, addr, size, ty):
        """value of a constant global at a constant offset"""
        root, off = split(addr)
        if root.k != "glob":
            return None
        g = self.mod.globals.get(root.a[0])
        if not g or not g.get("const") or "init" not in g:
            return None
        i = g["init"]
        if isinstance(i, dict) and "str" in i:
            if size == 1 and 0 <= off < len(i["str"]):
                return C(ord(i["str"][off]), 8)
            return None
        if i == "zero":
            return C(0, size * 8) if ty not in ("double", "float") else mk("fc", width(ty), 0.0)
        if isinstance(i, str):
            if off == 0:
                return self.const(i, ty)
            return None
        if isinstance(i, list):
            m = re.match(r"\[(\d+) x (i\d+|ptr|double)\]", g["ty"])
            if m:
                es = SIZE.get(m.group(2))
                if es and es == size and off % es == 0 and 0 <= off // es < len(i) and isinstance(i[off // es], str):
                    return self.const(i[off // es], ty)
        # aggregates, by the layout of their fields
        fl = g.get("flat")
        if fl is not None:
            if "_flat" not in g:
                g["_flat"] = {e[0]: (e[1], e[2]) for e in fl if e[2] != "zero"}, [(e[0], e[0] + e[1]) for e in fl if e[2] == "zero"]
            e = g["_flat"][0].get(off)
            if e and e[0] == size:
                return self.const(e[1], ty)
            if any(lo <= off and off + size <= hi for lo, hi in g["_flat"][1]):
                return C(0, size * 8) if ty not in ("double", "float") else mk("fc", width(ty), 0.0)
        return None

    def load(self, st, addr, ty, size):
        root, off = split(addr)
        d = st.mem.get(root)
        w = width(ty)
        if d:
            e = d.get(off)
            if e and e[1] == size:
                v = e[0]
                return self.retype(st, v, w)
            # contained in a larger entry
            for o, (v, s) in d.items():
                if o <= off and off + size <= o + s and isinstance(v.w, int) and v.w == 8 * s and isinstance(w, int):
                    sh = 8 * (off - o)
                    x = self.binop(st, "lshr", v, C(sh, v.w)) if sh else v
                    return self.resize(st, "trunc", x, size * 8) if size < s else x
            # assembled from smaller entries
            if isinstance(w, int) and size in (2, 4, 8):
                parts, p = [], off
                while p < off + size:
                    e = d.get(p)
                    if not e or not isinstance(e[0].w, int) or p + e[1] > off + size or e[0].w != 8 * e[1]:
                        parts = None
                        break
                    parts.append((p - off, e[0]))
                    p += e[1]
                if parts:
                    v = C(0, w)
                    for sh, x in parts:
                        y = self.resize(st, "zext", x, w)
                        v = add(v, scale(y, 1 << (8 * sh)))
                    return v
        gi = self.ginit(addr, size, ty)
        if gi is None and size == 1:
            gi = self.tabulated(st, addr)
        if gi is not None:
            return gi
        cp = st.copies.get(root)
        if cp:
            for (doff, n, saddr, smem, sep) in reversed(cp):
                if doff <= off and off + size <= doff + n:
                    tmp = State()
                    tmp.mem, tmp.epoch, tmp.copies, tmp.iv = smem, sep, {}, st.iv
                    v = self.load(tmp, add(saddr, C(off - doff, 64)), ty, size)
                    return v
        ep = 0
        for b in base_atoms(addr):
            ep = max(ep, st.epoch.get(b, 0))
        ep = max(ep, st.epoch.get("*", 0)) if not (root.k == "alloca") else ep
        wid = w if not (w == 1) else 8
        t = mk("ld", w, addr, ep)
        if ty == "ptr":
            self.ptr.add(t)
        return t

    def tabulated(self, st, addr):
        """the byte of a constant table at an index that takes few values, when it is a linear function of what the index is made of"""
        if addr.k != "lin":
            return None
        gs = [(x, c) for x, c in addr.a[1] if x.k == "glob"]
        xs = [(x, c) for x, c in addr.a[1] if x.k != "glob"]
        if len(gs) != 1 or gs[0][1] != 1 or not xs or len(xs) > 3 or not self.mod.globals.get(gs[0][0].a[0], {}).get("const"):
            return None
        rs, n = [], 1
        for x, c in xs:
            r = st.rng(x)
            if r[0] < 0:
                return None
            rs.append((r[0], r[1]))
            n *= r[1] - r[0] + 1
            if n > 1024:
                return None

        def at(vs):
            v = self.ginit(add(gs[0][0], C(addr.a[0] + sum(c * k for (_, c), k in zip(xs, vs)), 64)), 1, "i8")
            return None if v is None or not isc(v) else uval(v)
        lo = [r[0] for r in rs]
        base = at(lo)
        if base is None:
            return None
        co = []
        for j, r in enumerate(rs):
            nx = list(lo)
            nx[j] += 1
            y = at(nx) if r[1] > r[0] else base
            if y is None:
                return None
            co.append(y - base)
        for vs in itertools.product(*(range(a, b + 1) for a, b in rs)):
            if at(vs) != base + sum(c * (k - l) for c, k, l in zip(co, vs, lo)):
                return None
        v = C(base - sum(c * l for c, l in zip(co, lo)), 8)
        for (x, _), c in zip(xs, co):
            v = add(v, scale(self.resize(st, "trunc", x, 8), c))
        return v

    def retype(self, st, v, w):
        if v.w == w:
            return v
        if isinstance(v.w, int) and isinstance(w, int):
            if w < v.w:
                return self.resize(st, "trunc", v, w)
            return self.resize(st, "zext", v, w)
        return mk("bitcast", w, v)

    def store(self, st, addr, v, size):
        root, off = split(addr)
        d = st.mem.setdefault(root, {})
        for o in [o for o, (x, s) in d.items() if o < off + size and off < o + s]:
            if o == off and d[o][1] == size:
                continue
            x, s = d[o]
            del d[o]
            # keep the bytes that are not overwritten
            if isinstance(x.w, int) and x.w == 8 * s:
                for k in range(s):
                    if not (off <= o + k < off + size):
                        b = self.resize(st, "trunc", self.binop(st, "lshr", x, C(8 * k, x.w)) if k else x, 8)
                        d[o + k] = (b, 1)
        d[off] = (v, size)
        if root in st.copies:
            pass
        # may alias with a different index of the same object
        if root.k == "lin":
            bs = set(base_atoms(addr))
        else:
            bs = {root}
        for r in list(st.mem):
            if r is root:
                continue
            rb = set(base_atoms(r)) if r.k == "lin" else {r}
            if rb & bs:
                if root.k == "lin" or r.k == "lin":
                    # same object, unknown distance: forget the other entries of unknown overlap
                    if self.same_array(root, r):
                        del st.mem[r]

    def same_array(self, a, b):
        return True

    def ref_fields(self, base):
        """offsets of C++ reference members of a local object: never rebound"""
        if base.k != "alloca":
            return ()
        r = self._refs.get(base)
        if r is None:
            i = self.fn.ins.get(base.a[0])
            n, t = self.mod.struct(i.get("aty", "")) if i is not None and isinstance(i.get("aty"), str) else ("", None)
            r = self._refs[base] = {o for o, sz, nm, ty in self.mod.fields(n) if ty.endswith("&")} if t else set()
        return r

    def havoc(self, st, base):
        if self.stable and self.stable(base):
            return
        if self.on_havoc:
            self.on_havoc(self, st, base)
        refs = self.ref_fields(base)
        for r in list(st.mem):
            if r is base or (r.k == "lin" and base in [x for x, _ in r.a[1]]):
                kept = {o: e for o, e in st.mem[r].items() if o in refs} if r is base and refs else None
                del st.mem[r]
                if kept:
                    st.mem[r] = kept
        for r in list(st.copies):
            if r is base or (r.k == "lin" and base in [x for x, _ in r.a[1]]):
                del st.copies[r]
        st.seq += 1
        st.epoch[base] = st.seq

    # ---- driver
    def run(self, args=None, init=None):
        fn = self.fn
        self.args = []
        for i, a in enumerate(fn.args):
            t = None
            if args and i in args:
                t = args[i]
            if t is None:
                t = mk("arg", width(a["ty"]), i, a["n"] or "arg%d" % i)
            if a["ty"] == "ptr":
                self.ptr.add(t)
            self.args.append(t)
        loops = fn.loops()
        self.loop_of = loops
        self.live = live_blocks(fn)
        self.loops_at = {}
        for h, body in loops.items():
            for b in body:
                self.loops_at.setdefault(b, []).append(h)
        while True:
            try:
                return self._run(fn, init)
            except Restart as r:
                # an inner loop nested in a generic one restarts too, if needed
                if r.header is not None:
                    self.generic.add(r.header)
                self.paths = []

    def _run(self, fn, init):
        st = State()
        if init:
            init(self, st)
        work = [(st, 0, None)]
        while work:
            st, bid, prev = work.pop()
            self.block(st, bid, prev, work)
            if len(self.paths) > self.max_paths:
                raise ToolError("too many abstract traces in %s" % fn.where)
            if self.steps > self.max_steps:
                raise ToolError("too many steps in %s" % fn.where)
        return self.paths

    def check_unrolled(self, bid, succs):
        """an undecided branch that may leave an unrolled loop makes that loop generic"""
        if not self.unroll or self.fork_exits:
            return
        hs = [h for h in self.loops_at.get(bid, ()) if h not in self.generic]
        for h in sorted(hs, key=lambda h: len(self.loop_of[h])):
            for s in succs:
                if s not in self.loop_of[h] and s in self.live:
                    raise Restart(h)

    FRAME = ("iter", "phi0", "slot", "kphi")

    def call_into(self, st, g, args, i, b, idx, work):
        """the target of a call is interpreted from the state at the call; every trace of it goes on after the call"""
        if self.depth > 24:
            raise ToolError("calls nested too deep at %s" % i.loc)
        sub = type(self)(self.mod, g, **self.kw)
        sub.hooks, sub.pure, sub.nohavoc, sub.ptr, sub.depth = self.hooks, self.pure, self.nohavoc, self.ptr, self.depth + 1
        sub.freshctr = self.freshctr
        sub.root = getattr(self, "root", self)
        self.entering(sub)
        nev = len(st.ev)
        env, loops = st.env, st.loops
        frame = {k: v for k, v in st.objs.items() if isinstance(k, tuple) and k[0] in self.FRAME}

        def init(I, s):
            f = st.fork()
            for k in State.__slots__:
                setattr(s, k, getattr(f, k))
            s.env, s.loops = {}, frozenset()
            for k in frame:
                del s.objs[k]
            if len(args) > len(g.args):
                s.objs[("va",)] = tuple(args[len(g.args):])
        ps = sub.run(args=dict(enumerate(args)), init=init)
        self.freshctr = sub.freshctr
        self.steps += sub.steps
        for p in ps:
            s = p.st
            for k in [k for k in s.objs if isinstance(k, tuple) and k[0] in self.FRAME]:
                del s.objs[k]
            s.objs.update(frame)
            s.env, s.loops = dict(env), loops
            if loops:
                for e in s.ev[nev:]:
                    e.loops = e.loops | loops
            if p.end != "ret":
                self.finish(p.end, s, p.ins, what=p.what)
                continue
            if p.ret is not None:
                s.env[i.id] = p.ret
            if i.op == "invoke":
                work.append((s, i.d["normal"], b.id))
            else:
                r = self.straight(s, b, idx + 1, work)
                if r is not None:
                    work.append((s, r, b.id))
        return "end"

    def entering(self, sub):
        pass

    def target(self, cv):
        if cv.k == "glob" and self.into:
            g = self.mod.fns.get(self.mod.aliases.get(cv.a[0], cv.a[0]))
            if g is not None and self.into.search(g.dem):
                return g
        return None

    def finish(self, end, st, ins, ret=None, what=None):
        self.paths.append(Path(end, st, ins, ret, what))

    def enter_loop(self, st, header):
        """forget everything a loop may change; one generic iteration follows"""
        body = self.loop_of[header]
        fn = self.fn
        for b in body:
            for i in fn.blocks[b].ins:
                if i.op == "store":
                    a = self.addr_in_loop(st, i.a[1], body)
                    if a is not None:
                        root, off = split(a)
                        d = st.mem.setdefault(root, {})
                        size = SIZE.get(i.get("oty"), 8)
                        cur = d.get(off)
                        if cur and cur[1] == size and isc(cur[0]) and (header, root, off) not in self.vary:
                            st.objs[("slot", header, root, off)] = cur[0]
                            continue
                        for o in [o for o, (x, s) in d.items() if o < off + size and off < o + s]:
                            del d[o]
                        v = self.fresh(width(i.get("oty")), "loopmem")
                        if i.get("oty") == "ptr":
                            self.ptr.add(v)
                        d[off] = (v, size)
                    else:
                        b0 = self.base_in_loop(st, i.a[1], body)
                        if b0 is not None:
                            self.havoc(st, b0)
                elif i.op in ("call", "invoke"):
                    self.call_havoc(st, i, body)

    def back_edge(self, st, bid, prev):
        pass

    def loop_head(self, st, bid):
        """start of an iteration of an unrolled loop; true to go no further"""
        return False

    def alternatives(self, st, alts, i, b, idx, work):
        """a call with several outcomes: each goes on after the call"""
        for alt in alts:
            s = st.fork()
            r = alt(self, s)
            if r is False:
                continue
            if isinstance(r, T):
                s.env[i.id] = r
            if i.op == "invoke":
                work.append((s, i.d["normal"], b.id))
            else:
                r = self.straight(s, b, idx + 1, work)
                if r is not None:
                    work.append((s, r, b.id))
        return "end"

    def loop_phi(self, st, bid, p, v0):
        return None

    def addr_in_loop(self, st, op, body):
        """address term if it is loop invariant"""
        if op[0] != "%":
            return self.val(st, op, "ptr")
        i = self.fn.ins[int(op[1:])]
        if i.blk.id not in body:
            return st.env.get(i.id)
        if i.op == "getelementptr" and "off" in i.d:
            b = self.addr_in_loop(st, i.a[0], body)
            return None if b is None else add(b, C(i.d["off"], 64))
        if i.op == "load":
            a = self.addr_in_loop(st, i.a[0], body)
            if a is None:
                return None
            # the slot must not be written in the loop
            for bb in body:
                for j in self.fn.blocks[bb].ins:
                    if j.op == "store":
                        aj = self.addr_in_loop(st, j.a[1], body) if j.a[1] != op else None
                        if aj is a:
                            return None
            return self.load(st, a, i.ty, SIZE.get(i.ty, 8))
        return None

    def base_in_loop(self, st, op, body, depth=0):
        if depth > 30:
            return None
        if op[0] != "%":
            bs = base_atoms(self.val(st, op, "ptr"))
            return bs[0] if bs else None
        i = self.fn.ins[int(op[1:])]
        if i.blk.id not in body:
            v = st.env.get(i.id)
            if v is None:
                return None
            bs = base_atoms(v)
            return bs[0] if bs else None
        if i.op in ("getelementptr", "bitcast"):
            return self.base_in_loop(st, i.a[0], body, depth + 1)
        if i.op == "phi":
            for o, b in i.d["inc"]:
                if o == "%%%d" % i.id:
                    continue
                r = self.base_in_loop(st, o, body, depth + 1)
                if r is not None:
                    return r
        if i.op == "load":
            a = self.addr_in_loop(st, i.a[0], body)
            if a is not None:
                bs = base_atoms(self.load(st, a, "ptr", 8))
                return bs[0] if bs else None
        return None

    def is_pure(self, name):
        return bool(PURE.search(name) or (self.pure and self.pure.search(name)))

    def call_havoc(self, st, i, body=None):
        name = i.callee or ""
        if name.startswith("llvm.") and not name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
            return
        if self.is_pure(name) or i.get("noreturn"):
            return
        if self.nohavoc and self.nohavoc.search(name):
            return
        if DELETE.search(name) or NEW.search(name):
            return
        if body is not None:
            for p, h in self.hooks:
                if p.search(name):
                    le = getattr(h, "loop_effect", None)
                    if le:
                        le(self, st)
                    return
        cp = const_params(name, len(i.a))
        for j, (o, ty) in enumerate(zip(i.a, i.get("aty", []))):
            if ty != "ptr" or cp[j]:
                continue
            if name.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")) and j == 1:
                continue
            if body is not None:
                b = self.base_in_loop(st, o, body)
                bs = [b] if b is not None else []
            else:
                bs = base_atoms(self.val(st, o, "ptr"))
            for b in bs:
                if j == 0 and re.search(r"\) const$", name):
                    continue
                self.havoc(st, b)

    def leave_loops(self, st, bid):
        if st.loops:
            left = [h for h in st.loops if bid not in self.loop_of[h]]
            if left:
                st.loops = frozenset(h for h in st.loops if bid in self.loop_of[h])
                if self.on_loop_exit:
                    for h in sorted(left, key=lambda h: len(self.loop_of[h])):
                        self.on_loop_exit(self, st, h)

    def block(self, st, bid, prev, work):
        fn = self.fn
        while True:
            b = fn.blocks[bid]
            # loop entry / back edge
            if bid in self.loop_of and self.unroll and bid not in self.generic:
                body = self.loop_of[bid]
                n = st.objs.get(("iter", bid), 0) + 1 if prev in body else 0
                if n > self.unroll:
                    raise Restart(bid)
                st.objs[("iter", bid)] = n
                self.leave_loops(st, bid)
                phis = [i for i in b.ins if i.op == "phi"]
                vals = []
                for i in phis:
                    for o, pb in i.d["inc"]:
                        if pb == prev:
                            vals.append((i.id, self.val(st, o, i.ty)))
                            break
                for i, v in vals:
                    st.env[i] = v
                start = len(phis)
                if self.loop_head(st, bid):
                    return
            elif bid in self.loop_of:
                body = self.loop_of[bid]
                if prev in body and bid in st.loops:
                    for k, v in st.objs.items():
                        if k[0] == "slot" and k[1] == bid:
                            now = st.mem.get(k[2], {}).get(k[3])
                            if not now or now[0] is not v:
                                self.vary.add((bid, k[2], k[3]))
                                raise Restart(None)
                        elif k[0] == "kphi" and k[1] == bid:
                            for o, pb in fn.ins[k[2]].d["inc"]:
                                if pb == prev and self.val(st, o, fn.ins[k[2]].ty) is not v:
                                    self.vary.add((bid, k[2]))
                                    raise Restart(None)
                    self.back_edge(st, bid, prev)
                    if self.keep_loop_paths:
                        self.finish("loop", st, b.ins[0], what=bid)
                    return
                self.leave_loops(st, bid)
                phis = [i for i in b.ins if i.op == "phi"]
                # initial values for lower bounds
                ini = {}
                for p in phis:
                    for o, pb in p.d["inc"]:
                        if pb == prev:
                            ini[p.id] = self.val(st, o, p.ty)
                self.enter_loop(st, bid)
                st.loops = st.loops | {bid}
                st.objs[("phi0", bid)] = ini
                if self.on_loop:
                    self.on_loop(self, st, bid)
                for p in phis:
                    v0 = ini.get(p.id)
                    if v0 is not None and isc(v0) and (bid, p.id) not in self.vary and not self.monotone(p, body):
                        st.objs[("kphi", bid, p.id)] = v0
                        st.env[p.id] = v0
                        continue
                    v = self.loop_phi(st, bid, p, v0) or self.fresh(width(p.ty), "loop%d.%s" % (bid, p.get("n") or p.id))
                    if p.ty == "ptr":
                        self.ptr.add(v)
                    st.env[p.id] = v
                    v0 = ini.get(p.id)
                    if v0 is not None and isc(v0) and isinstance(v.w, int) and v.w > 1 and self.monotone(p, body):
                        st.setiv(v, slo=v0.a[0])
                        if v0.a[0] >= 0:
                            st.setiv(v, ulo=v0.a[0])
                            if v.w == 64 and p.ty != "ptr" and v0.a[0] < 1 << 32:
                                # 64 bits are not counted through
                                st.setiv(v, shi=1 << 62, uhi=1 << 62)
                start = len(phis)
            else:
                # leaving loops
                self.leave_loops(st, bid)
                vals = []
                k = 0
                for i in b.ins:
                    if i.op != "phi":
                        break
                    k += 1
                    for o, pb in i.d["inc"]:
                        if pb == prev:
                            vals.append((i.id, self.val(st, o, i.ty)))
                            break
                for i, v in vals:
                    st.env[i] = v
                start = k
            r = self.straight(st, b, start, work)
            if r is None:
                return
            prev = bid
            bid = r

    def step(self, phi, body):
        """constant added to phi by every back edge, or None"""
        me = "%%%d" % phi.id
        r = None
        for o, pb in phi.d["inc"]:
            if pb not in body:
                continue
            if o[0] != "%":
                return None
            i = self.fn.ins[int(o[1:])]
            if i.op == "add" and i.a[0] == me and i.a[1][0] == "#":
                s = int(i.a[1][1:])
            elif i.op == "getelementptr" and i.a[0] == me and "off" in i.d:
                s = i.d["off"]
            else:
                return None
            if r is not None and r != s:
                return None
            r = s
        return r

    def trips(self, st, h):
        """number of completed iterations when the generic loop h is left, as a term"""
        ini = st.objs.get(("phi0", h), {})
        body = self.loop_of[h]
        for pid, v0 in ini.items():
            phi = self.fn.ins[pid]
            s = self.step(phi, body)
            if not s or not isinstance(v0.w, int):
                continue
            v = st.env.get(pid)
            for c, val in reversed(list(st.known.items())):
                e = None
                if c.k == "eq0" and val:
                    k, d = aslin(c.a[0])
                    for cand, kk in list(d.items()):
                        if (cand is v or (cand.k in ("zext", "sext") and cand.a[0] is v)) and kk in (1, -1):
                            dd = {x: -y * kk for x, y in d.items() if x is not cand}
                            e = mklin(cand.w, -k * kk, dd)
                elif c.k in ("ult", "slt") and not val:
                    a = c.a[0]
                    if a is v or (a.k in ("zext", "sext") and a.a[0] is v):
                        e = c.a[1]
                if e is None:
                    continue
                w = e.w
                z0 = v0 if v0.w == w else self.resize(st, "zext", v0, w)
                k, d = aslin(sub(e, z0))
                if k % s == 0 and all(x % s == 0 for x in d.values()):
                    t = mklin(w, k // s, {x: y // s for x, y in d.items()})
                    return t if w == 64 else self.resize(st, "zext", t, 64)
        return None

    def monotone(self, phi, body):
        """every back edge value is phi + positive constant"""
        me = "%%%d" % phi.id
        for o, pb in phi.d["inc"]:
            if pb not in body:
                continue
            if o[0] != "%":
                return False
            i = self.fn.ins[int(o[1:])]
            seen = 0
            while i.op in ("zext", "sext", "trunc") and seen < 4:
                if i.a[0][0] != "%":
                    return False
                i = self.fn.ins[int(i.a[0][1:])]
                seen += 1
            if i.op == "add" and i.a[0] == me and i.a[1].startswith("#") and int(i.a[1][1:]) > 0:
                continue
            if i.op == "phi" and all(oo == me or (oo[0] == "%" and self.fn.ins[int(oo[1:])].op == "add" and self.fn.ins[int(oo[1:])].a[0] == me) for oo, _ in i.d["inc"]):
                continue
            return False
        return True

    def fork_on(self, st, cond, then, els, bid, work):
        """cond undecided: schedule both continuations (blocks then/els)"""
        s2 = st.fork()
        if s2.assume(cond, False):
            work.append((s2, els, bid))
        if st.assume(cond, True):
            return then
        return None

    def straight(self, st, b, start, work):
        ins = b.ins
        n = len(ins)
        idx = start
        while idx < n:
            i = ins[idx]
            self.steps += 1
            op = i.op
            if op == "br":
                t = i.d["t"]
                if len(t) == 1:
                    return t[0]
                c = self.val(st, i.a[0], "i1")
                return self.branch(st, c, t[0], t[1], b.id, work)
            if op == "switch":
                return self.do_switch(st, i, b, work)
            if op == "ret":
                v = self.val(st, i.a[0], self.fn.ret) if i.a else None
                self.finish("ret", st, i, ret=v)
                return None
            if op in ("unreachable",):
                self.finish("unreachable", st, i)
                return None
            if op == "resume":
                self.finish("resume", st, i)
                return None
            if op in ("call", "invoke"):
                r = self.do_call(st, i, b, idx, work)
                if r == "end":
                    return None
                if op == "invoke":
                    if self.unwind and self.unwind(i, st):
                        s2 = st.fork()
                        s2.unwinding = True
                        work.append((s2, i.d["unwind"], b.id))
                    return i.d["normal"]
            elif op == "select":
                c = self.val(st, i.a[0], "i1")
                if c.k == "undef":
                    st.env[i.id] = mk("undef", width(i.ty))
                elif st.decide(c) is None and self.bit_select(st, i, c):
                    pass
                else:
                    d, c2, neg = self.norm(st, c)
                    if d is None:
                        alive = False
                        for s2, v in self.splits(st, c):
                            s2.env[i.id] = self.val(s2, i.a[1 if v else 2], i.ty)
                            if s2 is st:
                                alive = True
                                continue
                            # continue the other trace from the next instruction
                            r2 = self.straight(s2, b, idx + 1, work)
                            if r2 is not None:
                                work.append((s2, r2, b.id))
                        if not alive:
                            return None
                    else:
                        st.env[i.id] = self.val(st, i.a[1] if d else i.a[2], i.ty)
            elif op in ("icmp", "xor") and self.fork_select is not False and self.two_flags(st, i):
                # whether two flags differ: told apart by the first one
                x, y, ne = self.two_flags(st, i)
                alive = False
                for s2, v in self.splits(st, x):
                    s2.env[i.id] = self.neg(y) if v == ne else y
                    if s2 is st:
                        alive = True
                        continue
                    r2 = self.straight(s2, b, idx + 1, work)
                    if r2 is not None:
                        work.append((s2, r2, b.id))
                if not alive:
                    return None
            else:
                self.simple(st, i)
            idx += 1
        return None

    def two_flags(self, st, i):
        """(x, y, whether they have to differ) of a comparison of two unknown 1 bit values"""
        if i.op == "xor":
            if i.ty != "i1":
                return None
            ty, ne = "i1", True
        else:
            ne = {"ne": True, "eq": False}.get(i.d.get("pred") or i.d.get("p"))
            ty = i.get("oty") or i.get("ty")
            if ne is None:
                return None
        try:
            a = [self.val(st, o, ty) for o in i.a]
        except Exception:
            return None
        if any(not isinstance(x.w, int) or x.k == "undef" for x in a) or st.decide(self.mkeq(st, a[0], a[1])) is not None:
            return None
        for k, x in enumerate(a):
            while x.k == "zext":
                x = x.a[0]
            if isinstance(x.w, int) and x.w > 1 and x.k == "ld" and st.rng(x)[2:] == (0, 1):
                x = self.resize(st, "trunc", x, 1)
            a[k] = x
        if any(x.w != 1 or isc(x) or x.k in ("bit", "undef") for x in a) or a[0] is a[1]:
            return None
        if any(st.decide(x) is not None for x in a):
            return None
        return a[0], a[1], ne

    def norm(self, st, c):
        return st.decide(c), c, False

    def bit_select(self, st, i, c):
        """keep a select on a single input bit as a value (no trace split)"""
        w = width(i.ty)
        if not isinstance(w, int):
            return False
        a, b = self.val(st, i.a[1], i.ty), self.val(st, i.a[2], i.ty)
        x = c.a[0] if c.k == "not" else c
        if x.k == "bit" or self.fork_select is False:
            if isc(a) and isc(b) and a.a[0] == 1 and b.a[0] == 0 and w > 1:
                st.env[i.id] = self.resize(st, "zext", c, w)
            elif isc(a) and isc(b) and a.a[0] == 0 and b.a[0] == 1 and w > 1:
                st.env[i.id] = self.resize(st, "zext", self.neg(c), w)
            else:
                t = mk("sel", w, c, a, b)
                st.env[i.id] = self.canon(st, t) if self.canon_bits else t
            return True
        return False

    def branch(self, st, c, t, e, bid, work):
        if c.k == "undef":
            s2 = st.fork()
            work.append((s2, e, bid))
            return t
        d = st.decide(c)
        if d is True:
            st.known.setdefault(c, True)
            return t
        if d is False:
            st.known.setdefault(c, False)
            return e
        self.check_unrolled(bid, (t, e))
        if c.w == 1 and c.k in ("and", "or"):
            r = None
            for s2, v in self.splits(st, c):
                if s2 is st:
                    r = t if v else e
                else:
                    work.append((s2, t if v else e, bid))
            return r
        return self.fork_on(st, c, t, e, bid, work)

    def splits(self, st, c):
        """undecided condition: the states in which it is true or false, each of which knows which side of a conjunction or disjunction held"""
        if not (c.w == 1 and c.k in ("and", "or")):
            r = []
            s2 = st.fork()
            if s2.assume(c, False):
                r.append((s2, False))
            if st.assume(c, True):
                r.append((st, True))
            return r
        short = c.k == "or"         # the value that decides alone
        r = []
        s2 = st.fork()
        if st.assume(c, not short):
            r.append((st, not short))
        s3 = s2.fork()
        if s2.assume(c.a[0], short):
            s2.known[c] = short
            r.append((s2, short))
        if s3.assume(c.a[0], not short) and s3.assume(c.a[1], short):
            s3.known[c] = short
            r.append((s3, short))
        return r

    def do_switch(self, st, i, b, work):
        v = self.val(st, i.a[0], i.ty)
        cases = i.d["cases"]
        cur = st
        for val, dest in cases:
            c = self.mkeq(cur, v, C(val, v.w))
            d = cur.decide(c)
            if d is True:
                return self._sw(cur, st, dest, b, work)
            if d is False:
                continue
            self.check_unrolled(b.id, b.succ)
            s2 = cur.fork()
            if s2.assume(c, True):
                work.append((s2, dest, b.id))
            if not cur.assume(c, False):
                return None
        return i.d["def"]

    def _sw(self, cur, st, dest, b, work):
        return dest

    FNAME = {"wreport::error_": 1}

    def do_call(self, st, i, b, idx, work):
        name = i.callee
        if name is None:
            # indirect / virtual
            cv = self.val(st, i.d["callee"], "ptr")
            args = [self.val(st, o, ty) for o, ty in zip(i.a, i.get("aty", []))]
            g = self.target(cv)
            if g is not None:
                return self.call_into(st, g, args, i, b, idx, work)
            for pat, h in self.hooks:
                if pat.search("<indirect>"):
                    r = h(self, st, i, [cv] + args)
                    if r is not NotImplemented:
                        if isinstance(r, T):
                            st.env[i.id] = r
                        elif isinstance(r, tuple) and r and r[0] == "into":
                            return self.call_into(st, r[1], r[2], i, b, idx, work)
                        return None
            if not self.icall_pure:
                self.call_havoc(st, i)
            st.seq += 1
            res = mk("call", width(i.ty), "<indirect>", tuple([cv] + args), st.seq)
            if i.ty == "ptr":
                self.ptr.add(res)
            st.env[i.id] = res
            st.ev.append(Ev("icall", i, [cv] + args, res, st.loops))
            return None
        args = [self.val(st, o, ty) for o, ty in zip(i.a, i.get("aty", []))]
        for pat, h in self.hooks:
            if pat.search(name):
                r = h(self, st, i, args)
                if r is not NotImplemented:
                    if isinstance(r, T):
                        st.env[i.id] = r
                    elif r == "end":
                        return "end"
                    elif isinstance(r, tuple) and r and r[0] == "into":
                        return self.call_into(st, r[1], r[2], i, b, idx, work)
                    elif isinstance(r, tuple) and r and r[0] == "fork":
                        return self.alternatives(st, r[1], i, b, idx, work)
                    return None
        if self.into and i.get("fn") and self.into.search(name):
            g = self.target(mk("glob", 64, i.get("fn")))
            if g is not None:
                return self.call_into(st, g, args, i, b, idx, work)
        if name.startswith("llvm.abs") and not isc(args[0]):
            # two cases, unless it is known which
            c = self.mklt(st, "slt", args[0], C(0, args[0].w))
            d = bool(uval(c)) if isc(c) else st.decide(c)
            if len(args) > 1 and isc(args[1]) and uval(args[1]):
                # the smallest number has no opposite: undefined
                st.assume(self.mklt(st, "slt", C(-(1 << (args[0].w - 1)), args[0].w), args[0]), True)
            neg = self.binop(st, "sub", C(0, args[0].w), args[0])
            if d is not None:
                st.env[i.id] = neg if d else args[0]
                return None
            return self.alternatives(st, [lambda I, s: args[0] if s.assume(c, False) else False, lambda I, s: neg if s.assume(c, True) else False], i, b, idx, work)
        if name.startswith("llvm."):
            return self.intrinsic(st, i, name, args)
        if name == "__cxa_throw":
            st.ev.append(Ev("throw", i, args, None, st.loops))
            self.finish("throw", st, i, what=show(args[1]) if len(args) > 1 else "?")
            return "end"
        if i.get("noreturn"):
            st.ev.append(Ev("throw", i, args, None, st.loops))
            self.finish("throw", st, i, what=name)
            return "end"
        if name.endswith("::throwf(char const*, ...)") or re.search(r"::parse_error\(", name):
            st.ev.append(Ev("throw", i, args, None, st.loops))
            self.finish("throw", st, i, what=name)
            return "end"
        if name.startswith(("memcpy", "memmove")) :
            return self.intrinsic(st, i, "llvm.memcpy", args)
        w = width(i.ty)
        if self.is_pure(name):
            ep = 0
            for a in args:
                if isinstance(a.w, int) and a.w == 64:
                    for x in base_atoms(a):
                        ep = max(ep, st.epoch.get(x, 0))
            res = mk("call", w, name, tuple(args), ep)
            if i.ty == "ptr":
                self.ptr.add(res)
            fc = ffold(name, args)
            if fc is not None:
                res = mk("fc", w, fc)
            st.env[i.id] = res
            st.ev.append(Ev("call", i, args, res, st.loops, snap=name))
            return None
        st.seq += 1
        if NEW.search(name):
            res = mk("new", 64, i.id, st.seq)
            if "nothrow" not in name:
                st.assume(mk("eq0", 1, res), False)
            self.ptr.add(res)
            st.env[i.id] = res
            st.ev.append(Ev("new", i, args, res, st.loops, snap=name))
            return None
        self.call_havoc(st, i)
        if w == "agg" or i.ty == "void":
            res = mk("call", "agg", name, tuple(args), st.seq)
        else:
            res = mk("call", w, name, tuple(args), st.seq)
        if i.ty == "ptr":
            self.ptr.add(res)
        st.env[i.id] = res
        st.ev.append(Ev("call", i, args, res, st.loops, snap=name))
        return None

    def intrinsic(self, st, i, name, args):
        w = width(i.ty)
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            st.ev.append(Ev("memcpy", i, args, None, st.loops, snap=self.peek(st, args)))
            if isc(args[2]):
                dst, src, n = args[0], args[1], args[2].a[0]
                self.copy(st, dst, src, n)
            else:
                for x in base_atoms(args[0]):
                    self.havoc(st, x)
            return None
        if name.startswith("llvm.memset"):
            st.ev.append(Ev("memset", i, args, None, st.loops))
            if isc(args[2]) and isc(args[1]) and args[2].a[0] <= self.memset_max:
                root, off = split(args[0])
                for k in range(args[2].a[0]):
                    self.store(st, add(args[0], C(k, 64)), C(args[1].a[0], 8), 1)
            else:
                for x in base_atoms(args[0]):
                    self.havoc(st, x)
            return None
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stack", "llvm.experimental", "llvm.va_", "llvm.donothing", "llvm.prefetch")):
            return None
        if name.startswith("llvm.expect"):
            st.env[i.id] = args[0]
            return None
        if name.startswith("llvm.threadlocal.address"):
            st.env[i.id] = args[0]
            return None
        m = re.match(r"llvm\.(smax|smin|umax|umin)", name)
        if m:
            if isc(args[0]) and isc(args[1]):
                g = max if m.group(1).endswith("max") else min
                st.env[i.id] = g(args[:2], key=(lambda t: t.a[0]) if m.group(1)[0] == "s" else uval)
                return None
            c = self.mklt(st, "slt" if m.group(1)[0] == "s" else "ult", args[0], args[1])
            d = bool(uval(c)) if isc(c) else st.decide(c)
            if d is not None:
                st.env[i.id] = args[0] if d == m.group(1).endswith("min") else args[1]
                return None
            st.env[i.id] = mk(m.group(1), w, *args)
            return None
        m = re.match(r"llvm\.(ctlz|cttz|ctpop)\.", name)
        if m and isc(args[0]):
            x = uval(args[0])
            if m.group(1) == "ctpop":
                st.env[i.id] = C(bin(x).count("1"), w)
                return None
            if x or (len(args) > 1 and isc(args[1]) and uval(args[1]) == 0):
                st.env[i.id] = C(w - x.bit_length() if m.group(1) == "ctlz" else (x & -x).bit_length() - 1 if x else w, w)
                return None
        if name.startswith("llvm.is.constant"):
            st.env[i.id] = C(0, 1)
            return None
        if name.startswith("llvm.abs"):
            x = args[0]
            st.env[i.id] = C(abs(x.a[0]), w) if isc(x) else x if st.rng(x)[0] >= 0 else mk("abs", w, x)
            return None
        if name.startswith("llvm.is.fpclass") and isc(args[1]):
            k = args[1].a[0]
            if k in (3, 1020):      # isnan, !isnan
                c = mk("fcmp", 1, "uno", args[0], args[0])
                st.env[i.id] = c if k == 3 else self.neg(c)
                return None
            st.env[i.id] = mk("fpclass", 1, *args)
            return None
        m = re.match(r"llvm\.([a-z]+)", name)
        if m and m.group(1) in ("eh",):
            st.env[i.id] = self.fresh(w, "eh")
            return None
        if m:
            fc = ffold(m.group(1), args)
            if fc is not None:
                st.env[i.id] = mk("fc", w, fc)
                return None
        st.env[i.id] = mk(m.group(1) if m else name, w, *[a for a in args])
        return None

    def peek(self, st, args):
        """byte values about to be copied, when the length is a small constant"""
        if len(args) > 2 and isc(args[2]) and args[2].a[0] <= 16:
            return [self.load(st, add(args[1], C(k, 64)), "i8", 1) for k in range(args[2].a[0])]
        return None

    def copy(self, st, dst, src, n):
        droot, doff = split(dst)
        sroot, soff = split(src)
        ents = [(o, e) for o, e in st.mem.get(sroot, {}).items() if soff <= o and o + e[1] <= soff + n]
        snap = {sroot: dict(st.mem.get(sroot, {}))}
        d = st.mem.setdefault(droot, {})
        for o in [o for o, (x, s) in d.items() if o < doff + n and doff < o + s]:
            del d[o]
        for o, e in ents:
            d[doff + o - soff] = e
        st.copies[droot] = st.copies.get(droot, ()) + ((doff, n, src, snap, dict(st.epoch)),)

    def simple(self, st, i):
        op = i.op
        w = width(i.ty)
        env = st.env
        if op == "load":
            addr = self.val(st, i.a[0], "ptr")
            v = self.load(st, addr, i.ty, SIZE.get(i.ty, 8))
            env[i.id] = v
            if self.record_loads:
                st.ev.append(Ev("load", i, [addr], v, st.loops))
        elif op == "store":
            v = self.val(st, i.a[0], i.get("oty"))
            addr = self.val(st, i.a[1], "ptr")
            st.ev.append(Ev("store", i, [addr, v], None, st.loops))
            self.store(st, addr, v, SIZE.get(i.get("oty"), 8))
        elif op == "getelementptr":
            base = self.val(st, i.a[0], "ptr")
            if "off" in i.d:
                env[i.id] = add(base, C(i.d["off"], 64))
            else:
                t = base
                for p in i.d["path"]:
                    if p[0] == "f":
                        t = add(t, C(p[3], 64))
                    else:
                        x = self.val(st, p[1], "i64")
                        if isinstance(x.w, int) and x.w != 64:
                            x = self.resize(st, "sext", x, 64)
                        t = add(t, scale(x, p[2])) if x.k != "undef" else mk("undef", 64)
                env[i.id] = t
        elif op == "alloca":
            t = mk("alloca", 64, i.id, self.depth, self.fn.dem) if self.depth else mk("alloca", 64, i.id)
            self.ptr.add(t)
            env[i.id] = t
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a = self.val(st, i.a[0], i.ty)
            b = self.val(st, i.a[1], i.ty)
            t = self.binop(st, op, a, b)
            if self.canon_bits and t.k in ("or", "lin"):
                t = self.canon(st, t)
            env[i.id] = t
        elif op in ("zext", "sext", "trunc"):
            a = self.val(st, i.a[0], i.get("from"))
            if not isinstance(a.w, int):
                env[i.id] = mk(op, w, a)
            else:
                env[i.id] = self.resize(st, op, a, w)
        elif op == "icmp":
            a = self.val(st, i.a[0], i.get("oty"))
            b = self.val(st, i.a[1], i.get("oty"))
            if a.k == "undef" or b.k == "undef" or not isinstance(a.w, int):
                env[i.id] = mk("undef", 1)
            else:
                env[i.id] = self.icmp(st, i.get("pred"), a, b)
        elif op == "fcmp":
            a = self.val(st, i.a[0], i.get("oty"))
            b = self.val(st, i.a[1], i.get("oty"))
            env[i.id] = mk("fcmp", 1, i.get("pred"), a, b)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a = self.val(st, i.a[0], i.ty)
            b = self.val(st, i.a[1], i.ty)
            if a.k == "fc" and b.k == "fc":
                try:
                    x, y = a.a[0], b.a[0]
                    env[i.id] = mk("fc", w, x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y)
                    return
                except ZeroDivisionError:
                    pass
            env[i.id] = mk(op, w, a, b)
        elif op == "fneg":
            a = self.val(st, i.a[0], i.ty)
            env[i.id] = mk("fc", w, -a.a[0]) if a.k == "fc" else mk("fneg", w, a)
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast"):
            a = self.val(st, i.a[0], i.get("from"))
            if op in ("sitofp", "uitofp") and isc(a):
                env[i.id] = mk("fc", w, float(a.a[0] if op == "sitofp" else uval(a)))
            elif op == "fpext" and a.k == "fc":
                env[i.id] = mk("fc", w, a.a[0])
            elif op in ("fptosi", "fptoui") and a.k == "fc" and abs(a.a[0]) < 2.0 ** 62 and -(1 << (w - 1)) <= int(a.a[0]) < (1 << w):
                env[i.id] = C(int(a.a[0]), w)
            else:
                env[i.id] = mk(op, w, a)
        elif op in ("ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            a = self.val(st, i.a[0], i.get("from") or i.ty)
            env[i.id] = a if a.w == w else (self.resize(st, "trunc" if isinstance(a.w, int) and a.w > w else "zext", a, w) if isinstance(a.w, int) else mk(op, w, a))
        elif op == "select":
            env[i.id] = mk("sel", w, *[self.val(st, x, i.ty if k else "i1") for k, x in enumerate(i.a)])
        elif op == "extractvalue":
            a = self.val(st, i.a[0], "agg")
            ix = tuple(i.d["idx"])
            if a.k == "insertvalue":
                x = a
                while x.k == "insertvalue":
                    if x.a[2] == ix:
                        env[i.id] = x.a[1]
                        return
                    x = x.a[0]
            env[i.id] = mk("extractvalue", w, a, ix)
            if i.ty == "ptr":
                self.ptr.add(env[i.id])
        elif op == "insertvalue":
            a = self.val(st, i.a[0], "agg")
            v = self.val(st, i.a[1], "agg") if i.a[1][0] in "%$" else mk("opaque", "agg", i.a[1])
            env[i.id] = mk("insertvalue", "agg", a, v, tuple(i.d["idx"]))
        elif op == "landingpad":
            env[i.id] = self.fresh("agg", "lpad")
            st.ev.append(Ev("landingpad", i, [], None, st.loops))
        else:
            self.unknown_ops.add(op)
            env[i.id] = mk("op:" + op, w, *[self.val(st, x, i.ty) for x in i.a])


# ---- bit provenance
def parity(t):
    """lowest bit: 0, 1 or an i1 term"""
    while t.k in ("zext", "sext", "trunc") and t.a[0].w > 1:
        t = t.a[0]
    if t.k in ("zext", "sext"):
        return t.a[0]
    c, d = aslin(t)
    odd = [x for x, k in d.items() if k & 1]
    c &= 1
    if not odd:
        return c
    if len(odd) == 1:
        b = bits(odd[0])[0] if odd[0].k != "lin" else (odd[0], 0)
        if isinstance(b, int):
            return b ^ c
        r = mk("bit", 1, *b) if b is not None else mk("bit", 1, odd[0], 0)
    else:
        r = mk("bit", 1, mklin(t.w, 0, {x: 1 for x in odd}), 0)
    return mk("not", 1, r) if c else r


_bits = {}


def bits(t, n=None):
    """list (LSB first) of 0 | 1 | (atom, bit) | None for an integer term"""
    r = _bits.get(t)
    if r is None:
        r = _bits[t] = tuple(bits_(t))
    return list(r)


def bits_(t):
    w = t.w
    if t.k == "c":
        u = uval(t)
        return [(u >> k) & 1 for k in range(w)]
    if t.k == "zext":
        return bits(t.a[0]) + [0] * (w - t.a[0].w)
    if t.k == "sext":
        b = bits(t.a[0])
        return b + [b[-1]] * (w - t.a[0].w)
    if t.k == "trunc":
        return bits(t.a[0])[:w]
    if t.k == "bits":
        return [x if not isinstance(x, T) else (x.a[0], x.a[1]) for x in t.a[0]]
    if t.k == "bit":
        return [(t.a[0], t.a[1])]
    if t.k == "sel":
        x, y = bits(t.a[1]), bits(t.a[2])
        cb = bits(t.a[0])[0]
        r = []
        for k, (p, q) in enumerate(zip(x, y)):
            r.append(p if p == q and p is not None else cb if (p, q) == (1, 0) else (t, k))
        return r
    if t.k in ("and", "or", "xor"):
        x, y = bits(t.a[0]), bits(t.a[1])
        r = []
        for p, q in zip(x, y):
            if t.k == "and":
                r.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None)
            elif t.k == "or":
                r.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None)
            else:
                r.append(q if p == 0 else p if q == 0 else None)
        return r
    if t.k == "lshr" and isc(t.a[1]):
        s = uval(t.a[1])
        return (bits(t.a[0])[s:] + [0] * s)[:w]
    if t.k == "shl" and isc(t.a[1]):
        s = uval(t.a[1])
        return ([0] * s + bits(t.a[0]))[:w]
    if t.k in ("bswap",):
        b = bits(t.a[0])
        r = []
        for k in range(w // 8 - 1, -1, -1):
            r += b[8 * k:8 * k + 8]
        return r
    if t.k == "call" and t.a[0].split("(")[0] in ("htonl", "ntohl", "htons", "ntohs"):
        b = bits(t.a[1][0])
        r = []
        for k in range(w // 8 - 1, -1, -1):
            r += b[8 * k:8 * k + 8]
        return r
    if t.k == "lin":
        cs = [t.a[0]] + [c for _, c in t.a[1]]
        tz = min((c & -c).bit_length() - 1 for c in cs if c)
        if tz > 0:
            red = lambda c: min((c >> tz, (c >> tz) % (1 << (w - tz))), key=abs) if c else 0
            o = mklin(w, red(t.a[0]), {x: abs(red(c)) if abs(red(c)) == 1 << (w - tz - 1) else red(c) for x, c in t.a[1]})
            return ([0] * tz + bits(o))[:w]
        r = bits(C(t.a[0], w))
        for x, c in t.a[1]:
            if c <= 0 or c & (c - 1):
                return [(t, k) for k in range(w)]
            s = c.bit_length() - 1
            y = ([0] * s + bits(x))[:w]
            n2 = []
            for p, q in zip(r, y):
                if p == 0:
                    n2.append(q)
                elif q == 0:
                    n2.append(p)
                else:
                    return [(t, k) for k in range(w)]
            r = n2
        return r
    return [(t, k) for k in range(w)]


def frombits(I, st, b):
    """term of len(b) bits from bit provenance (LSB first)"""
    w = len(b)
    if all(x in (0, 1) for x in b):
        return C(sum(v << k for k, v in enumerate(b)), w)
    lead = 0
    while b[lead] == 0:
        lead += 1
    f = b[lead]
    if isinstance(f, tuple) and isinstance(f[0].w, int):
        x, lo = f
        n = 0
        while lead + n < w and b[lead + n] == (x, lo + n):
            n += 1
        if all(z == 0 for z in b[lead + n:]):
            y = x
            fits = st.rng(x)[3] < (1 << (lo + n))
            if lo:
                y = I.binop(st, "lshr", y, C(lo, x.w))
            if fits or lo + n == x.w:
                y = y if y.w == w else I.resize(st, "zext" if y.w < w else "trunc", y, w)
                return I.binop(st, "shl", y, C(lead, w)) if lead else y
            y = mk("trunc", n, y) if n < y.w else y
            y = y if y.w == w else mk("zext", w, y)
            return I.binop(st, "shl", y, C(lead, w)) if lead else y
    while b[-1] == 0:
        b = b[:-1]
    y = samebits(I, st, b)
    if y is not None:
        return y if y.w == w else I.resize(st, "zext" if y.w < w else "trunc", y, w)
    t = mk("bits", len(b), tuple(x if isinstance(x, int) or x is None else mk("bit", 1, *x) for x in b))
    return t if len(b) == w else mk("zext", w, t)


_cbit = {}


def cbit(x, k):
    """bit k of x in a normal form: it only depends on x modulo 2**(k + 1).
    0 | 1 | ("P", c, atoms): the parity of c + the atoms' low bits | ("B", k, c, ((atom, coefficient)...))"""
    r = _cbit.get((x, k))
    if r is None:
        r = _cbit[(x, k)] = cbit_(x, k)
    return r


def cbit_(x, k):
    c, d = 0, {}
    work = [(x, 1)]
    m = 1 << (k + 1)
    while work:
        t, f = work.pop()
        f %= m
        if not f:
            continue
        tz = (f & -f).bit_length() - 1
        if t.k == "trunc" or t.k in ("zext", "sext") and t.a[0].w > k - tz and t.a[0].w > 1:
            work.append((t.a[0], f))
        elif isc(t):
            c += f * uval(t)
        elif t.k == "lin" and isinstance(t.w, int) and t.w > k - tz:
            c += f * t.a[0]
            work += [(y, f * v) for y, v in t.a[1]]
        else:
            d[t] = (d.get(t, 0) + f) % m
    c %= m
    d = {t: f for t, f in d.items() if f}
    while k > 0 and not c & 1 and all(not f & 1 for f in d.values()):
        c >>= 1
        d = {t: f >> 1 for t, f in d.items()}
        k -= 1
    if k == 0:
        at = set()
        for t, f in d.items():
            if not f & 1:
                continue
            while t.k in ("zext", "sext"):
                t = t.a[0]
            while t.k == "not":
                t, c = t.a[0], c ^ 1
            q = (t, 0)
            if t.k == "bit":
                q = cbit(t.a[0], t.a[1])
            elif isinstance(t.w, int) and t.k != "lin":
                b = bits(t)[0]
                if isinstance(b, int):
                    c ^= b
                    continue
                if b is not None and b != q:
                    q = cbit(*b)
            if isinstance(q, int):
                c ^= q
            elif q[0] == "P":
                c ^= q[1]
                at ^= q[2]
            else:
                at ^= {q}
        return ("P", c & 1, frozenset(at)) if at else c & 1
    if not d:
        return (c >> k) & 1
    if c == 0 and len(d) == 1:
        (t, f), = d.items()
        if f == 1 and t.k != "lin" and isinstance(t.w, int):
            b = bits(t)[k] if k < t.w else 0
            if isinstance(b, int):
                return b
            if b is not None and b != (t, k) and b[0] is not t:
                return cbit(*b)
    return ("B", k, c, tuple(sorted(d.items(), key=lambda z: z[0].n)))


def samebits(I, st, b):
    """b (LSB first, the last one not 0) read as consecutive bits of one number"""
    if not isinstance(b[-1], tuple) or len(b) < 2:
        return None
    x, k = b[-1]
    if not isinstance(x.w, int):
        return None
    s = len(b) - 1 - k          # b[j] is bit j - s of x
    for j, v in enumerate(b):
        if j < s:
            if v != 0:
                return None
            continue
        if v is None:
            return None
        want = cbit(x, j - s)
        if v != want and (isinstance(v, int) or cbit(*v) != want):
            return None
    y = x
    if not (st.rng(x)[3] < 1 << (k + 1) or k + 1 == x.w):
        y = mk("trunc", k + 1, x) if x.k != "lin" else I.resize(st, "trunc", x, k + 1)
    if s < 0:
        y = I.binop(st, "lshr", y, C(-s, y.w))
    if s > 0:
        y = I.binop(st, "shl", I.resize(st, "zext", y, max(y.w, len(b))) if y.w < len(b) else y, C(s, max(y.w, len(b))))
    return y


def resolved(st, t):
    """t with the single bits in it replaced by what is known of them"""
    if t.k != "lin":
        return t
    d = {}
    c = t.a[0]
    hit = False
    for x, v in t.a[1]:
        y = x
        while y.k == "zext" and y.a[0].w > 1:
            y = y.a[0]
        if y.k == "zext":
            k = st.decide(y.a[0])
            if k is not None:
                c += v * int(k)
                hit = True
                continue
        d[x] = v
    return mklin(t.w, c, d) if hit else t
