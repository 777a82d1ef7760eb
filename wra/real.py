"""Floating point terms read as exact affine forms over the reals."""
import math
from fractions import Fraction
from .absint import *

NEAREST = ("rint", "nearbyint", "roundeven", "round", "lround", "lrint", "llround", "llrint")


def call_of(t):
    """(name, args) of a library function or intrinsic term"""
    if t.k == "call":
        return t.a[0].split("(")[0].replace("std::", ""), t.a[1]
    return t.k, t.a


class Real:
    """an affine form: constant + sum of coefficients times opaque terms; inexact counts the floating point operations that can round"""
    __slots__ = ("c", "d", "inexact", "integer")

    def __init__(self, c=0, d=None, inexact=0, integer=True):
        self.c, self.d, self.inexact, self.integer = Fraction(c), d or {}, inexact, integer

    def add(self, o, s=1):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + s * v
        ex = self.inexact + o.inexact + (0 if self.integer and o.integer else 1)
        return Real(self.c + s * o.c, {k: v for k, v in d.items() if v}, ex, self.integer and o.integer)

    def mul(self, k, integer=False, exact=False):
        return Real(self.c * k, {x: v * k for x, v in self.d.items() if v * k}, self.inexact + (0 if exact or k in (1, -1) else 1), self.integer and (integer or k in (1, -1)))

    def const(self):
        return self.c if not self.d else None


def real(t, st=None):
    """affine form of a double term"""
    k = t.k
    if k == "fc":
        v = t.a[0]
        if v != v or v in (math.inf, -math.inf):
            return Real(0, {t: Fraction(1)}, 0, False)
        return Real(Fraction(v), integer=v == int(v))
    if k in ("sitofp", "uitofp"):
        return integer(t.a[0], k == "uitofp", st)
    if k in ("fadd", "fsub"):
        return real(t.a[0], st).add(real(t.a[1], st), 1 if k == "fadd" else -1)
    if k == "fneg":
        return real(t.a[0], st).mul(-1, True, True)
    if k in ("fmuladd", "fma"):
        return prod(real(t.a[0], st), real(t.a[1], st), t).add(real(t.a[2], st))
    if k == "fmul":
        return prod(real(t.a[0], st), real(t.a[1], st), t)
    if k == "fdiv":
        a, b = real(t.a[0], st), real(t.a[1], st)
        if b.const():
            return a.mul(1 / b.const())
    if k in ("fpext",):
        return real(t.a[0], st)
    return Real(0, {t: Fraction(1)}, 0, False)


def prod(a, b, t):
    for x, y in ((a, b), (b, a)):
        if x.const() is not None:
            return y.mul(x.const(), x.integer, y.integer and x.integer and abs(x.c) < 1)
    return Real(0, {t: Fraction(1)}, 0, False)


def integer(t, unsigned=False, st=None):
    """affine form of an integer term converted to double"""
    if isc(t):
        return Real(uval(t) if unsigned else t.a[0])
    while t.k in ("sext", "zext") and not (t.k == "sext" and unsigned):
        unsigned = t.k == "zext"
        t = t.a[0]
    if t.k == "lin":
        r = Real(t.a[0])
        for x, c in t.a[1]:
            i = integer(x, unsigned, st)
            r = r.add(i.mul(c, True, True))
        # only when the integer sum is known not to wrap
        if st is not None:
            q = st.rng(t)
            if (q[2] if unsigned else q[0]) is not None and nowrap(t, unsigned, st):
                return r
    return Real(0, {("u" if unsigned else "s", t): Fraction(1)})


def nowrap(t, unsigned, st):
    lo = hi = t.a[0]
    for x, c in t.a[1]:
        q = st.rng(x)
        a, b = (q[2], q[3]) if unsigned else (q[0], q[1])
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return (lo >= 0 and hi < 1 << t.w) if unsigned else (lo >= -(1 << (t.w - 1)) and hi < 1 << (t.w - 1))


def nearest(t, st=None):
    """for an integer (or integral double) that is the nearest integer to a double: (rounded term, affine form rounded)"""
    while t.k in ("trunc", "sext", "zext"):
        t = t.a[0]
    if t.k in ("fptosi", "fptoui"):
        t = t.a[0]
    n, a = call_of(t)
    if n in NEAREST and len(a) == 1:
        return t, real(a[0], st)
    if n in ("floor", "ceil") and len(a) == 1:
        r = real(a[0], st)
        h = Fraction(1, 2) if n == "floor" else Fraction(-1, 2)
        return t, r.add(Real(-h, integer=False))
    return None, None
