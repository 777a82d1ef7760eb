"""Linear facts: what the conditions met on an abstract trace say about integers, and whether they entail an inequality.

Terms are turned into linear forms over mathematical integers (only where the machine arithmetic provably does not wrap); entailment is decided by
eliminating variables (Fourier-Motzkin), as in a polyhedra domain."""
import math
from .absint import *

LIM = 1 << 62


def exact(st, t, side):
    """linear form (constant, {atom: coefficient}) of t read as an unsigned number (as a signed one for 64 bit terms, which hold no large numbers);
    None if it may wrap.  side collects facts about the atoms"""
    if isc(t):
        return (t.a[0] if t.w == 64 else uval(t)), {}
    k = t.k
    if k == "zext" and isinstance(t.a[0].w, int):
        return exact(st, t.a[0], side)
    if k == "sext" and st.rng(t.a[0])[0] >= 0:
        return exact(st, t.a[0], side)
    if k == "lin":
        lo = hi = t.a[0]
        if t.w != 64 and lo >= 1 << (t.w - 1):
            lo = hi = lo - (1 << t.w)
        c, d = lo, {}
        for x, co in t.a[1]:
            if t.w != 64 and co >= 1 << (t.w - 1):
                co -= 1 << t.w
            r = st.rng(x)
            a, b = (r[0], r[1]) if t.w == 64 and r[0] > -LIM and r[1] < LIM else (r[2], r[3])
            lo += co * (a if co > 0 else b)
            hi += co * (b if co > 0 else a)
            e = exact(st, x, side)
            if e is None:
                return None
            c += co * e[0]
            for y, cy in e[1].items():
                d[y] = d.get(y, 0) + co * cy
        if t.w == 64:
            if lo < -LIM or hi > LIM:
                return None
        elif lo < 0 or hi >= 1 << t.w:
            # the sum may still be known not to wrap from a fact about it
            if t.w == 32 and all(x.k == "trunc" and x.a[0].w == 64 for x, co in t.a[1]):
                # the low half of a number: not more than the number, if that is not negative
                sg = lambda v: v - (1 << 32) if v >= 1 << 31 else v
                e = exact(st, mklin(64, sg(t.a[0]), {x.a[0]: sg(co) for x, co in t.a[1]}), side)
                if e is not None:
                    side.append(("low", t, e))
            return atom(st, t, side)
        return c, {x: v for x, v in d.items() if v}
    if k in ("udiv", "lshr") and isc(t.a[1]) and (k == "udiv" and uval(t.a[1]) or k == "lshr" and uval(t.a[1]) < t.w):
        m = uval(t.a[1]) if k == "udiv" else 1 << uval(t.a[1])
        e = exact(st, t.a[0], side)
        if e is not None:
            side.append(("div", t, m, e))
    if k == "trunc" and t.a[0].w == 64:
        e = exact(st, t.a[0], side)
        if e is not None:
            side.append(("low", t, e))
    if k in ("umin", "smin") and (k == "umin" or st.rng(t.a[0])[0] >= 0 and st.rng(t.a[1])[0] >= 0):
        for x in t.a:
            e = exact(st, x, side)
            if e is not None:
                side.append(("le", t, e))
    return atom(st, t, side)


def atom(st, t, side):
    return 0, {t: 1}


def leq(e1, e2, c=0):
    """e1 + c <= e2 as a constraint {atom: k}, constant: sum + constant <= 0"""
    d = dict(e1[1])
    for x, k in e2[1].items():
        d[x] = d.get(x, 0) - k
    return {x: k for x, k in d.items() if k}, e1[0] - e2[0] + c


def facts(st):
    cs = []
    side = []
    for c, v in list(st.known.items()):
        if c.k in ("slt", "ult"):
            a, b = c.a
            if c.k == "slt" and not (st.rng(a)[0] >= 0 and st.rng(b)[0] >= 0) and a.w != 64:
                continue
            if c.k == "ult" and a.w == 64 and not (st.rng(a)[0] >= 0 and st.rng(b)[0] >= 0):
                continue
            ea, eb = exact(st, a, side), exact(st, b, side)
            if ea is None or eb is None:
                continue
            cs.append(leq(ea, eb, 1) if v else leq(eb, ea))
        elif c.k == "eq0" and v:
            k, d = aslin(c.a[0])
            # move negative terms to the other side
            w = c.a[0].w
            if w == 64:
                e = exact(st, c.a[0], side)
                if e is not None:
                    cs.append(leq(e, (0, {})))
                    cs.append(leq((0, {}), e))
            else:
                pos = mklin(w, k if k > 0 else 0, {x: y for x, y in d.items() if y > 0})
                neg = mklin(w, -k if k < 0 else 0, {x: -y for x, y in d.items() if y < 0})
                ea, eb = exact(st, pos, side), exact(st, neg, side)
                if ea is not None and eb is not None:
                    cs.append(leq(ea, eb))
                    cs.append(leq(eb, ea))
    for t in list(st.iv):
        if isinstance(t, T) and t.k == "lin":
            e = exact(st, t, side)
            if e is not None:
                r = st.iv[t]
                if t.w == 64:
                    lo, hi = r[0], r[1]
                else:
                    lo, hi = r[2], r[3]
                if -LIM < lo:
                    cs.append(leq((lo, {}), e))
                if hi < LIM:
                    cs.append(leq(e, (hi, {})))
    return cs, side


def differ(st, side):
    """pairs of linear forms known to be different"""
    r = []
    for c, v in list(st.known.items()):
        if c.k == "eq0" and not v and c.a[0].w in (32, 64):
            k, d = aslin(c.a[0])
            w = c.a[0].w
            if not d or w == 64 and any(x.w != 64 for x in d):
                continue
            pos = mklin(w, k if k > 0 else 0, {x: y for x, y in d.items() if y > 0})
            neg = mklin(w, -k if k < 0 else 0, {x: -y for x, y in d.items() if y < 0})
            ea, eb = exact(st, pos, side), exact(st, neg, side)
            if ea is not None and eb is not None:
                r.append((ea, eb))
    return r


def near(st, goal, cs):
    """the constraints connected to the goal, and its atoms"""
    atoms_ = set(goal[0])
    pool = [x for x in cs if x[0]]
    take = []
    while True:
        new = [x for x in pool if set(x[0]) & atoms_]
        if not new:
            break
        take += new
        pool = [x for x in pool if not (set(x[0]) & atoms_)]
        for x in new:
            atoms_ |= set(x[0])
    for a in atoms_:
        r = st.rng(a)
        lo, hi = (r[0], r[1]) if a.w == 64 and r[0] > -LIM and r[1] < LIM else (r[2], r[3])
        if a.w == 64 and (lo < -LIM or hi > LIM):
            lo, hi = max(lo, -LIM), min(hi, LIM)
        take.append(({a: -1}, lo))
        take.append(({a: 1}, -hi))
    return take, atoms_


def entails(st, e1, e2, c=0, side=None, extra=()):
    """e1 + c <= e2 follows from what the trace knows"""
    cs, sd = facts(st)
    sd += side or []
    cs += list(extra)
    goal = leq(e2, e1, 1 - c)         # the opposite: e2 + 1 <= e1 + c
    for f in sd:
        if f[0] == "div":
            _, t, m, e = f
            q = (0, {t: m})
            cs.append(leq(q, e))
            cs.append(leq(e, (m - 1, {t: m})))
        elif f[0] == "le":
            cs.append(leq((0, {f[1]: 1}), f[2]))
    low = []
    for f in sd:
        if f[0] == "low" and f[1:] not in low:
            low.append(f[1:])
    for t, e in low:
        neg = leq(e, (-1, {}))
        take, atoms_ = near(st, neg, cs)
        if infeasible(take + [neg]):
            cs.append(leq((0, {t: 1}), e))
    take, atoms_ = near(st, goal, cs)
    if infeasible(take + [goal]):
        return True
    for ea, eb in differ(st, []):
        if (set(ea[1]) | set(eb[1])) and (set(ea[1]) | set(eb[1])) <= atoms_:
            if infeasible(take + [goal, leq(ea, eb, 1)]) and infeasible(take + [goal, leq(eb, ea, 1)]):
                return True
    return False


def infeasible(cs, limit=6000):
    def norm(c):
        d, k = c
        return tuple(sorted(((x.n, v) for x, v in d.items()))), k
    live = {}
    for d, k in cs:
        if not d:
            if k > 0:
                return True
            continue
        key = tuple(sorted((x.n, v) for x, v in d.items()))
        if key not in live or live[key][1] < k:
            live[key] = (d, k)
    while live:
        cnt = {}
        for d, k in live.values():
            for x, v in d.items():
                p = cnt.setdefault(x, [0, 0])
                p[v > 0] += 1
        x = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - sum(cnt[x]), x.n))
        up = [c for c in live.values() if c[0].get(x, 0) > 0]
        dn = [c for c in live.values() if c[0].get(x, 0) < 0]
        rest = {q: c for q, c in live.items() if x not in c[0]}
        for d1, k1 in up:
            for d2, k2 in dn:
                a, b = d1[x], -d2[x]
                d = {}
                for y, v in d1.items():
                    if y is not x:
                        d[y] = v * b
                for y, v in d2.items():
                    if y is not x:
                        d[y] = d.get(y, 0) + v * a
                d = {y: v for y, v in d.items() if v}
                k = k1 * b + k2 * a
                if not d:
                    if k > 0:
                        return True
                    continue
                g = 0
                for v in d.values():
                    g = math.gcd(g, abs(v))
                if g > 1:
                    d = {y: v // g for y, v in d.items()}
                    k = -((-k) // g)       # integers: round towards the stronger constraint
                q = tuple(sorted((y.n, v) for y, v in d.items()))
                if q not in rest or rest[q][1] < k:
                    rest[q] = (d, k)
        if len(rest) > limit:
            return False
        live = rest
    return False
