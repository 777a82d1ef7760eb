"""Unit conversions"""
import re
from fractions import Fraction
from wra import codec, text
from wra.absint import *
from wra.build import ToolError
from wra.real import real, Real

Z = 273.15
# unit -> meanings: (quantity, factor, offset): value in the base unit = value * factor + offset
UNITS = {}


def unit(q, f, *names, off=0.0):
    for n in names:
        UNITS.setdefault(n, []).append((q, f, off))


unit("temperature", 1, "K")
unit("temperature", 1, "C", off=Z)
unit("temperature", 0.1, "C/10", off=Z)
unit("time", 1, "S", "SECOND", "SECONDS", "sec")
unit("time", 60, "minuti", "MINUTE", "MINUTES", "MIN")
unit("time", 3600, "H", "HOUR", "HOURS")
unit("time", 86400, "D", "DAY", "DAYS")
unit("months", 1, "MON", "MONTH", "MONTHS")
unit("months", 12, "A", "YEAR", "YEARS")
unit("density", 1, "KG/M**3")
unit("density", 1e-3, "G/M**3", "mg/l")
unit("density", 1e-9, "ug/m**3")
unit("pressure", 1, "PA")
unit("pressure", 1000, "KPA")
unit("pressure", 100, "mBar", "hPa")
unit("pressure", 1e5, "Bar")
unit("pressure", 1e-4, "NBAR")
unit("length", 1, "M", "m")
unit("length", 1e-3, "MM", "mm")
unit("length", 1e-2, "cm")
unit("length", 1e3, "KM")
unit("length", 100, "hm")
unit("length", 0.3048, "FT")
unit("precipitation", 1, "mm", "KG/M**2", "KGM-2", "KG M-2")
unit("precipitation", 0.1, "mm/10")
unit("fraction", 1, "%", "PERCENT")
unit("fraction", 12.5, "1/8")
unit("fraction", 100, "RATIO")
unit("fraction", 0.1, "ppt", "PART PER THOUSAND")
unit("energy", 1, "J/M**2", "JM-2", "J M-2")
unit("energy", 41868, "cal/cm**2")
unit("energy", 1e6, "MJ/M**2", "Mj/m**2")
unit("speed", 1, "M/S", "m/sec")
unit("speed", 0.1, "m/s/10")
unit("speed", 1852 / 3600., "nodi")
unit("voltage", 1, "V")
unit("voltage", 1e-3, "mV")
unit("geopotential", 1, "m**2/s**2", "M**2/S**2")
unit("geopotential", 9.80665, "GPM", "MGP")
unit("power", 1, "W/M**2", "W/m**2")
unit("power", 41868, "cal/s/cm**2")
unit("power", 41868 / 3600., "cal/h/cm**2")
unit("conductivity", 1, "S/M")
unit("conductivity", 0.1, "ms/cm", "mS/cm")
unit("angle", 1, "DEGREE", "DEG", "DEGREE TRUE", "gsess", "degree true")
TOL = 1e-4

LOADED = "Repository of conversions"


def load():
    return codec.load([r"^wreport::convert_", r"^wreport::\(anonymous namespace\)::Conv[a-zA-Z]*::"],
                      noinline=[r"^std::(vector|function|_Function|sort|stable_sort|__sort)", r"> std::vector<", r"[&*] std::vector<", r"^void std::(sort|stable_sort|__sort)",
                                r"ConvertRepository::(ConvertRepository|add_)", r"^wreport::convert_"] + codec.STRNO)


class Repo:
    """vectors of conversions, functions held in std::function"""

    def __init__(self, mod):
        self.mod = mod
        self.names = {}

    def vec(self, st, v):
        return st.objs.get(("vec", v), ())

    def base(self, v):
        return mk("vdata", 64, v)

    def index(self, I, st, v, k):
        els = self.vec(st, v)
        if not isc(k) or not 0 <= uval(k) < len(els):
            raise Out(k, len(els))
        return add(self.base(v), C(24 * uval(k), 64))

    def layout(self, I, st, v, els):
        st.objs[("vec", v)] = tuple(els)
        for j, e in enumerate(els):
            for o, x in enumerate(e):
                I.store(st, add(self.base(v), C(24 * j + 8 * o, 64)), x, 8)

    def hooks(self):
        V = r"std::vector<wreport::\(anonymous namespace\)::Conv, std::allocator<wreport::\(anonymous namespace\)::Conv>\s*>::"

        def emplace(I, st, i, a):
            ps = [x for x in a[1:]]
            if len(ps) == 3:
                e = tuple(I.load(st, p, "ptr", 8) for p in ps)
                # character arrays are passed as they are
                types = re.search(r"emplace_back<(.*?)>\(", i.callee)
                if types and "char const (&)" in types.group(1):
                    e = tuple(p if "[" in t else x for p, x, t in zip(ps, e, types.group(1).split(", ")))
            elif len(ps) == 1:
                e = tuple(I.load(st, add(ps[0], C(8 * o, 64)), "ptr", 8) for o in range(3))
            else:
                raise ToolError("conversion added with %d arguments at %s" % (len(ps), i.loc))
            els = self.vec(st, a[0]) + (e,)
            self.layout(I, st, a[0], els)
            return add(self.base(a[0]), C(24 * (len(els) - 1), 64))

        def size(I, st, i, a):
            return C(len(self.vec(st, a[0])), 64)

        def empty(I, st, i, a):
            return C(0 if self.vec(st, a[0]) else 1, 1)

        def index(I, st, i, a):
            return self.index(I, st, a[0], a[1])

        def begin(I, st, i, a):
            return self.base(a[0])

        def end(I, st, i, a):
            return add(self.base(a[0]), C(24 * len(self.vec(st, a[0])), 64))

        def sort(I, st, i, a):
            m = [x for x in base_atoms(a[0]) if x.k == "vdata"]
            if not m:
                raise ToolError("sorting something else at %s" % i.loc)
            v = m[0].a[0]
            els = sorted(self.vec(st, v), key=lambda e: (self.str(I, st, e[0]), self.str(I, st, e[1])))
            st.objs[("sorted",)] = True
            self.layout(I, st, v, els)
            return True

        def fctor(I, st, i, a):
            # from a function
            if len(a) > 1 and a[1].k == "glob":
                st.objs[("fun", a[0])] = a[1]
                return True
            if len(a) > 1:
                t = st.objs.get(("fun", a[1]))
                if t is None:
                    x = I.load(st, a[1], "ptr", 8)
                    t = x if x.k == "glob" else None
                if t is not None:
                    st.objs[("fun", a[0])] = t
                return True
            return True

        def fcall(I, st, i, a):
            t = st.objs.get(("fun", a[0]))
            if t is None:
                raise ToolError("unknown function called at %s" % i.loc)
            return mk("apply", 64, t.a[0], a[1])
        return [(V + r"(emplace_back|push_back)", emplace), (V + r"size\(\) const", size), (V + r"empty\(\) const", empty), (V + r"(operator\[\]|at)\(", index), (V + r"c?begin\(\)", begin),
                (V + r"c?end\(\)", end), (V + r"reserve\(", lambda I, st, i, a: True), (r"std::(stable_)?sort<", sort), (r"^std::function<double \(double\)>::function", fctor),
                (r"^std::function<double \(double\)>::operator\(\)\(double\) const", fcall), (r"^std::function<double \(double\)>::~function", lambda I, st, i, a: True),
                (r"^__cxa_guard_acquire$", lambda I, st, i, a: C(1, 32)), (r"^__cxa_guard_release$", lambda I, st, i, a: (I.store(st, a[0], C(1, 8), 1), True)[1]),
                (r"^strcmp$", text.h_strcmp), (r"^strncmp$", text.h_strncmp)]

    def str(self, I, st, p):
        b = text.cstr(I, st, p)
        if b is None or not all(isc(x) for x in b):
            raise ToolError("unknown name of a unit")
        return bytes(uval(x) for x in b).decode("latin1")


class Out(Exception):
    def __init__(self, k, n):
        self.k, self.n = k, n


def ulp(x, y):
    return abs(x - y) <= TOL * max(abs(x), abs(y))


def run(rep):
    mod = load()
    R = Repo(mod)
    for r, n in (("conversion agrees with the definitions of the units", 120), ("conversion there and back", 80), ("lookup", 200), ("order", 100), ("octants", 10), ("code tables", 20)):
        rep.rule(r, n)
    ctor = mod.find(r"ConvertRepository::ConvertRepository\(\)$")
    fn = mod.find(r"^wreport::convert_units\(")
    I = Interp(mod, fn, hooks=R.hooks() + [(r"ConvertRepository::(ConvertRepository|add_)", lambda I, st, i, a: ("into", mod.fns[mod.aliases.get(i.get("fn"), i.get("fn"))], a))],
               unroll=5000, max_steps=3000000, into=r"^wreport::\(anonymous namespace\)::Conv\w*::convert\(double\) const$")
    val = mk("arg", "double" if False else 64, 2, fn.args[2].get("n") or "val")

    def name(I, st, k, s):
        p = mk("arg", 64, k, fn.args[k].get("n") or "arg%d" % k)
        st.assume(mk("eq0", 1, p), False)
        text.put(I, st, p, [C(c, 8) for c in s.encode("latin1")] + [C(0, 8)])

    # build the repository once: ask for a conversion that cannot exist
    first = {}

    def init0(I, st):
        name(I, st, 0, "no such unit")
        name(I, st, 1, "no such unit either")
        for g in mod.globals:
            if "convert_units" in g and not g.startswith("_ZTS"):
                I.store(st, mk("glob", 64, g), C(0, 64), 8)
    ps = I.run(init=init0)
    ends = {p.end for p in ps}
    if "throw" not in ends:
        rep.bad("lookup", fn.where, "an unknown conversion is not reported as an error")
        return
    st0 = next(p.st for p in ps if p.end == "throw")
    vecs = [k[1] for k in st0.objs if isinstance(k, tuple) and k[0] == "vec"]
    if len(vecs) != 1:
        raise ToolError("%d tables of conversions" % len(vecs))
    v = vecs[0]
    els = [(R.str(I, st0, e[0]), R.str(I, st0, e[1]), e[2]) for e in R.vec(st0, v)]
    pairs = {}
    for f, t, c in els:
        pairs.setdefault((f, t), []).append(c)
    rep.count("conversions", len(els))
    rep.count("pairs of units", len(pairs))
    rep.check(("sorted",) in st0.objs, "order", fn.where, "the conversions are not sorted")
    ltop = mod.find(r"^wreport::\(anonymous namespace\)::Conv::operator<\(", one=False)
    if ltop:
        order(rep, mod, R, ltop[0], els, st0, v)
    else:
        raise ToolError("no order of conversions")

    def ask(f, t):
        """the outcome of a conversion"""
        J = Interp(mod, fn, hooks=I0hooks, unroll=5000, into=r"^wreport::\(anonymous namespace\)::Conv\w*::convert\(double\) const$")

        def init(J, st):
            s = st0.fork()
            for k in State.__slots__:
                setattr(st, k, getattr(s, k))
            st.env, st.loops, st.ev = {}, frozenset(), []
            for k in [k for k in st.objs if isinstance(k, tuple) and k[0] in Interp.FRAME]:
                del st.objs[k]
            name(J, st, 0, f)
            name(J, st, 1, t)
        J.freshctr = I.freshctr
        J.ptr = I.ptr
        try:
            ps = J.run(init=init)
        except Out as e:
            return "out", "element %s of %d" % (show(e.k), e.n)
        if len(ps) != 1:
            raise ToolError("%d outcomes of converting %s to %s" % (len(ps), f, t))
        p = ps[0]
        if p.end == "throw":
            return "error", p.what
        return "value", p.ret
    I0hooks = R.hooks() + [(r"ConvertRepository::(ConvertRepository|add_)", lambda I, st, i, a: ("into", mod.fns[mod.aliases.get(i.get("fn"), i.get("fn"))], a))]
    res = {}
    for (f, t), cs in sorted(pairs.items()):
        k, x = ask(f, t)
        where = "%s to %s" % (f, t)
        if not rep.check(k == "value", "lookup", fn.where, "the conversion from %s to %s is in the table and is not found (%s)" % (f, t, x)):
            continue
        if x.k == "apply":
            res[f, t] = ("function", mod.fns[x.a[0]].dem.split("(")[0], x.a[1])
            continue
        r = real(x)
        if len(r.d) != 1 or not all(a.k == "arg" and a.a[0] == 2 for a in r.d):
            rep.bad("conversion agrees with the definitions of the units", fn.where, "converting from %s to %s is not linear: %s" % (f, t, show(x)))
            continue
        mul, off = float(list(r.d.values())[0]), float(r.c)
        res[f, t] = ("linear", mul, off)
        # other entries for the same pair are as good
        ms = [(a, b) for a in UNITS.get(f, ()) for b in UNITS.get(t, ()) if a[0] == b[0]]
        if ms:
            ok = any(ulp(mul, a[1] / b[1]) and abs(off - (a[2] - b[2]) / b[1]) <= 0.002 / b[1] for a, b in ms)
            a, b = ms[0]
            rep.check(ok, "conversion agrees with the definitions of the units", fn.where,
                      "1 %s is converted to %g %s%s; it is %g%s" % (f, mul, t, " %+g" % off if off else "", a[1] / b[1], " %+g" % ((a[2] - b[2]) / b[1]) if a[2] != b[2] else ""))
        elif f in UNITS and t in UNITS:
            rep.bad("conversion agrees with the definitions of the units", fn.where, "%s and %s are units of different things" % (f, t))
    for (f, t), r in sorted(res.items()):
        b = res.get((t, f))
        if r[0] != "linear":
            continue
        if not rep.check(b is not None, "conversion there and back", fn.where, "%s is converted to %s and %s is not converted to %s" % (f, t, t, f)):
            continue
        rep.check(b[0] == "linear" and ulp(r[1] * b[1], 1) and abs(r[2] * b[1] + b[2]) <= 0.01, "conversion there and back", fn.where,
                  "from %s to %s and back: x becomes %g x %+g" % (f, t, r[1] * b[1], r[2] * b[1] + b[2]) if b[0] == "linear" else "not linear")
    # duplicates: which one is found depends on the sort
    sizes = {}
    for (f, t), cs in pairs.items():
        forms = set()
        for c in cs:
            forms.add(form(I, st0, c))
        if len(forms) > 1:
            fs = sorted(forms, key=repr)
            ok = all(x[0] == "linear" for x in fs) and all(ulp(x[1], fs[0][1]) and abs(x[2] - fs[0][2]) <= 0.002 for x in fs)
            rep.check(ok, "conversion agrees with the definitions of the units", fn.where, "%s is converted to %s in two different ways: %s" % (f, t, fs))
    # the same unit, and units not in the table
    names = sorted({x for p in pairs for x in p})
    for n in names:
        k, x = ask(n, n)
        rep.check(k == "value" and x.k == "arg" and x.a[0] == 2, "lookup", fn.where, "converting %s to itself changes the value" % n)
    q = 0
    for f in names + ["", "~", "no such unit", "KK"]:
        for t in [names[(names.index(f) + 7) % len(names)] if f in names else names[0], "~", "", "no such unit"] + (names if rep.tier != "quick" else []):
            if (f, t) in pairs or f == t:
                continue
            k, x = ask(f, t)
            rep.check(k == "error" and "error_unimplemented" in x, "lookup", fn.where, "converting %s to %s, which is not in the table, %s" % (f, t, "gives %s" % show(x) if k == "value" else "ends in %s" % x))
            q += 1
    rep.count("conversions that do not exist, asked for", q)
    octants(rep, mod, res)
    codetables(rep, mod)
    rep.explanation = ("the construction of the table of conversions is interpreted abstractly, then convert_units is interpreted on every pair of units in the table with a symbolic value: the result, as an "
                       "exact affine form of the value, is compared with the ratio of the units by their definitions; conversions of code tables are interpreted with symbolic values and their "
                       "traces compared with the documented tables and with their inverses")
    rep.assumptions += ["std::sort puts the entries in the order operator< defines", "factors agree with the definitions of the units to 1e-4, as several are written with five digits"]


def form(I, st, c):
    vt = I.load(st, c, "ptr", 8)
    nm = repr(vt)
    if "Linear" in nm:
        return ("linear", real(I.load(st, add(c, C(8, 64)), "double", 8)).c.__float__(), real(I.load(st, add(c, C(16, 64)), "double", 8)).c.__float__())
    if "Ident" in nm:
        return ("linear", 1.0, 0.0)
    return (nm,)


def order(rep, mod, R, lt, els, st0, v):
    """operator< is the order by first, then second unit"""
    n = len(els)
    pairs = [(i, i + 1) for i in range(n - 1)] + [(i + 1, i) for i in range(n - 1)] + [(i, (i * 7 + 3) % n) for i in range(n)]
    for i, j in pairs:
        J = Interp(mod, lt, hooks=R.hooks(), unroll=50)
        a0 = mk("arg", 64, 0, lt.args[0].get("n") or "arg0")
        a1 = mk("arg", 64, 1, lt.args[1].get("n") or "arg1")

        def init(J, st):
            for base, k in ((a0, i), (a1, j)):
                for o in range(2):
                    p = mk("arg", 64, 50 + 2 * (base is a1) + o, "unit")
                    text.put(J, st, p, [C(c, 8) for c in els[k][o].encode("latin1")] + [C(0, 8)])
                    J.store(st, add(base, C(8 * o, 64)), p, 8)
        ps = J.run(init=init)
        exp = els[i][:2] < els[j][:2]
        for p in ps:
            if p.end == "ret":
                rep.check(isc(p.ret) and bool(uval(p.ret) & 1) == exp, "order", lt.where, "the conversion %s to %s is%s put before %s to %s" % (els[i][0], els[i][1], " not" if exp else "", els[j][0], els[j][1]))


# -- code tables: pieces of an integer function: (lo, hi, form)
def pieces(mod, pat):
    f = mod.find(r"^wreport::%s\(" % pat)
    x = mk("arg", 32, 0, f.args[0].get("n") or "arg0")
    I = Interp(mod, f, hooks=[], unroll=40, fork_exits=True)
    r = []
    for p in I.run():
        q = p.st.rng(x)
        r.append((q[0], q[1], p))
    return f, x, r


def at(f, x, ps, n):
    """outcomes for the value n"""
    out = []
    for lo, hi, p in ps:
        s = p.st.fork()
        if not lo <= n <= hi:
            continue
        if not s.assume(mkeq_(s, x, n), True):
            continue
        if any(v is False and c.k == "eq0" and c.a[0] is sub(x, C(n, 32)) for c, v in p.st.known.items()):
            continue
        if p.end == "throw":
            out.append(("error", p.what))
        elif p.end == "ret":
            t = p.ret
            k, d = aslin(t)
            if set(d) <= {x}:
                out.append(("value", (k + d.get(x, 0) * n + (1 << 31)) % (1 << 32) - (1 << 31)))
            else:
                out.append(("unknown", show(t)))
    return out


def mkeq_(s, x, n):
    return mk("eq0", 1, sub(x, C(n, 32)))


def codetables(rep, mod):
    rule = "code tables"
    T = {"WMO0500": ("BUFR20012", 0, 9, 0, 59), "WMO0509": ("BUFR20012", 0, 9, 10, 60), "WMO0515": ("BUFR20012", 0, 9, 20, 61), "WMO0513": ("BUFR20012", 0, 9, 30, 62),
         "WMO4677": ("BUFR20003", 0, 99, 0, None), "WMO4561": ("BUFR20004", 0, 9, 0, None)}
    for w, (b, lo, hi, k, miss) in T.items():
        f, x, ps = pieces(mod, "convert_%s_to_%s" % (w, b))
        g, y, qs = pieces(mod, "convert_%s_to_%s" % (b, w))
        for n in range(0, 200):
            o = at(f, x, ps, n)
            if lo <= n <= hi:
                rep.check(o == [("value", n + k)], rule, f.where, "%d in code table %s becomes %s in %s: it is %d" % (n, w, o, b, n + k))
            else:
                rep.check(all(e[0] == "error" and "error_domain" in e[1] for e in o) and o, rule, f.where, "%d, which is not in code table %s, becomes %s" % (n, w, o))
            o = at(g, y, qs, n)
            if lo <= n - k <= hi:
                rep.check(o == [("value", n - k)], rule, g.where, "%d in %s becomes %s in code table %s: it is %d" % (n, b, o, w, n - k))
            elif n != miss:
                rep.check(all(e[0] == "error" and "error_domain" in e[1] for e in o) and o, rule, g.where, "%d in %s, which is not in code table %s, becomes %s" % (n, b, w, o))
        if miss is not None:
            rep.check(at(f, x, ps, -1) == [("value", miss)] and at(g, y, qs, miss) == [("value", -1)], rule, f.where, "the missing value of %s is not %d" % (w, miss))
    flags(rep, mod)


def flags(rep, mod):
    rule = "code tables"
    e = {}
    for n, d in mod.enums.items():
        m = re.search(r"BUFR(08001|08042)", n)
        if m:
            e[m.group(1)] = d if isinstance(d, dict) else dict(d)
    want = {"SIGWIND": ["SIGWIND"], "SIGTH": ["SIGTEMP", "SIGHUM"], "MAXWIND": ["MAXWIND"], "TROPO": ["TROPO"], "STD": ["STD"], "SURFACE": ["SURFACE"]}
    # flag tables of the manual on codes: bit 1 is the most significant of 7 and of 18
    A = {"SURFACE": 1 << 6, "STD": 1 << 5, "TROPO": 1 << 4, "MAXWIND": 1 << 3, "SIGTH": 1 << 2, "SIGWIND": 1 << 1, "MISSING": 1 << 0}
    B = {"SURFACE": 1 << 17, "STD": 1 << 16, "TROPO": 1 << 15, "MAXWIND": 1 << 14, "SIGTEMP": 1 << 13, "SIGHUM": 1 << 12, "SIGWIND": 1 << 11, "MISSING": 1 << 0}
    f, x, ps = pieces(mod, "convert_BUFR08001_to_BUFR08042")
    g, y, qs = pieces(mod, "convert_BUFR08042_to_BUFR08001")

    def ev(t, x, n):
        """value of a term of flags"""
        m = {x: n}

        def go(t):
            if t in m:
                return m[t]
            if isc(t):
                r = uval(t)
            else:
                k = t.k
                if k == "lin":
                    r = t.a[0] + sum(c * go(z) for z, c in t.a[1])
                elif k == "sel":
                    r = go(t.a[1]) if go(t.a[0]) else go(t.a[2])
                elif k == "eq0":
                    r = 1 if go(t.a[0]) == 0 else 0
                elif k == "ne0":
                    r = 1 if go(t.a[0]) != 0 else 0
                elif k in ("and", "or", "xor"):
                    a, b = go(t.a[0]), go(t.a[1])
                    r = a & b if k == "and" else a | b if k == "or" else a ^ b
                elif k in ("lshr", "shl", "ashr"):
                    a, b = go(t.a[0]), go(t.a[1])
                    r = a >> b if k != "shl" else a << b
                elif k == "bits":
                    r = 0
                    for j, bit in enumerate(t.a):
                        if isinstance(bit, tuple):
                            r |= ((go(bit[0]) >> bit[1]) & 1) << j
                        elif isinstance(bit, T):
                            r |= (go(bit) & 1) << j
                        else:
                            r |= int(bit) << j
                elif k == "bit":
                    r = (go(t.a[0]) >> t.a[1]) & 1
                elif k == "not":
                    r = 1 - go(t.a[0])
                elif k in ("zext",):
                    r = go(t.a[0])
                elif k == "trunc":
                    r = go(t.a[0])
                else:
                    raise ToolError("flags computed with %s" % k)
            r &= (1 << t.w) - 1
            m[t] = r
            return r
        return go(t)

    def result(f, x, ps, n):
        out = set()
        for lo, hi, p in ps:
            ok = True
            for c, v in p.st.known.items():
                if x in atoms(c) or c is x:
                    if bool(ev(c, x, n)) != v:
                        ok = False
                        break
            if ok and p.end == "ret":
                out.add(ev(p.ret, x, n))
            elif ok:
                out.add(p.end)
        return out
    for n in range(128):
        exp = None if n & 1 else sum({B[z] for w, zs in want.items() if n & A[w] for z in zs})
        o = result(f, x, ps, n)
        if n & 1:
            ok = len(o) == 1 and all(isinstance(z, int) and z & B["MISSING"] for z in o)
        else:
            ok = o == {exp}
        rep.check(ok, rule, f.where, "flags %s of 08001 become %s in 08042%s" % (bin(n), [hex(z) if isinstance(z, int) else z for z in o], ": they are %s" % hex(exp) if exp is not None else ": they are missing"))
    # levels of the AOF format: bit -> flag
    V = {0: "MAXWIND", 1: "TROPO", 3: "STD", 5: "STD", 6: "SURFACE", 7: "SIGWIND", 8: "SIGTEMP"}
    h, z, hs = pieces(mod, "convert_AOFVSS_to_BUFR08042")
    for n in range(512):
        exp = sum({B[w] for k, w in V.items() if n >> k & 1})
        o = result(h, z, hs, n)
        rep.check(o == {exp}, rule, h.where, "AOF significance %s becomes %s in 08042: it is %s" % (bin(n), [hex(q) if isinstance(q, int) else q for q in o], hex(exp)))
    bitsb = sorted(set(B.values()) - {1})
    for k in range(1 << len(bitsb)):
        n = sum(b for j, b in enumerate(bitsb) if k >> j & 1)
        exp = sum({A[w] for w, zs in want.items() for z in zs if n & B[z]})
        for m in (n, n | 1):
            o = result(g, y, qs, m)
            ok = o == {exp} if not m & 1 else len(o) == 1 and all(isinstance(z, int) and z & A["MISSING"] for z in o)
            rep.check(ok, rule, g.where, "flags %s of 08042 become %s in 08001: they are %s" % (hex(m), [hex(z) if isinstance(z, int) else z for z in o], hex(exp) if not m & 1 else "missing"))


def octants(rep, mod, res):
    rule = "octants"
    rep.check(res.get(("octants", "DEGREE TRUE"), ("",))[0:2] == ("function", "wreport::convert_octants_to_degrees") and
              res.get(("DEGREE TRUE", "octants"), ("",))[0:2] == ("function", "wreport::convert_degrees_to_octants"), rule, "wreport/conv.cc", "octants and degrees are not converted by their functions")
    f, x, ps = pieces(mod, "convert_octants_to_degrees")
    for n in range(-3, 13):
        out = []
        for lo, hi, p in ps:
            if not lo <= n <= hi:
                continue
            if p.end == "throw":
                out.append("error" if "error_domain" in p.what else p.what)
            elif p.end == "ret":
                r = real(p.ret, p.st)
                out.append(float(r.c + sum(v * n for v in r.d.values())) if all((k[1] if isinstance(k, tuple) else k) is x for k in r.d) else show(p.ret))
        rep.check(out == ([45.0 * n] if 0 <= n <= 8 else ["error"]), rule, f.where, "%d octants become %s degrees" % (n, out))
    # degrees: the values each trace is for
    g = mod.find(r"^wreport::convert_degrees_to_octants\(")
    I = Interp(mod, g, hooks=[], unroll=40, fork_exits=True)
    ps = I.run()
    ys = {t for p in ps for c in p.st.known for t in atoms(c) if t.k == "arg" and t.a[0] == 0}
    if len(ys) != 1:
        raise ToolError("degrees are not compared with anything")
    y = ys.pop()
    # [lo, hi] or (lo, hi] -> octants
    parts = [(0.0, False, 0.0, 0), (0.0, True, 22.5, 8), (337.5, True, 360.0, 8)] + [(22.5 + 45 * (k - 1), True, 22.5 + 45 * k, k) for k in range(1, 8)]

    def expected(d):
        return next((n for lo, op, hi, n in parts if (lo < d or lo == d and not op) and d <= hi), "error")

    def outcome(p, d=None):
        if p.end == "throw":
            return "error" if "error_domain" in p.what else p.what
        if p.end != "ret":
            return p.end
        return uval(p.ret) if isc(p.ret) else None if d is None else fval(p.ret, y, d)
    pts = {0.0} | {d + e for d in [22.5 + 45 * k for k in range(8)] + [45.0 * k for k in range(9)] for e in (-0.25, 0.0, 0.25)} | {-1.0, 361.0}
    for p in ps:
        lo, lop, hi, hop, nan = p.st.frng(y)
        if lo > hi or lo == hi and (lop or hop):
            continue    # not a number
        o = outcome(p)
        if o == "error":
            ok = hi < 0 or hi == 0 and hop or lo > 360 or lo == 360 and lop
        else:
            ok = any(n == o and (lo > a or lo == a and (lop or not op)) and (hi <= b) for a, op, b, n in parts)
        if ok:
            rep.ok(rule)
        else:
            pts |= {x + e for x in (lo, hi) if abs(x) < 1e6 for e in (-0.01, 0, 0.01)} | {(lo + hi) / 2 if abs(lo) < 1e6 and abs(hi) < 1e6 else 1000.0}
    for d in sorted(pts):
        out = set()
        for p in ps:
            if all(fcmp(c, y, d) in (None, b) for c, b in p.st.known.items()):
                out.add(outcome(p, d))
        rep.check(out == {expected(d)}, rule, g.where, "%g degrees become %s octants: it is %s" % (d, sorted(map(str, out)), expected(d)))


def fval(t, y, d):
    """value of a term at y = d"""
    import math
    if t is y:
        return d
    if isc(t):
        return uval(t)
    if t.k == "fc":
        return t.a[0]
    if t.k == "lin":
        return t.a[0] + sum(c * fval(z, y, d) for z, c in t.a[1])
    if t.k in ("sitofp", "uitofp", "zext", "sext", "trunc"):
        return fval(t.a[0], y, d)
    if t.k in ("fptosi", "fptoui"):
        return int(fval(t.a[0], y, d))
    if t.k in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = fval(t.a[0], y, d), fval(t.a[1], y, d)
        return a + b if t.k == "fadd" else a - b if t.k == "fsub" else a * b if t.k == "fmul" else a / b
    if t.k == "sel":
        return fval(t.a[1] if fcmp(t.a[0], y, d) else t.a[2], y, d)
    f = t.k if t.k != "call" else t.a[0]
    x = t.a[0] if t.k != "call" else t.a[1][0]
    if f in ("floor", "ceil", "round", "rint", "trunc"):
        x = fval(x, y, d)
        return math.floor(x) if f == "floor" else math.ceil(x) if f == "ceil" else int(x) if f == "trunc" else round(x) if f == "rint" else int(x + math.copysign(0.5, x))
    raise ToolError("octants computed with %s" % show(t))


def fcmp(c, y, d):
    """truth of a condition at y = d"""
    if c.k in ("and", "or") and c.w == 1:
        vs = [fcmp(x, y, d) for x in c.a]
        if None in vs:
            return None
        return all(vs) if c.k == "and" else any(vs)
    if c.k in ("not", "eq0") and c.w == 1 and isinstance(c.a[0], T) and c.a[0].w == 1:
        v = fcmp(c.a[0], y, d)
        return None if v is None else not v
    if y not in atoms(c):
        return None
    if c.k == "fcmp":
        p, a, b = c.a[0], fval(c.a[1], y, d), fval(c.a[2], y, d)
        if p in ("uno", "ord"):
            return p == "ord"
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]
    if c.k == "eq0":
        return fval(c.a[0], y, d) == 0
    if c.k in ("slt", "ult"):
        return fval(c.a[0], y, d) < fval(c.a[1], y, d)
    raise ToolError("condition on degrees not understood: %s" % show(c))
