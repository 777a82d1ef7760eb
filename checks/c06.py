"""C06: out of domain values are never stored; each domain error policy does what it says."""
import re
from wra import codec
from checks import c26
from wra.absint import *
from wra.seq import obj
from wra.var import *
from wra.build import ToolError

NOIN = codec.STRNO + [r"^wreport::convert_units\(", r"Var::(print|print_without_attrs|diff|format|setattrs|clear_attrs|~Var)\("]


def option_sets():
    return [(s, c, h) for s in (0, 1) for c in (0, 1) for h in (0, 1)]


def set_options(I, st, o):
    for g, v in zip((SIL, CLA), o):
        I.store(st, mk("glob", 64, g), C(v, 8), 1)
    hook = obj("hook") if o[2] else C(0, 64)
    if o[2]:
        st.assume(mk("eq0", 1, hook), False)
    I.store(st, mk("glob", 64, HOO), hook, 8)
    return hook


def opt_names(o):
    n = [x for x, v in zip(("silent", "clamp", "hook"), o) if v]
    return "+".join(n) or "default"


def run(rep):
    rep.explanation = (
        "Every member function of Var is abstractly interpreted with everything it calls inlined (apart from unit conversion), for every "
        "variable type and every combination of the three domain error options. The facts each trace has established about the value it "
        "stores must imply that the value is in the domain. For the numeric setters, each relation of the value to the bounds "
        "(below, inside, above, NaN) must lead to the outcome the options document.")
    mod = codec.load([r"^wreport::Var::"], noinline=NOIN)
    for g in (SIL, CLA, HOO):
        if g not in mod.globals and not any(g in str(i.a) for f in mod.fns.values() for i in f.all()):
            raise ToolError("option %s not found" % g)
    M = VarModel(mod)
    R = {"in": "a value inside the domain is stored", "policy": "a value outside the domain has the outcome the options ask for",
         "stored": "a stored number is known to be inside the domain of the variable", "out": "no other outcome is possible"}
    rep.rule(R["in"], 30)
    rep.rule(R["policy"], 80)
    rep.rule(R["stored"], 60)
    rep.rule(R["out"], 60)
    cases(rep, R, mod, M)
    posthoc(rep, R, mod, M)
    c26.text_to_number(rep)
    rep.count("functions", len(mod.fns))


def h_attrs(M):
    """members that change attributes only: they are analysed on their own, here they touch nothing but the attribute list"""
    def h(I, st, i, a):
        I.store(st, M.field(a[0], "m_attrs"), I.fresh(64, "attributes"), 8)
        return True
    return [(r"^wreport::Var::(setattrs|clear_attrs|~Var)\(", h)]


def runfn(mod, f, init, M=None, **kw):
    I = Interp(mod, f, hooks=h_attrs(M or VarModel(mod)), max_paths=60000, **kw)
    return I, I.run(init=init)


# ---- every relation of the value to the bounds, every option set

def cases(rep, R, mod, M):
    for name, ty, kind in ((r"^wreport::Var::seti\(", "Integer", "i"), (r"^wreport::Var::seti\(", "Decimal", "i"),
                           (r"^wreport::Var::setd\(", "Decimal", "d"), (r"^wreport::Var::setd\(", "Integer", "d"),
                           (r"^wreport::Var::Var\(wreport::_Varinfo const\*, int\)", "Integer", "i"),
                           (r"^wreport::Var::Var\(wreport::_Varinfo const\*, int\)", "Decimal", "i"),
                           (r"^wreport::Var::Var\(wreport::_Varinfo const\*, double\)", "Decimal", "d"),
                           (r"^wreport::Var::Var\(wreport::_Varinfo const\*, double\)", "Integer", "d")):
        f = mod.find(name)
        ctor = "Var::Var" in f.dem
        this = mk("arg", 64, 0, f.args[0]["n"] or "arg0")
        vi = 2 if ctor else 1
        val = mk("arg", "d" if kind == "d" else 32, vi, f.args[vi]["n"] or "arg%d" % vi)
        info = mk("arg", 64, 1, f.args[1]["n"] or "arg1") if ctor else M.info(this)
        rels = ("below", "in", "above") if kind == "i" else ("below", "in", "above", "nan", "far")
        if kind == "d" and ty == "Integer":
            rels = ("nan", "far below", "far above", "in a known domain", "below a known domain", "above a known domain")
        for rel in rels:
            for o in option_sets():
                def init(I, st):
                    set_options(I, st, o)
                    M.set_type(I, st, this, ty, info)
                    if "known" in rel:
                        known(I, st, M, this, info, val, rel)
                    else:
                        relate(I, st, M, this, info, val, rel, kind)
                I, ps = runfn(mod, f, init, M)
                want = expected(rel, o)
                if not ps:
                    rep.bad(R["policy"], f.where, "no outcome with the value %s and options %s" % (rel, opt_names(o)))
                for p in ps:
                    got = outcome(I, M, p, this, info, val, kind, ty)
                    rule = R["in"] if rel.startswith("in") else R["policy"]
                    rep.check(got == want, rule, where(f, p),
                              "%s %s on a %s variable, value %s, options %s: %s instead of %s" % (
                                  "constructor" if ctor else f.short.split("::")[-1], kind, ty, rel, opt_names(o), got, want),
                              what="%s %s %s %s -> %s" % (f.short, ty, rel, opt_names(o), got))


def where(f, p):
    return "%s (trace ends at %s)" % (f.where, p.ins.loc)


def relate(I, st, M, this, info, val, rel, kind):
    if kind == "i":
        lo, hi = M.inf(this, "imin", info), M.inf(this, "imax", info)
        st.assume(mk("slt", 1, hi, lo), False)
        st.assume(mk("slt", 1, val, lo), rel == "below")
        st.assume(mk("slt", 1, hi, val), rel == "above")
        if rel != "in":
            # the other bound follows
            st.assume(mk("slt", 1, val, hi), rel == "below")
            st.assume(mk("slt", 1, lo, val), rel == "above")
        return
    lo, hi = M.inf(this, "dmin", info), M.inf(this, "dmax", info)
    for b in (lo, hi):
        st.assume(mk("fcmp", 1, "uno", b, b), False)
        st.assume(mk("fcmp", 1, "olt", b, mk("fc", "d", -2147483648.0 * 1e16)), False)
    st.assume(mk("fcmp", 1, "ole", lo, hi), True)
    if rel == "nan":
        st.assume(mk("fcmp", 1, "uno", val, val), True)
        return
    st.assume(mk("fcmp", 1, "uno", val, val), False)
    below, above = rel in ("below", "far below"), rel in ("above", "far", "far above")
    st.assume(mk("fcmp", 1, "olt", val, lo), below)
    st.assume(mk("fcmp", 1, "ogt", val, hi), above)
    if below:
        st.assume(mk("fcmp", 1, "olt", val, hi), True)
    if above:
        st.assume(mk("fcmp", 1, "ogt", val, lo), True)
    if rel == "far above":
        st.assume(mk("fcmp", 1, "oge", val, mk("fc", "d", 4294967296.0)), True)
    if rel == "far below":
        st.assume(mk("fcmp", 1, "ole", val, mk("fc", "d", -4294967296.0)), True)


def known(I, st, M, this, info, val, rel):
    """a domain from -1000 to 1000: rounding to an integer can be followed"""
    fld = lambda n: add(info if info is not None else M.info(this), C(M.io[n][0], 64))
    for n, v in (("imin", -1000), ("imax", 1000)):
        I.store(st, fld(n), C(v, 32), 4)
    for n, v in (("dmin", -1000.0), ("dmax", 1000.0)):
        I.store(st, fld(n), mk("fc", "d", v), 8)
    lo, hi = {"in": (-1000.0, 1000.0), "below": (-2147483000.0, -1001.0), "above": (1001.0, 2147483000.0)}[rel.split()[0]]
    st.assume(mk("fcmp", 1, "uno", val, val), False)
    st.assume(mk("fcmp", 1, "oge", val, mk("fc", "d", lo)), True)
    st.assume(mk("fcmp", 1, "ole", val, mk("fc", "d", hi)), True)


def expected(rel, o):
    s, c, h = o
    if rel.startswith("in"):
        return "stored"
    if s:
        return "unset"
    if rel != "nan" and c:
        return "minimum stored" if "below" in rel else "maximum stored"
    if h:
        return "left to the hook"
    return "unset and error_domain"


def outcome(I, M, p, this, info, val, kind, ty):
    st = p.st
    s = M.isset(I, st, this)
    hk = [e for e in p.ev if e.kind == "icall"]
    if p.end == "throw":
        if "error_domain" not in p.what:
            return "%s thrown" % p.what.split("(")[0]
        return "unset and error_domain" if s is False else "error_domain with the value still set"
    if p.end != "ret":
        return p.end
    if hk:
        e = hk[-1]
        if not any(a is this for a in e.a[1:]) or not any(same(I, st, a, val) for a in e.a[1:]):
            return "hook called without the variable and the value"
        if any(x.kind == "store" and split(x.a[0])[0] is this and split(x.a[0])[1] == M.vo["m_isset"][0] and isc(x.a[1]) and x.a[1].a[0] for x in p.ev):
            return "hook called and value set"
        return "left to the hook"
    if s is False:
        return "unset"
    if s is None:
        return "neither set nor unset"
    v = M.ival(I, st, this)
    a = atoms(v)
    lo, hi = ("imin", "imax") if kind == "i" else ("dmin", "dmax")
    bad = M.inf(this, lo, info), M.inf(this, hi, info)
    ib = M.inf(this, "imin", info), M.inf(this, "imax", info)
    if kind == "i":
        if v is val:
            return "stored"
        return "minimum stored" if v is ib[0] else "maximum stored" if v is ib[1] else "%s stored" % v
    if isc(v) and uval(v) in (2 ** 32 - 1000, 1000):
        return "maximum stored" if uval(v) == 1000 else "minimum stored"
    if v is ib[0] or v is ib[1]:
        return "minimum stored" if v is ib[0] else "maximum stored"
    if v.k == "trunc":
        v = v.a[0]
    if v.k not in ("fptosi", "call", "lround", "lrint", "llround", "llrint"):
        return "%s stored" % v
    has = [x for x in (val,) + bad if x in a]
    if has == [val]:
        return "stored"
    if has == [bad[0]]:
        return "minimum stored"
    if has == [bad[1]]:
        return "maximum stored"
    return "%s stored" % v


def same(I, st, a, val):
    return val in atoms(a) or (a.w == val.w and isinstance(a.w, int) and st.decide(I.mkeq(st, a, val)) is True)


# ---- whatever the input: a stored number is inside the domain

def posthoc(rep, R, mod, M):
    for f in mod.fns.values():
        if f.dem.endswith(" const") or not f.args or f.args[0]["ty"] != "ptr" or "lua_" in f.dem or "~Var" in f.dem:
            continue
        if f.d.get("acc") in ("protected", "private"):
            continue    # reached through the public members
        if f.args[0].get("sret"):
            continue
        this = mk("arg", 64, 0, f.args[0]["n"] or "arg0")
        ctor = "Var::Var(wreport::_Varinfo" in f.dem
        info = mk("arg", 64, 1, f.args[1]["n"] or "arg1") if ctor else None
        for ty in ("Integer", "Decimal"):
            for o in option_sets():
                def init(I, st):
                    set_options(I, st, o)
                    M.set_type(I, st, this, ty, info)
                    lo, hi = M.inf(this, "dmin", info), M.inf(this, "dmax", info)
                    for b in (lo, hi):
                        st.assume(mk("fcmp", 1, "uno", b, b), False)
                    st.assume(mk("fcmp", 1, "ole", lo, hi), True)
                    st.assume(mk("slt", 1, M.inf(this, "imax", info), M.inf(this, "imin", info)), False)
                    if re.search(r"Var::(Var|operator=)\(wreport::Var( const&|&&)\)", f.dem):
                        M.set_type(I, st, mk("arg", 64, 1, f.args[1]["n"] or "arg1"), ty)
                I, ps = runfn(mod, f, init, M)
                for p in ps:
                    judge(rep, R, M, I, f, p, this, ty, o)


def judge(rep, R, M, I, f, p, this, ty, o):
    st = p.st
    if p.end not in ("ret", "throw"):
        return
    wrote = [e for e in p.ev if e.kind == "store" and split(e.a[0])[0] is this and
             split(e.a[0])[1] in (M.vo["m_value"][0], M.vo["m_isset"][0])]
    s = M.isset(I, st, this)
    label = "%s on a %s variable with options %s" % (f.short.split("::")[-1], ty, opt_names(o))
    if p.end == "throw":
        if "error_domain" in (p.what or ""):
            rep.check(s is False and o == (0, 0, 0) or (s is False and o[0] == 0 and o[2] == 0), R["out"], where(f, p), "%s: error_domain thrown, variable %s" % (label, "set" if s else "not unset" if s is None else "unset"), what=label)
        elif s is True and wrote:
            rep.check(stored_ok(M, I, st, this) is None, R["stored"], where(f, p), "%s: %s" % (label, stored_ok(M, I, st, this)), what=label)
        return
    if not wrote:
        return
    if s is False:
        return
    why = stored_ok(M, I, st, this)
    rep.check(why is None, R["stored"], where(f, p), "%s: %s" % (label, why), what=label)


ROUND = ("lround", "llround", "lrint", "llrint")


def stored_ok(M, I, st, this):
    """None when the number in the variable is known to be in its domain"""
    v = M.ival(I, st, this)
    info = M.get(I, st, this, "m_info")
    while v.k == "trunc" and v.a[0].k == "ld":
        v = v.a[0]
    if v.k == "ld" and split(v.a[0])[1] == M.vo["m_value"][0]:
        # still what was there, or copied from a variable with the same information
        src = add(v.a[0], C(-M.vo["m_value"][0], 64))
        if src is this or info is M.info(src) or st.decide(I.mkeq(st, info, M.info(src))) is True:
            return None
    lo, hi, dlo, dhi = (M.inf(this, n, info) for n in ("imin", "imax", "dmin", "dmax"))
    if v is lo or v is hi:
        return None
    if v.k == "trunc" and (v.a[0].k in ROUND or v.a[0].k == "call" and v.a[0].a[0].split("(")[0].split("::")[-1] in ROUND):
        # a number that does not fit must not be cut to one that does
        x = v.a[0]
        r = st.rng(x)
        l, h = (I.resize(st, "sext", y, x.w) for y in (lo, hi))
        if not (r[0] >= -2 ** 31 and r[1] < 2 ** 31) and not (st.decide(I.icmp(st, "slt", x, l)) is False and st.decide(I.icmp(st, "slt", h, x)) is False):
            return "the value stored is %s cut to 32 bits, and values that need more may get there" % x
    for x in cands(v):
        l, h = (I.resize(st, "sext", y, x.w) if x.w > 32 else y for y in (lo, hi))
        if x.w >= 32 and st.decide(I.icmp(st, "slt", x, l)) is False and st.decide(I.icmp(st, "slt", h, x)) is False:
            return None
    if v.k == "fptosi" or v.k == "call" or (v.k == "trunc" and isinstance(v.a[0].w, int) and v.a[0].k in ("call", "fptosi", "lrint", "lround")):
        at = atoms(v)
        ds = [x for x in at if x.w == "d" and x.k in ("arg", "ld", "call", "fresh") and x is not dlo and x is not dhi]
        if not ds and (dlo in at) != (dhi in at):
            return None
        rounding = ("rint", "round", "nearbyint", "floor", "ceil", "trunc")
        ds = [x for x in ds if not (x.k == "call" and x.a[0].split("(")[0].split("::")[-1] in rounding)]
        if ds and all(st.frel(x, dlo) <= {"gt", "eq"} and st.frel(x, dhi) <= {"lt", "eq"} for x in ds if not table(x)):
            return None
    return "the value stored, %s, is not known to be in the domain" % v


def table(x):
    return x.k == "ld" and any(y.k == "glob" for y in atoms(x.a[0]))


def cands(v):
    r = [v]
    if v.k == "lin" and all(x.k == "trunc" and x.a[0].w == 64 for x, _ in v.a[1]):
        r.append(mklin(64, v.a[0], {x.a[0]: c for x, c in v.a[1]}))
    while v.k in ("trunc", "sext", "zext"):
        if v.k == "zext":
            break
        v = v.a[0]
        if not isinstance(v.w, int):
            break
        r.append(v)
    return r
