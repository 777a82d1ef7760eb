"""C07: reading an unset variable or reading it as the wrong type is always an error; the value is only accessed as what it is."""
from wra import codec
from wra.absint import *
from wra.var import *
from wra.varrun import *
from wra.build import ToolError


def run(rep):
    rep.explanation = (
        "The members of Var are abstractly interpreted for every type of the variables involved, with everything they call inlined. Reading accessors must "
        "end in the documented error on every trace where the variable is unset or of the wrong type, and return the stored value otherwise. "
        "On every trace of every member, the value is used as a pointer only when the variable is known to be text or binary and has a buffer, "
        "and as a number only when it is known to be a number.")
    mod = codec.load([r"^wreport::Var::"], noinline=NOIN + [COPIES])
    M = VarModel(mod)
    R = {"unset": "reading an unset variable reports error_notfound", "type": "using a variable as the wrong type reports error_type and leaves it alone",
         "value": "reading a set variable returns its value", "ptr": "a value is followed as a pointer only in text and binary variables that have one",
         "int": "a value is used as a number only in numeric variables", "isset": "isset tells if the value is set, unset unsets it"}
    for k, n in (("unset", 16), ("type", 8), ("value", 6), ("ptr", 40), ("int", 20), ("isset", 2)):
        rep.rule(R[k], n)
    ms = {}
    for m in members(mod, M):
        ms.setdefault(m.name, []).append(m)
    for n in ("enqi", "enqd", "enqc", "enqs", "seti", "setd", "isset", "unset"):
        if n not in ms:
            raise ToolError("Var has no member %s" % n)
    accessors(rep, R, mod, M, ms)
    for l in ms.values():
        for m in l:
            union(rep, R, mod, M, m)
    rep.count("members", sum(len(l) for l in ms.values()))


def go(mod, M, m, types, isset=None):
    def init(I, st):
        for v, t in types.items():
            info = m.info if v is m.this else None
            if not m.ctor or v is not m.this or info is not None:
                invariants(I, st, M, v, info)
                M.set_type(I, st, v, t, info)
        if isset is not None:
            I.store(st, M.field(m.this, "m_isset"), C(1 if isset else 0, 8), 1)
    I = Interp(mod, m.f, hooks=h_attrs(M) + h_dtor(M), max_paths=60000, record_loads=True, stable=stable_info(M, m))
    return I, I.run(init=init)


def accessors(rep, R, mod, M, ms):
    val = lambda m: mk("ld", 32, M.field(m.this, "m_value"), 0)
    for n in ("enqi", "enqd", "enqc", "enqs"):
        m = ms[n][0]
        for ty in vartypes(M):
            I, ps = go(mod, M, m, {m.this: ty}, False)
            for p in ps:
                rep.check(p.end == "throw" and "error_notfound" in p.what, R["unset"], m.where, "%s on an unset %s variable: %s %s" % (n, ty, p.end, p.what or ""), what="%s %s" % (n, ty))
            I, ps = go(mod, M, m, {m.this: ty}, True)
            for p in ps:
                if p.end == "loop":
                    continue
                wrong = ty in TEXT and n in ("enqi", "enqd")
                if wrong:
                    rep.check(p.end == "throw" and "error_type" in p.what, R["type"], m.where, "%s on a %s variable: %s %s" % (n, ty, p.end, p.what or ""), what="%s %s" % (n, ty))
                    continue
                if p.end != "ret":
                    rep.check(n in ("enqc", "enqs") and "error_consistency" in (p.what or ""), R["value"], m.where, "%s on a set %s variable: %s %s" % (n, ty, p.end, p.what or ""), what="%s %s" % (n, ty))
                    continue
                if n == "enqi":
                    ok = p.ret is val(m)
                elif n == "enqd":
                    ok = val(m) in atoms(p.ret) and all(split(x.a[0])[0] in (M.info(m.this), m.this) or table(x) for x in atoms(p.ret) if x.k == "ld")
                    if ty == "Integer":
                        ok = p.ret.k == "sitofp" and p.ret.a[0] is val(m)
                elif n == "enqc" and ty in TEXT:
                    ok = p.ret is mk("ld", 64, M.field(m.this, "m_value"), 0)
                else:
                    continue
                rep.check(ok, R["value"], m.where, "%s on a set %s variable returns %s" % (n, ty, p.ret), what="%s %s" % (n, ty))
    for n in ("seti", "setd"):
        m = ms[n][0]
        for ty in ("String", "Binary"):
            I, ps = go(mod, M, m, {m.this: ty})
            for p in ps:
                w = [e for e in p.ev if e.kind == "store" and split(e.a[0])[0] is m.this]
                rep.check(p.end == "throw" and "error_type" in p.what and not w, R["type"], m.where, "%s on a %s variable: %s %s%s" % (
                    n, ty, p.end, p.what or "", ", after changing it" if w else ""), what="%s %s" % (n, ty))
    for m in ms["isset"]:
        for s in (False, True):
            I, ps = go(mod, M, m, {m.this: "Integer"}, s)
            for p in ps:
                rep.check(p.end == "ret" and p.st.decide(I.mkeq(p.st, p.ret, C(0, p.ret.w))) is (not s), R["isset"], m.where, "isset returns %s on a variable that is %sset" % (p.ret, "" if s else "not "), what="isset")
    m = ms["unset"][0]
    for ty in vartypes(M):
        I, ps = go(mod, M, m, {m.this: ty}, True)
        for p in ps:
            rep.check(p.end == "ret" and M.isset(I, p.st, m.this) is False and M.get(I, p.st, m.this, "m_attrs") is mk("ld", 64, M.field(m.this, "m_attrs"), 0),
                      R["isset"], m.where, "unset on a %s variable: %s, isset %s" % (ty, p.end, M.isset(I, p.st, m.this)), what="unset")


def table(x):
    return any(y.k == "glob" for y in atoms(x.a[0]))


DEL = re.compile(r"operator delete")


def union(rep, R, mod, M, m):
    vo = M.vo["m_value"][0]
    own = [] if m.ctor and m.info is None else [m.this]
    vs = own + m.vars
    combos = [{}]
    for v in vs:
        combos = [dict(c, **{}) | {v: t} for c in combos for t in vartypes(M)]
    for types in combos:
        I, ps = go(mod, M, m, types)
        for p in ps:
            st = p.st
            seen = set()
            for e in p.ev:
                # as a number
                if e.kind == "load":
                    a, o = split(e.a[0])
                    if o == vo and e.ins.ty == "i32":
                        x = add(e.a[0], C(-vo, 64))
                        if plain(x) and known_info(M, m, x, types) and ("i", x) not in seen:
                            seen.add(("i", x))
                            tn = type_of(M, I, st, m, x, types)
                            if tn:
                                rep.check(not tn & TEXT, R["int"], e.ins.loc, "%s: the value of %s is read as a number while its type can be %s" % (desc(m, types), x, "/".join(sorted(tn & TEXT))), what=desc(m, types))
                if e.kind in ("load", "store"):
                    ptrs = [e.a[0]]
                elif e.kind == "memcpy":
                    ptrs = list(e.a[:2])
                elif e.kind in ("call", "icall", "memset"):
                    ptrs = [a for a in e.a if a.w == 64]
                else:
                    continue
                for a in ptrs:
                    for b in (x for x in lin_atoms(a) if x.k == "ld" and x.w == 64 and split(x.a[0])[1] == vo):
                        x = add(b.a[0], C(-vo, 64))
                        if not plain(x) or not known_info(M, m, x, types) or ("p", x, b) in seen:
                            continue
                        seen.add(("p", x, b))
                        tn = type_of(M, I, st, m, x, types)
                        if not tn:
                            continue
                        rep.check(tn <= TEXT, R["ptr"], e.ins.loc, "%s: the value of %s is followed as a pointer while its type can be %s" % (desc(m, types), x, "/".join(sorted(tn - TEXT))), what=desc(m, types))
                        if e.kind == "call" and DEL.search(e.snap or ""):
                            continue
                        s = st.decide(I.mkeq(st, mk("ld", 8, M.field(x, "m_isset"), 0), C(0, 8)))
                        bit = st.decide(mk("trunc", 1, mk("ld", 8, M.field(x, "m_isset"), 0)))
                        rep.check(s is False or bit is True or st.decide(mk("eq0", 1, b)) is False, R["ptr"], e.ins.loc,
                                  "%s: the buffer of %s is used while the variable can be unset and have none" % (desc(m, types), x), what=desc(m, types))


def plain(x):
    return x.k in ("arg", "ld")


def lin_atoms(a):
    if a.k == "lin":
        return [x for x, c in a.a[1]]
    return [a]


def known_info(M, m, x, types):
    return x in types


def type_of(M, I, st, m, x, types):
    info = m.info if x is m.this and m.info is not None else M.info(x)
    return type_names(M, st, I, info)


def desc(m, types):
    return "%s, types %s" % (m.name, "/".join(types.values()))
