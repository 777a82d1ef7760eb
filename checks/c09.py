"""C09: packing numbers with scale and reference and unpacking them are inverse; what does not fit is reported; ranges are exact."""
from fractions import Fraction
from wra import codec
from wra.absint import *
from wra.real import *
from wra.var import VarModel
from wra.build import ToolError

SCALES = range(-16, 17)
V = r"^wreport::_Varinfo::%s\("


def run(rep):
    rep.explanation = (
        "The functions that pack and unpack numbers are abstractly interpreted for every scale from -16 to 16, every width and symbolic value and reference. The "
        "floating point expressions they compute are compared as exact affine forms with value x 10^scale - reference and its inverse, the value they return must be the "
        "nearest integer, and the bounds known on every returning and every failing trace must be exactly what the field can hold. Ranges are checked for every "
        "number of digits and bits with symbolic reference.")
    mod = codec.load([r"^wreport::_Varinfo::"], noinline=codec.STRNO)
    M = VarModel(mod)
    R = {"enc": "encoding is the nearest integer to value x 10^scale (minus the reference)", "dec": "decoding is (encoded + reference) / 10^scale, rounded once",
         "fit": "what is encoded fits in the field and is not the missing value", "rej": "a value that fits is not rejected",
         "rnd": "rounding keeps the nearest number with the precision of the definition", "range": "the integer range is what both digits and bits can hold", "drange": "the range in units is the integer range scaled",
         "nobits": "definitions without binary encoding are reported", "var": "variables store and give back their value with the scale of their definition", "type": "definitions get type, lengths and range according to their unit and scale"}
    for k, n in (("enc", 66), ("dec", 66), ("fit", 60), ("rej", 60), ("rnd", 33), ("range", 700), ("drange", 33), ("nobits", 2), ("type", 8), ("var", 60)):
        rep.rule(R[k], n)
    pack(rep, R, mod, M)
    ranges(rep, R, mod, M)
    setters(rep, R, mod, M)
    variables(rep, R, M)
    rep.count("functions", 11)


def fld(M, this, n):
    return add(this, C(M.io[n][0], 64))


def go(mod, M, f, consts, unroll=40):
    this = mk("arg", 64, 0, f.args[0]["n"] or "arg0")

    def init(I, st):
        st.assume(mk("eq0", 1, this), False)
        for n, v in consts.items():
            o, sz = M.io[n]
            I.store(st, fld(M, this, n), C(v, 8 * sz), sz)
    I = Interp(mod, f, max_paths=500, unroll=unroll)
    return I, this, I.run(init=init)


def p10(s):
    return Fraction(10) ** s


def close(a, b):
    return abs(a - b) <= abs(b) * Fraction(1, 1 << 50)


def pack(rep, R, mod, M):
    ref = lambda this: ("s", mk("ld", 32, fld(M, this, "bit_ref"), 0))
    fe, fd, fr = (mod.find(V % n) for n in ("encode_decimal", "decode_decimal", "round_decimal"))
    ge, gd = (mod.find(V % n) for n in ("encode_binary", "decode_binary"))
    for s in SCALES:
        # decimal
        I, this, ps = go(mod, M, fe, {"scale": s})
        val = mk("arg", "d", 1, fe.args[1]["n"] or "arg1")
        for p in ps:
            t, r = nearest(p.ret, p.st) if p.end == "ret" else (None, None)
            rep.check(t is not None and r.c == 0 and set(r.d) == {val} and close(r.d[val], p10(s)), R["enc"], fe.where, "scale %d: encode_decimal gives %s" % (s, p.ret if p.end == "ret" else p.end), what="decimal, scale %d" % s)
        I, this, ps = go(mod, M, fd, {"scale": s})
        iv = ("s", mk("arg", 32, 1, fd.args[1]["n"] or "arg1"))
        for p in ps:
            r = real(p.ret, p.st) if p.end == "ret" else None
            rep.check(r is not None and r.c == 0 and r.d == {iv: p10(s and -s)} and r.inexact <= 1, R["dec"], fd.where, "scale %d: decode_decimal gives %s" % (s, p.ret if r else p.end), what="decimal, scale %d" % s)
        I, this, ps = go(mod, M, fr, {"scale": s})
        val = mk("arg", "d", 1, fr.args[1]["n"] or "arg1")
        for p in ps:
            ok = False
            if p.end == "ret":
                r = real(p.ret, p.st)
                if r.c == 0 and len(r.d) == 1:
                    (x, k), = r.d.items()
                    x = x[1] if isinstance(x, tuple) else x
                    t, q = nearest(x, p.st)
                    ok = t is not None and k == p10(-s) and q.c == 0 and set(q.d) == {val} and close(q.d[val], p10(s)) and r.inexact <= 1
            rep.check(ok, R["rnd"], fr.where, "scale %d: round_decimal gives %s" % (s, p.ret if p.end == "ret" else p.end), what="scale %d" % s)
        # binary
        for bl in ((1, 7, 8, 16, 31, 32) if s not in (0, 2, -1) else range(1, 33)):
            for code in ((0x1f01, 0x0c65) if s in (0, 2) else (0x0c65,)):
                I, this, ps = go(mod, M, ge, {"scale": s, "bit_len": bl, "code": code})
                val = mk("arg", "d", 1, ge.args[1]["n"] or "arg1")
                top = (1 << bl) - (1 if code >> 8 == 0x1f else 2)
                desc = "scale %d, %d bits%s" % (s, bl, ", replication factor" if code >> 8 == 0x1f else "")
                lim = []
                rt = None
                for p in ps:
                    if p.end == "ret":
                        t, r = nearest(p.ret, p.st)
                        want = {val: p10(s), ref(this): Fraction(-1)}
                        ok = t is not None and r.c == 0 and set(r.d) == set(want) and all(close(r.d[x], want[x]) for x in want)
                        rep.check(ok, R["enc"], ge.where, "%s: encode_binary gives %s" % (desc, p.ret), what="binary, " + desc)
                        if ok:
                            rt = t
                            lo, hi, nan = bounds(p.st, t)
                            rep.check(lo >= 0 and hi <= top and not nan, R["fit"], ge.where, "%s: encode_binary can return the encoded value when it is between %s and %s%s: the field holds 0 to %d" % (
                                desc, lo, hi, " or not a number" if nan else "", top), what=desc)
                if rt is None:
                    continue
                for p in ps:
                    if p.end == "throw":
                        lo, hi, nan = bounds(p.st, rt)
                        rep.check(hi < 0 or lo > top or lo > hi, R["rej"], p.ins.loc, "%s: encode_binary fails for encoded values between %s and %s, which include some of 0 to %d" % (desc, lo, hi, top), what=desc)
        I, this, ps = go(mod, M, gd, {"scale": s, "bit_len": 12})
        uv = ("u", mk("arg", 32, 1, gd.args[1]["n"] or "arg1"))
        for p in ps:
            r = real(p.ret, p.st) if p.end == "ret" else None
            w = p10(-s)
            rep.check(r is not None and r.c == 0 and r.d == {uv: w, ref(this): w} and r.inexact <= 1, R["dec"], gd.where, "scale %d: decode_binary gives %s" % (s, p.ret if r else p.end), what="binary, scale %d" % s)
    for f in (ge, gd):
        I, this, ps = go(mod, M, f, {"bit_len": 0, "scale": 0})
        for p in ps:
            rep.check(p.end == "throw" and "error_consistency" in p.what, R["nobits"], f.where, "%s on a definition with no bit length: %s" % (f.short, p.end), what=f.short)


def bounds(st, t):
    """integers an integral term can be on a trace"""
    if isinstance(t.w, int):
        q = st.rng(t)
        if t.w == 32 and q[0] < 0:
            return q[0], q[1], False
        return q[0], q[1], False
    lo, lop, hi, hop, nan = st.frng(t)
    # integral values
    import math
    lo = lo if lo == -math.inf else (math.floor(lo) + 1 if lop and lo == math.floor(lo) else math.ceil(lo))
    hi = hi if hi == math.inf else (math.ceil(hi) - 1 if hop and hi == math.ceil(hi) else math.floor(hi))
    return lo, hi, nan


def ranges(rep, R, mod, M):
    f = mod.find(V % "compute_range")
    IMIN, IMAX = -(1 << 31), (1 << 31) - 1
    tn = M.types
    for ty in ("String", "Binary"):
        I, this, ps = go(mod, M, f, {"type": tn[ty]})
        for p in ps:
            v = [I.load(p.st, fld(M, this, n), "i32", 4) for n in ("imin", "imax")] + [I.load(p.st, fld(M, this, n), "double", 8) for n in ("dmin", "dmax")]
            rep.check(p.end == "ret" and all(isc(x) and x.a[0] == 0 for x in v[:2]) and all(x.k == "fc" and x.a[0] == 0 for x in v[2:]), R["range"], f.where, "%s: range %s" % (ty, v), what=ty)
    for ln in range(1, 12):
        for bl in range(0, 33):
            for code in (0x1f01, 0x0c65):
                for ty, s in ((("Integer", 0), ("Decimal", 2), ("Decimal", -1)) if bl in (0, 7) or ln == 10 else (("Integer", 0),)):
                    one_range(rep, R, mod, M, f, ty, s, ln, bl, code, IMIN, IMAX)
    for s in SCALES:
        one_range(rep, R, mod, M, f, "Decimal" if s else "Integer", s, 5, 16, 0x0c65, IMIN, IMAX)


def one_range(rep, R, mod, M, f, ty, s, ln, bl, code, IMIN, IMAX):
    I, this, ps = go(mod, M, f, {"type": M.types[ty], "scale": s, "len": ln, "bit_len": bl, "code": code})
    rf = mk("ld", 32, fld(M, this, "bit_ref"), 0)
    desc = "%s, scale %d, %d digits, %d bits%s" % (ty, s, ln, bl, ", replication factor" if code >> 8 == 0x1f else "")
    k = 1 if code >> 8 == 0x1f else 2

    def want(ref):
        if ln >= 10:
            return IMIN, IMAX
        lo, hi = -(10 ** ln - 1), 10 ** ln - 2
        if bl:
            lo, hi = max(lo, ref), min(hi, (1 << bl) + ref - k)
        return lo, hi
    # references where the expected range changes slope
    brk = []
    if ln < 10 and bl:
        brk = [-(10 ** ln - 1), 10 ** ln - 2 - (1 << bl) + k]
    n = 0
    for p in ps:
        if p.end != "ret":
            rep.bad(R["range"], p.ins.loc, "%s: the range cannot be computed: %s" % (desc, p.what))
            continue
        q = p.st.rng(rf)
        a, b = q[0], q[1]
        if a > b:
            continue
        n += 1
        im, ix = (I.load(p.st, fld(M, this, x), "i32", 4) for x in ("imin", "imax"))
        pts = sorted({a, b} | {x for x in brk if a <= x <= b} | {x + 1 for x in brk if a <= x + 1 <= b})
        bad = None
        # a range below what an int can hold only comes from an empty one
        for x in pts:
            got = at(p.st, im, rf, x), at(p.st, ix, rf, x)
            w = want(x)
            if got[0] is None or got[1] is None:
                bad = "with reference %d the range is %s to %s" % (x, im, ix)
            elif got != w and not (w[1] < IMIN or w[0] > w[1] and got[0] > got[1]):
                bad = "with reference %d the range is %d to %d instead of %d to %d" % (x, got[0], got[1], w[0], w[1])
        if not all(linear(t, rf) for t in (im, ix)):
            bad = bad or "the range is %s to %s" % (im, ix)
        rep.check(bad is None, R["range"], f.where, "%s: %s" % (desc, bad), what=desc)
        for d, i in (("dmin", im), ("dmax", ix)):
            t = I.load(p.st, fld(M, this, d), "double", 8)
            r = real(t, p.st)
            if isc(i):
                e = i.a[0] / 10.0 ** s if s > 0 else float(i.a[0]) * 10.0 ** -s
                ok = r.const() is not None and float(r.const()) == e
            else:
                x = integer(i, False, p.st)
                ok = r.d == {y: c * p10(-s) for y, c in x.d.items()} and r.c == x.c * p10(-s)
            rep.check(ok, R["drange"], f.where, "%s: %s is %s while the integer is %s" % (desc, d, t, i), what=desc)
    if not n:
        raise ToolError("no trace of compute_range for %s" % desc)


def linear(t, x):
    """piecewise linear in x"""
    if isc(t) or t is x:
        return True
    if t.k in ("trunc", "sext"):
        return linear(t.a[0], x)
    if t.k in ("smin", "smax"):
        return all(linear(y, x) for y in t.a)
    return t.k == "lin" and all(linear(y, x) for y, c in t.a[1])


def at(st, t, x, v):
    """value of t when x is v"""
    s = st.fork()
    s.iv[x] = (v, v, v & 0xffffffff, v & 0xffffffff)
    for y in list(s.iv):
        if y is not x and x in atoms(y):
            del s.iv[y]
    q = s.rng(t)
    if q[0] == q[1]:
        return q[0]
    if t.k == "trunc":
        q = s.rng(t.a[0])
        if q[0] == q[1]:
            return signed(q[0], 32)
    return None


def lit(mod, t):
    """text of a string literal"""
    if t.k == "glob":
        return mod.cstr(t.a[0])
    return None


def h_strncpy(I, st, i, a):
    if not isc(a[2]) or a[2].a[0] > 256:
        return NotImplemented
    n = a[2].a[0]
    s = lit(I.mod, a[1])
    st.ev.append(Ev("call", i, a, None, st.loops, snap="strncpy"))
    for k in range(n):
        v = I.fresh(8, "text") if s is None else C(ord(s[k]) if k < len(s) else 0, 8)
        I.store(st, add(a[0], C(k, 64)), v, 1)
    return a[0]


def setters(rep, R, mod, M):
    tn = M.types

    def h_range(I, st, i, a):
        st.ev.append(Ev("range", i, a, {n: I.load(st, add(a[0], C(M.io[n][0], 64)), "i%d" % (8 * M.io[n][1]), M.io[n][1]) for n in ("code", "type", "scale", "len", "bit_ref", "bit_len")}, st.loops))
        return True
    m2 = codec.load([r"^wreport::_Varinfo::set_"], noinline=codec.STRNO + [r"_Varinfo::compute_range"])
    for n in ("set_bufr", "set_crex", "set_string", "set_binary"):
        f = m2.find(V % n)
        names = [a["n"] for a in f.args]
        this = mk("arg", 64, 0, names[0] or "arg0")
        from wra.varrun import params
        arg = {x: mk("arg", width(a["ty"]), j, a["n"] or "arg%d" % j) for j, (x, a) in enumerate(zip(("this",) + {
            "set_bufr": ("code", "desc", "unit", "scale", "len", "bit_ref", "bit_len"), "set_crex": ("code", "desc", "unit", "scale", "len"),
            "set_string": ("code", "desc", "len"), "set_binary": ("code", "desc", "bit_len")}[n], f.args))}

        def init(I, st):
            st.assume(mk("eq0", 1, this), False)
        new = lambda: Interp(m2, f, hooks=[(r"_Varinfo::compute_range\(", h_range), (r"^strncpy$", h_strncpy)], max_paths=500)
        if n == "set_binary":
            for bl in range(1, 65):
                I = new()
                for p in I.run(init=init, args={[x for x in arg].index("bit_len"): C(bl, 32)}):
                    v = I.load(p.st, fld(M, this, "len"), "i32", 4)
                    rep.check(p.end == "ret" and isc(v) and v.a[0] == (bl + 7) // 8, R["type"], f.where, "set_binary: %d bits take %s bytes" % (bl, v), what="%d bits" % bl)
        I = new()
        for p in I.run(init=init):
            if p.end == "throw":
                rep.bad(R["type"], p.ins.loc, "%s fails: %s" % (n, p.what))
                continue
            if p.end != "ret":
                continue
            for x, sz in (("desc", 64), ("unit", 24)):
                b = I.load(p.st, add(fld(M, this, x), C(sz - 1, 64)), "i8", 1)
                rep.check(isc(b) and b.a[0] == 0, R["type"], f.where, "%s: the %s may not be terminated" % (n, x), what="%s: %s terminated" % (n, x))
            cr = [e for e in p.ev if e.kind == "range" and e.a[0] is this]
            if not rep.check(len(cr) >= 1, R["type"], f.where, "%s does not compute the range" % n, what=n):
                continue
            got = cr[-1].res
            fin = {x: I.load(p.st, fld(M, this, x), "i%d" % (8 * M.io[x][1]), M.io[x][1]) for x in got}
            rep.check(fin == got, R["type"], f.where, "%s changes the definition after computing the range" % n, what=n + ": range computed last")
            for x in ("code", "scale", "len", "bit_ref", "bit_len"):
                if x in arg:
                    rep.check(got[x] is arg[x] or got[x].k == "trunc" and got[x].a[0] is arg[x], R["type"], f.where, "%s: %s is %s" % (n, x, got[x]), what="%s: %s" % (n, x))
            if n == "set_crex":
                rep.check(all(isc(got[x]) and got[x].a[0] == 0 for x in ("bit_ref", "bit_len")), R["type"], f.where, "%s: binary encoding %s %s" % (n, got["bit_ref"], got["bit_len"]), what=n)
            if n == "set_string":
                rep.check(got["bit_len"] is scale(arg["len"], 8), R["type"], f.where, "set_string: %s bits" % got["bit_len"], what=n)
            if n == "set_binary":
                pass
            ty = got["type"]
            if n in ("set_string", "set_binary"):
                rep.check(isc(ty) and ty.a[0] == tn["String" if n == "set_string" else "Binary"], R["type"], f.where, "%s: type %s" % (n, ty), what=n)
                continue
            # text exactly when the unit is the one for text
            cmp = [(c, v) for c, v in p.st.known.items() if any(x.k == "call" and x.a[0] in ("strcmp", "strncmp") for x in atoms(c))]
            eq = [v for c, v in cmp if c.k == "eq0"]
            text = True in eq
            lits = {lit(m2, x) for c, v in cmp for y in atoms(c) if y.k == "call" and y.a[0] in ("strcmp", "strncmp") for x in y.a[1][:2]} - {None}
            rep.check(lits == {"CCITTIA5" if n == "set_bufr" else "CHARACTER"}, R["type"], f.where, "%s compares the unit with %s" % (n, sorted(lits)), what="%s: unit of text" % n)
            z = p.st.decide(mk("eq0", 1, arg["scale"]))
            if text:
                ok = isc(ty) and ty.a[0] == tn["String"]
            else:
                ok = isc(ty) and z is not None and ty.a[0] == tn["Integer" if z else "Decimal"] or (ty.k == "ite")
            rep.check(ok and len(eq) >= 1, R["type"], f.where, "%s: the type is %s with %stext unit and scale %s" % (n, ty, "" if text else "no ", {True: "0", False: "not 0", None: "unknown"}[z]), what="%s: type" % n)


def variables(rep, R, M):
    from wra.varrun import members, go_info
    mod = codec.load([r"^wreport::Var::(enqd|setd)\("], noinline=codec.STRNO + [r"Var::(clear_attrs|setattrs)\("])
    ms = {m.name: m for m in members(mod, M)}
    for s in SCALES:
        ty = "Decimal" if s else "Integer"
        m = ms["enqd"]
        I, ps = go_info(mod, M, m, ty, {"scale": s}, True)
        val = mk("ld", 32, M.field(m.this, "m_value"), 0)
        for p in ps:
            r = real(p.ret, p.st) if p.end == "ret" else None
            rep.check(r is not None and r.c == 0 and r.d == {("s", val): p10(-s)} and r.inexact <= 1, R["var"], m.where, "scale %d: enqd gives %s" % (s, p.ret if r else p.end), what="enqd, scale %d" % s)
        m = ms["setd"]
        I, ps = go_info(mod, M, m, ty, {"scale": s}, None)
        d = m.args[0]
        lo, hi = M.inf(m.this, "dmin"), M.inf(m.this, "dmax")
        n = 0
        for p in ps:
            if p.end != "ret":
                continue
            # only the traces where the value is known to be in the domain
            if p.st.fdecide(mk("fcmp", 1, "olt", d, lo)) is not False or p.st.fdecide(mk("fcmp", 1, "ogt", d, hi)) is not False or M.isset(I, p.st, m.this) is False or any(e.kind == "icall" for e in p.ev):
                continue
            v = M.ival(I, p.st, m.this)
            t, r = nearest(v, p.st)
            n += 1
            rep.check(t is not None and r.c == 0 and set(r.d) == {d} and close(r.d[d], p10(s)), R["var"], m.where, "scale %d: setd stores %s" % (s, v), what="setd, scale %d" % s)
        if not n:
            raise ToolError("no trace of Var::setd stores the value")
