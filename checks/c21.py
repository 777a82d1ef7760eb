"""Codes and definitions of elements"""
import os
import re
from wra import build, codec, ir, text
from wra.absint import *
from wra.build import ToolError
from wra.seq import obj
from wra.real import *

VI = "wreport::_Varinfo"
VT = ("Integer", "Decimal", "String", "Binary")
LETTERS = (("B", 0), ("R", 1), ("C", 2), ("D", 3), ("0", 0), ("1", 1), ("2", 2), ("3", 3))


def load():
    return codec.load([r"^wreport::varcode_", r"^wreport::vartype_", r"^wreport::_Varinfo::(set_|compute_range)"],
                      noinline=[r"^wreport::_Varinfo::(compute_range|decode_decimal)"] + codec.STRNO)


def types(mod):
    e = mod.enums.get("wreport::Vartype") if hasattr(mod, "enums") else None
    return e


def dig(st, k):
    v = mk("arg", 64, 800 + k, "digit %d" % (k + 1))
    st.setiv(v, slo=0, shi=9, ulo=0, uhi=9)
    return text.digit(st, v, 0, 1)


def codes(rep, mod):
    rule = "codes are read"
    fn = mod.find(r"^wreport::varcode_parse\(")
    s = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
    hooks = text.hooks()

    def go(chars, null=False):
        I = Interp(mod, fn, hooks=hooks, unroll=12, fork_exits=True)

        def init(I, st):
            st.assume(mk("eq0", 1, s), null)
            if null:
                return
            text.put(I, st, s, [c if isinstance(c, T) else C(ord(c), 8) for c in (chars(st) if callable(chars) else chars)] + [C(0, 8)])
        return I, I.run(init=init)
    # every X by its digits, every Y by theirs
    ys = [("0", None, None), ("1", None, None)] + [("2", str(k), None) for k in range(5)] + [("2", "5", str(k)) for k in range(6)]
    for l, f in LETTERS:
        for x in range(64):
            for y in ys:
                def chars(st, x=x, y=y, l=l):
                    return [l] + list("%02d" % x) + [c if c is not None else dig(st, k) for k, c in enumerate(y)]
                I, ps = go(chars)
                for p in ps:
                    if not rep.check(p.end == "ret", rule, fn.where, "code %s%02d%s is refused" % (l, x, "".join(c or "?" for c in y))):
                        continue
                    exp = C(f << 14 | x << 8, 64)
                    for k, c in enumerate(y):
                        exp = add(exp, scale(C(int(c), 64) if c is not None else mk("arg", 64, 800 + k, "digit %d" % (k + 1)), 10 ** (2 - k)))
                    got = I.resize(p.st, "zext", p.ret, 64) if p.ret.w < 64 else p.ret
                    d = value(I, p.st, p.ret)
                    rep.check(d is not None and sub(d, exp) is C(0, 64), rule, fn.where, "code %s%02d%s is read as %s" % (l, x, "".join(c or "?" for c in y), show(p.ret)[:120]))
    rep.count("kinds of code", len(LETTERS) * 64 * len(ys))
    rule = "malformed codes are refused"
    for k in range(1, 6):
        for bad in "/:A -.":
            cs = list("B12101")
            cs[k] = bad
            I, ps = go(cs)
            rep.check(all(p.end == "throw" and "error_consistency" in p.what for p in ps), rule, fn.where, "code %s is accepted" % "".join(cs))
    for n in range(1, 6):
        I, ps = go(list("B12101")[:n])
        rep.check(all(p.end == "throw" and "error_consistency" in p.what for p in ps), rule, fn.where, "code %s is accepted" % "B12101"[:n])
    I, ps = go([])
    rep.check(all(p.end == "throw" and "error_consistency" in p.what for p in ps), rule, fn.where, "no code at all is accepted")
    I, ps = go([], True)
    rep.check(all(p.end == "throw" and "error_consistency" in p.what for p in ps), rule, fn.where, "a null pointer is accepted")


def value(I, st, t):
    """a 64 bit linear form of a term that does not wrap"""
    k, at = 0, None
    if isc(t):
        return C(uval(t), 64)
    if t.k == "lin":
        r = C(t.a[0] & ((1 << t.w) - 1), 64)
        lo = hi = t.a[0] & ((1 << t.w) - 1)
        for x, c in t.a[1]:
            v = value(I, st, x)
            if v is None:
                return None
            q = st.rng(x)
            r = add(r, scale(v, c))
        # the sum as it is, if it fits; the constant may be negative
        full = 1 << t.w
        for base in (0, -full):
            rr = add(r, C(base, 64))
            q = st.rng(rr)
            if q[0] >= 0 and q[1] < full:
                return rr
        return None
    if t.k in ("zext", "trunc"):
        v = value(I, st, t.a[0])
        if v is None:
            return None
        q = st.rng(v)
        return v if 0 <= q[0] and q[1] < 1 << t.w else None
    if t.k == "sext":
        v = value(I, st, t.a[0])
        return v if v is not None and st.rng(v)[1] < 1 << (t.a[0].w - 1) else None
    if t.k == "or" and isc(t.a[1]):
        # bits that cannot meet
        v = value(I, st, t.a[0])
        c = uval(t.a[1])
        q = st.rng(v) if v is not None else None
        return add(v, C(c, 64)) if q and q[0] >= 0 and c & ((1 << q[1].bit_length()) - 1) == 0 else None
    if t.k == "digit":
        return add(t.a[0], C(48, 64))
    if t.w == 64:
        return t
    return None


def formats(rep, mod):
    """every F, with every X and every Y"""
    rule = "codes are written"
    fn = mod.find(r"^wreport::varcode_format")
    S = text.Strs()
    out = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
    cases = sorted({(x, y) for x in range(64) for y in (0, 7, 10, 99, 100, 255)} | {(x, y) for x in (0, 9, 10, 63) for y in range(256)})
    for f, l in enumerate("BRCD"):
        for x, y in cases:
            I = Interp(mod, fn, hooks=S.hooks() + text.hooks(), unroll=12, fork_exits=True)
            ps = I.run(args={len(fn.args) - 1: C(f << 14 | x << 8 | y, 16)})
            want = "%s%02d%03d" % (l, x, y)
            for p in ps:
                b = S.get(I, p.st, out) if p.end == "ret" else None
                if b is not None and not all(isc(c) for c in b):
                    raise ToolError("%s: cannot tell the text written for %s" % (fn.where, want))
                got = None if b is None else bytes(uval(c) for c in b).decode("latin1")
                rep.check(got == want, rule, fn.where, "code %s is written as %s" % (want, got))
    rep.count("codes written", 4 * len(cases))


def names(rep, mod, inv):
    rule = "names of types"
    fn = mod.find(r"^wreport::vartype_parse\(")
    s = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
    def parse(word):
        I = Interp(mod, fn, hooks=text.hooks(), unroll=12, fork_exits=True)

        def init(I, st):
            st.assume(mk("eq0", 1, s), False)
            text.put(I, st, s, text.lit(word) + [C(0, 8)])
        return I.run(init=init)
    g = mod.find(r"^wreport::vartype_format\(")
    for ty in VT:
        for p in parse(ty.lower()):
            rep.check(p.end == "ret" and isc(p.ret) and uval(p.ret) == inv[ty], rule, fn.where, "%s is not read as such" % ty.lower())
    for w in ("", "int", "strin", "strings", "String", "real", "decimals", "binar"):
        for p in parse(w):
            rep.check(p.end == "throw" and "error_consistency" in p.what, rule, fn.where, "'%s' is read as the name of a type" % w)
    a = g.args[0]
    v = mk("arg", width(a["ty"]), 0, a.get("n") or "arg0")
    for ty in VT:
        I = Interp(mod, g, hooks=[], unroll=4)

        def init(I, st):
            st.setiv(v, slo=inv[ty], shi=inv[ty], ulo=inv[ty], uhi=inv[ty])
        for p in I.run(init=init):
            b = text.cstr(I, p.st, p.ret) if p.end == "ret" else None
            rep.check(b is not None and all(isc(x) for x in b) and bytes(uval(x) for x in b).decode() == ty.lower(), rule, g.where, "%s is written as %s" % (ty, b and bytes(uval(x) for x in b if isc(x))))


INT = (-(1 << 31), (1 << 31) - 1)


def ranges(rep, mod, inv):
    """the values a definition has room for"""
    rule = "range of values"
    fn = mod.find(r"^wreport::_Varinfo::compute_range\(")
    this = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
    F = codec.field_offsets(mod, VI)
    ref = mk("arg", 32, 820, "reference value")
    n = 0

    def go(ty, ln, bits, code, reflo=None, refhi=None, rv=None):
        def dec(I, st, i, a):
            st.objs["decoded"] = st.objs.get("decoded", ()) + (a[1],)
            return mk("decoded", "double", a[1])
        I = Interp(mod, fn, hooks=[(r"decode_decimal", dec)], unroll=4, fork_exits=True)

        def init(I, st):
            for nm, v in (("len", C(ln, 32)), ("bit_len", C(bits, 32)), ("bit_ref", rv if rv is not None else ref), ("code", C(code, 16)), ("type", C(inv[ty], 8 * F["type"][1]))):
                I.store(st, add(this, C(F[nm][0], 64)), v, F[nm][1])
            if rv is None:
                st.setiv(ref, slo=reflo, shi=refhi)
        return I, I.run(init=init)

    def get(I, st, nm):
        o, sz = F[nm]
        return I.load(st, add(this, C(o, 64)), "double" if nm[0] == "d" else "i%d" % (8 * sz), sz)
    for ty in ("String", "Binary"):
        I, ps = go(ty, 8, 64, 0x0101, 0, 0)
        for p in ps:
            rep.check(p.end == "ret" and all(isc(get(I, p.st, k)) and uval(get(I, p.st, k)) == 0 for k in ("imin", "imax")), rule, fn.where, "the range of a %s is not empty" % ty.lower())
    for ty in ("Integer", "Decimal"):
        for ln in list(range(1, 13)) + [20]:
            for bits in list(range(0, 33)) + [40]:
                every = ln in (3, 9) and bits in (7, 16)
                for x, y in [(1, 1), (31, 1)] + ([(x, y) for x in range(64) for y in (0, 12, 255)] if every else []):
                    code = x << 8 | y
                    refs = [0, -5] if every else [0, -1, 1, -1024, 5000, -1000000, INT[0] + 1] if bits else [0]
                    for r in refs:
                        I, ps = go(ty, ln, bits, code, rv=C(r, 32))
                        n += 1
                        if ln >= 10:
                            lo, hi = INT
                        else:
                            lo, hi = -(10 ** ln - 1), 10 ** ln - 2
                            if bits:
                                lo, hi = max(lo, r), min(hi, 2 ** bits + r - (1 if x == 31 else 2))
                        if not INT[0] <= hi <= INT[1]:
                            continue
                        for p in ps:
                            if not rep.check(p.end == "ret", rule, fn.where, "%d digits, %d bits: no range (%s)" % (ln, bits, p.what)):
                                continue
                            a, b = get(I, p.st, "imin"), get(I, p.st, "imax")
                            rep.check(isc(a) and isc(b) and (a.a[0], b.a[0]) == (lo, hi), rule, fn.where, "%d digits, %d bits from %d%s: range %s to %s, not %d to %d" % (ln, bits, r, " for a replication factor" if x == 31 else " for class %d" % x, show(a), show(b), lo, hi))
                            da, db = get(I, p.st, "dmin"), get(I, p.st, "dmax")
                            da, db = (t.a[0] if t.k == "bitcast" else t for t in (da, db))
                            rep.check(da is mk("decoded", "double", a) and db is mk("decoded", "double", b), rule, fn.where, "%d digits, %d bits: the decimal range is not the scaled range of integers" % (ln, bits))
    rep.count("definitions", n)


def conc(t):
    """arithmetic on reals that are known"""
    import math
    if isc(t) or not t.a:
        return t
    a = [conc(x) if isinstance(x, T) else x for x in t.a]
    try:
        v = [uval(x) if isc(x) else float(x.a[0]) if x.k == "fc" else None for x in a if isinstance(x, T)]
    except Exception:
        return t
    if None in v or not v:
        return t
    f = {"uitofp": lambda x: float(x), "fdiv": lambda x, y: x / y, "fmul": lambda x, y: x * y, "fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "ceil": math.ceil, "floor": math.floor, "fptoui": int, "fptosi": int}.get(t.k)
    if f is None:
        return t
    r = f(*v)
    return C(int(r), t.w) if t.k in ("fptoui", "fptosi") else mk("fc", t.w, float(r))


def setters(rep, mod, inv):
    """definitions made without a table"""
    rule = "definitions are as asked for"
    F = codec.field_offsets(mod, VI)
    T_ = {v: k for k, v in inv.items()}
    for pat, params in ((r"set_bufr\(", ("code", "desc", "unit", "scale", "len", "bit_ref", "bit_len")), (r"set_crex\(", ("code", "desc", "unit", "scale", "len")), (r"set_string\(", ("code", "desc", "len")), (r"set_binary\(", ("code", "desc", "bit_len"))):
        fn = mod.find(r"^wreport::_Varinfo::" + pat)
        arg = {n: mk("arg", width(fn.args[k + 1]["ty"]), k + 1, fn.args[k + 1].get("n") or "arg%d" % (k + 1)) for k, n in enumerate(params)}
        this = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
        name = pat[:-2]
        for unit, kind in (((("K", None), ("CCITTIA5" if name == "set_bufr" else "CHARACTER", "String"), ("X" * 40, None)) + tuple((u, None) for u in ("CODE TABLE 1", "FLAG TABLE", "NUMERIC", "CCITT", "CCITTIA", "CCITTIA50", "CCITTIA5 X", "CHAR", "CHARACTE", "CHARACTERS", ""))) if "unit" in params else ((None, {"set_string": "String", "set_binary": "Binary"}[name]),)):
            for dl in (5, 63, 64, 90) if unit is None or unit[:1] in "KX" and unit else (5,):
                for bl in ((None,) if name != "set_binary" else (1, 7, 8, 9, 16, 17, 24, 31, 32, 33, 64, 65, 255)):
                    def rng(I, st, i, a):
                        st.objs["range"] = tuple(I.load(st, add(this, C(F[n][0], 64)), "i%d" % (8 * F[n][1]), F[n][1]) for n in ("len", "bit_len", "bit_ref", "type", "scale"))
                        return True

                    def sncpy(I, st, i, a):
                        b = text.cstr(I, st, a[1])
                        if b is None or not isc(a[2]):
                            return NotImplemented
                        m = uval(a[2])
                        text.put(I, st, a[0], (b + [C(0, 8)] * m)[:m])
                        return a[0]
                    I = Interp(mod, fn, hooks=[(r"compute_range", rng), (r"^strncpy$", sncpy)] + text.hooks(), unroll=100, fork_exits=True)

                    def init(I, st):
                        for n in ("desc", "unit"):
                            if n in arg:
                                st.assume(mk("eq0", 1, arg[n]), False)
                                s = "D" * dl if n == "desc" else unit
                                text.put(I, st, arg[n], text.lit(s) + [C(0, 8)])
                    av = dict(arg)
                    if bl is not None:
                        av["bit_len"] = C(bl, 32)
                    for p in I.run(init=init, args={k + 1: av[n] for k, n in enumerate(params)}):
                        if p.end != "ret":
                            continue
                        st = p.st

                        def get(n):
                            o, sz = F[n]
                            return I.load(st, add(this, C(o, 64)), "i%d" % (8 * sz), sz)
                        exp = {"code": arg["code"], "scale": arg.get("scale", C(0, 32)), "bit_ref": arg.get("bit_ref", C(0, 32))}
                        exp["bit_len"] = av["bit_len"] if "bit_len" in arg else scale(arg["len"], 8) if name == "set_string" else C(0, 32)
                        exp["len"] = arg["len"] if "len" in arg else C((bl + 7) // 8, 32)
                        for n, v in exp.items():
                            g = conc(get(n))
                            same = g is v or isc(I.mkeq(st, g, v)) and uval(I.mkeq(st, g, v)) or st.decide(I.mkeq(st, g, v)) is True
                            rep.check(same, rule, fn.where, "%s: %s is %s, %s asked for%s" % (name, n, show(g)[:80], show(v)[:60], "" if bl is None else " (%d bits)" % bl))
                        t = get("type")
                        k = kind
                        if k is None:
                            z = st.decide(mk("eq0", 1, arg["scale"]))
                            k = "Integer" if z else "Decimal" if z is False else None
                        rep.check(isc(t) and T_.get(uval(t)) == k, rule, fn.where, "%s with unit %s gives a %s, not a %s" % (name, unit, T_.get(uval(t)) if isc(t) else show(t), k))
                        for n, s in (("desc", "D" * dl),) + ((("unit", unit),) if unit else ()):
                            m = F[n][1]
                            b = text.cstr(I, st, add(this, C(F[n][0], 64)), m)
                            rep.check(b is not None and bytes(uval(x) for x in b if isc(x)).decode() == s[:m - 1], rule, fn.where, "%s: %s of %d characters becomes %s" % (name, n, len(s), "unterminated" if b is None else "%d characters" % len(b)))
                        rep.check("range" in st.objs and st.objs["range"] == tuple(get(n) for n in ("len", "bit_len", "bit_ref", "type", "scale")), rule, fn.where, "%s: the range of values is not that of the definition" % name)
                        rep.count("ways to make a definition", 1)


def lists(rep):
    """lists of descriptors: parts of them are the ones asked for, and nothing outside them is looked at"""
    rule = "parts of lists of codes"
    bc = build.unit(os.path.join(build.VERIF, "witness", "opcodes.cc"))
    try:
        mod = ir.Mod(build.dump(bc, {"roots": [r"^w_"], "post": codec.POST, "std_max": 200, "noinline": ["throwf", "error_consistency::error_consistency"]}))
    finally:
        os.unlink(bc)
    FO = {n: o for o, sz, n, t in mod.fields("wreport::Opcodes")}
    BUF, OUT = obj("codes"), obj("result")
    VECT = ("_M_start", "_M_finish", "_M_end_of_storage")
    NUMS = (0, 1, 2, 3, 4, 5, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff)

    def go(name, n, nums):
        fn = mod.find(r"^%s\(" % name)
        o = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
        I = Interp(mod, fn, hooks=[], unroll=20, fork_exits=True)
        I.ptr |= {BUF, OUT}

        def init(I, st):
            for x in (BUF, OUT, o):
                st.assume(mk("eq0", 1, x), False)
            # the list lies in the lower part of the memory, as everything does
            st.setiv(BUF, slo=4096, shi=1 << 47, ulo=4096, uhi=1 << 47)
            if name == "w_vector":
                for k, e in enumerate((0, n, n)):
                    I.store(st, add(o, C(8 * k, 64)), add(BUF, C(2 * e, 64)), 8)
            else:
                I.store(st, add(o, C(FO["begin"], 64)), BUF, 8)
                I.store(st, add(o, C(FO["end"], 64)), add(BUF, C(2 * n, 64)), 8)
            for k in range(n):
                I.store(st, add(BUF, C(2 * k, 64)), mk("arg", 16, 700 + k, "code %d" % k), 2)
        args = {0: o, len(nums) + 1: OUT}
        for k, v in enumerate(nums):
            args[k + 1] = C(v, 32)
        res = []
        for p in I.run(args=args, init=init):
            if p.end == "throw":
                res.append(("error",) if "error_consistency" in (p.what or "") else ("another error",))
            elif p.end == "ret":
                st = p.st

                def part(q):
                    v = [sub(I.load(st, add(q, C(FO[x], 64)), "ptr", 8), BUF) for x in ("begin", "end")]
                    return tuple(uval(x) // 2 if isc(x) else show(x) for x in v)
                out = I.load(st, OUT, "i32", 4)
                res.append(("ret", out, part(OUT), part(o) if name != "w_vector" else None))
            elif p.end not in ("resume", "unreachable"):
                raise ToolError("%s ends with %s" % (fn.dem, p.end))
        return fn, list(dict.fromkeys(res))

    def code(k):
        return mk("arg", 16, 700 + k, "code %d" % k)

    def same(I_, out, want):
        if isinstance(want, int):
            return isc(out) and uval(out) == want
        while out.k == "zext":
            out = out.a[0]
        return out is want
    whats = {"w_at": "operator[]", "w_size": "size", "w_empty": "empty", "w_head": "head", "w_pop": "pop_left()", "w_popn": "pop_left", "w_next": "next", "w_sub": "sub", "w_sublen": "sub", "w_vector": "the list of a vector"}
    for name, what in whats.items():
        for n in range(5):
            alls = [(a, b) for a in NUMS for b in NUMS] if name == "w_sublen" else [(a,) for a in NUMS] if name in ("w_at", "w_popn", "w_sub") else [()]
            for nums in alls:
                fn, res = go(name, n, nums)
                say = "%s(%s) of %d codes" % (what.rstrip("()"), ", ".join(map(str, nums)), n)
                val, part, rest, err = None, None, (0, n), False
                if name == "w_at":
                    val = code(nums[0]) if nums[0] < n else 0
                elif name == "w_size":
                    val = n
                elif name == "w_empty":
                    val = int(n == 0)
                elif name == "w_head":
                    val = code(0) if n else 0
                elif name == "w_pop":
                    val, rest, err = code(0), (1, n), n == 0
                elif name == "w_popn":
                    part, rest, err = (0, nums[0]), (nums[0], n), nums[0] > n
                elif name == "w_next":
                    part = (min(1, n), n)
                elif name == "w_sub":
                    part = (min(nums[0], n), n)
                elif name == "w_sublen":
                    part = (min(nums[0], n), min(nums[0] + nums[1], n))
                elif name == "w_vector":
                    part = (0, n)
                if len(res) != 1:
                    raise ToolError("%s has %d outcomes: %s" % (say, len(res), [(r[0], show(r[1]) if len(r) > 1 else "") + r[2:] for r in res]))
                r = res[0]
                if err:
                    rep.check(r == ("error",), rule, "wreport/opcodes.h", "%s: no error is raised" % say)
                    continue
                if not rep.check(r[0] == "ret", rule, "wreport/opcodes.h", "%s: %s" % (say, r[0])):
                    continue
                if val is not None:
                    rep.check(same(None, r[1], val), rule, "wreport/opcodes.h", "%s gives %s, not %s" % (say, show(r[1]), val if isinstance(val, int) else show(val)))
                if part is not None:
                    # an empty part may be anywhere in the list
                    good = r[2] == part or part[0] == part[1] and r[2][0] == r[2][1] and isinstance(r[2][0], int) and 0 <= r[2][0] <= n
                    rep.check(good, rule, "wreport/opcodes.h", "%s gives the codes from %s to %s, not from %s to %s" % (say, r[2][0], r[2][1], part[0], part[1]))
                if r[3] is not None:
                    rep.check(r[3] == rest, rule, "wreport/opcodes.h", "%s leaves the codes from %s to %s, not from %s to %s" % ((say,) + r[3] + rest))
                rep.count("operations on lists of codes", 1)


def run(rep):
    mod = load()
    rep.rule("parts of lists of codes", 300)
    lists(rep)
    from checks.c13 import TYPES
    inv = {v: k for k, v in TYPES(mod).items()}
    for r, n in (("codes are read", 1000), ("codes are written", 2000), ("malformed codes are refused", 20), ("names of types", 12), ("range of values", 1000), ("definitions are as asked for", 100)):
        rep.rule(r, n)
    codes(rep, mod)
    formats(rep, mod)
    names(rep, mod, inv)
    ranges(rep, mod, inv)
    setters(rep, mod, inv)
