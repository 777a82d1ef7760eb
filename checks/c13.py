"""Code tables: B and D tables are loaded as they are written, and looked up by code"""
import math
import re
from wra import codec, text
from wra.absint import *
from wra.build import ToolError
from wra.dds import Vecs
from wra.seq import obj
from . import c13_made

NS = "wreport::(anonymous namespace)::"
VT = ("Integer", "Decimal", "String", "Binary")


def load(extra=()):
    return codec.load([r"^wreport::\(anonymous namespace\)::(BufrVartable|CrexVartable|VartableBase|VartableEntry|DTableBase|Entry)::", r"^wreport::(DTable|Vartable)::load_", r"lambda.*Entry"],
                      noinline=[r"compute_range", r"^std::vector<", r"[&*] std::vector<", r"^void std::vector<", r"^std::map<", r"std::filesystem", r"^std::function", r"^wreport::_Varinfo::", r"^std::(stable_)?sort",
                                r"^void std::(stable_)?sort", r"::(BufrVartable|CrexVartable|DTableBase)::[A-Za-z]+\(", r"VartableEntry::VartableEntry\(wreport"] + list(extra) + codec.STRNO)


class Vec(Vecs):
    """vectors of structures too"""
    V = r"std::vector<.*>::"

    def __init__(self, mod):
        Vecs.__init__(self, codec.vec_sizes(mod))
        self.mod = mod

    def hooks(self):
        V = self.V
        return Vecs.hooks(self) + [(r"^" + V + r"vector\(\)", self.ctor), (r"^" + V + r"~vector\(\)", lambda I, st, i, a: True), (V + r"(resize|shrink_to_fit)\(", self.resize),
                                   (r"std::(stable_)?sort<", self.sort)]

    def ctor(self, I, st, i, a):
        self.setn(I, st, a[0], 0, self.S.elsize(i.callee))
        return True

    def resize(self, I, st, i, a):
        if "shrink" in i.callee:
            return True
        raise ToolError("table resized at %s" % i.loc)

    def sort(self, I, st, i, a):
        """entries sorted by code: what the comparison makes of it is judged apart"""
        vs = [k[1] for k in st.objs if isinstance(k, tuple) and k[0] == "cvec" and self.data_of(k[1]) in base_atoms(a[0])]
        if len(vs) != 1 or a[0] is not self.data(st, vs[0]):
            raise ToolError("part of a table is sorted at %s" % i.loc)
        es = self.S.sizes.get(re.search(r"__normal_iterator<([^*]*?)\s*\*", i.callee).group(1))
        if es is None:
            raise ToolError("something else is sorted at %s" % i.loc)
        v, n = vs[0], self.n(st, vs[0])
        d = self.data(st, v)
        tmp = obj("entries before they are sorted")
        I.copy(st, tmp, d, n * es)
        cs = [I.load(st, add(d, C(k * es, 64)), "i16", 2) for k in range(n)]
        if not all(isc(c) for c in cs):
            raise ToolError("codes not known when sorted at %s" % i.loc)
        for k, j in enumerate(sorted(range(n), key=lambda j: uval(cs[j]))):
            I.copy(st, add(d, C(k * es, 64)), add(tmp, C(j * es, 64)), es)
        st.objs[("sorted", v)] = n
        return True

    def push(self, I, st, i, a):
        es, n, v = self.S.elsize(i.callee), self.n(st, a[0]), a[0]
        d = add(self.data(st, v), C(n * es, 64))
        if "emplace_back" in i.callee and len(a) != 2:
            if len(a) == 1:
                for k in range(0, es, 8):
                    I.store(st, add(d, C(k, 64)), C(0, 8 * min(8, es - k)), min(8, es - k))
            else:
                m = re.search(r"std::vector<(.*?), std::allocator", i.callee)
                t = self.mod.fields(m.group(1))
                if len(t) != len(a) - 1:
                    raise ToolError("entry built from %d values at %s" % (len(a) - 1, i.loc))
                for (o, sz, nm, ty), x in zip(t, a[1:]):
                    I.store(st, add(d, C(o, 64)), I.load(st, x, "i%d" % (8 * sz), sz), sz)
        elif es in (1, 2, 4, 8):
            I.store(st, d, I.load(st, a[1], "i%d" % (8 * es), es), es)
        else:
            I.copy(st, d, a[1], es)
        self.setn(I, st, v, n + 1, es)
        return d if "emplace_back" in i.callee else True


class Files:
    """a file of lines that are known but for some characters"""
    FILE = obj("open file")

    def hooks(self):
        def fopen(I, st, i, a):
            def good(I, s):
                s.objs["file"] = s.objs.get("file", 0) + 1
                s.assume(mk("eq0", 1, self.FILE), False)
                return self.FILE

            def bad(I, s):
                s.objs["nofile"] = True
                return C(0, 64)
            return ("fork", [good, bad] if st.objs.get("may fail") else [good])

        def fclose(I, st, i, a):
            if a[0] is self.FILE:
                st.objs["file"] = st.objs.get("file", 0) - 1
            return C(0, 32)

        def fgets(I, st, i, a):
            if not isc(a[1]):
                raise ToolError("lines of unknown length read at %s" % i.loc)
            ls, k, o = st.objs["lines"], st.objs.get("line", 0), st.objs.get("column", 0)
            if k >= len(ls):
                return C(0, 64)
            l = ls[k][o:]
            n = uval(a[1]) - 1
            st.objs["line"], st.objs["column"] = (k, o + n) if len(l) > n else (k + 1, 0)
            text.put(I, st, a[0], list(l[:n]) + [C(0, 8)])
            return a[0]
        return [(r"^fopen(64)?$", fopen), (r"^fclose$", fclose), (r"^fgets$", fgets), (r"^ferror$", lambda I, st, i, a: C(0, 32)), (r"^feof$", lambda I, st, i, a: C(1, 32))]


def memcpy(I, st, i, a):
    return NotImplemented


def h_strcpy(I, st, i, a):
    b = text.cstr(I, st, a[1])
    if b is None:
        raise ToolError("unknown text copied at %s" % i.loc)
    text.put(I, st, a[0], b + [C(0, 8)])
    return a[0]


def h_isspace(I, st, i, a):
    # characters of names are not blanks
    return C(0, 32) if text.unext(a[0]).k == "tchar" else text.h_isspace(I, st, i, a)


def h_log10(I, st, i, a):
    if a[0].k == "fc":
        return mk("fc", 64, math.log10(a[0].a[0]))
    return NotImplemented


def fields(mod):
    return {n: (o, sz) for o, sz, n, t in mod.fields("wreport::_Varinfo")}


def texthooks():
    return [(r"^strlen$", text.h_strlen), (r"^strcmp$", text.h_strcmp), (r"^strncmp$", text.h_strncmp), (r"^strcpy$", h_strcpy), (r"^isspace$", h_isspace), (r"^isdigit$", text.h_isdigit),
            (r"^(__isoc23_)?strtou?ll?$", text.h_strtol), (r"^log10$", h_log10)]


class M(Interp):
    memset_max = 400


class Loader:
    def __init__(self, mod, what):
        self.mod = mod
        self.fn = mod.find(r"^wreport::\(anonymous namespace\)::%s::%s\((?!.*lambda)" % (what, what))
        self.F = fields(mod)
        self.V = Vec(mod)
        self.this = mk("arg", 64, 0, self.fn.args[0].get("n") or "this")
        self.off = {n: o for o, sz, n, t in mod.fields(NS + what)}
        self.es = mod.types[NS + "VartableEntry"]["size"] if what != "DTableBase" else None

    def vec(self, name):
        return add(self.this, C(self.off[name], 64))

    def run(self, lines, fail=False):
        """lines: lists of bytes"""
        def rng(I, st, i, a):
            st.objs[("range", a[0])] = self.snapshot(I, st, a[0])
            return True
        I = M(self.mod, self.fn, hooks=self.V.hooks() + Files().hooks() + texthooks() + [(r"_Varinfo::compute_range", rng)] + text.Strs().hooks(), unroll=600, max_steps=3000000, fork_exits=True,
                   into=r"VartableEntry::VartableEntry|VartableBase::|Entry::Entry|::normalise_unit|::getnumber|::varcode_parse")

        def init(I, st):
            st.objs["lines"] = tuple(tuple(l(st) if callable(l) else l) for l in lines)
            if fail:
                st.objs["may fail"] = True
        return I, I.run(init=init)

    def snapshot(self, I, st, p):
        return tuple((n, I.load(st, add(p, C(o, 64)), "i%d" % (8 * sz), sz)) for n, (o, sz) in sorted(self.F.items()) if n in ("scale", "len", "bit_ref", "bit_len", "type"))

    def entries(self, I, st):
        v = self.vec("entries")
        n = self.V.n(st, v)
        return [add(self.V.data(st, v), C(self.es * k, 64)) for k in range(n)]

    def get(self, I, st, e, n):
        o, sz = self.F[n]
        return I.load(st, add(e, C(o, 64)), "i%d" % (8 * sz), sz)

    def text(self, I, st, e, n):
        """the text a reader finds"""
        o, sz = self.F[n]
        return text.cstr(I, st, add(e, C(o, 64)), 400), sz


def chars(what, n):
    """n characters of some text, the last one not a blank"""
    def f(st):
        r = []
        for k in range(n):
            t = text.tchar(st, what, k, n)
            for c in (67, 70):
                st.assume(mk("eq0", 1, add(t, C(-c, 8))), False)
            r.append(t)
        return r
    return f


def digits(what, n, hi=None):
    v = mk("arg", 64, 90, what)

    def f(st):
        st.setiv(v, slo=0, shi=hi if hi is not None else 10 ** n - 1, ulo=0, uhi=hi if hi is not None else 10 ** n - 1)
        return [text.digit(st, v, k, n) for k in range(n)]
    f.value = v
    return f


def pad(st, f, n, right=False):
    b = text.lit(f) if isinstance(f, str) else f(st)
    sp = [C(32, 8)] * (n - len(b))
    return sp + b if right else b + sp


def num(sign, what, n, gap=0):
    """a number: sign, blanks, digits"""
    d = digits(what, n)

    def f(st):
        return text.lit(sign + " " * gap) + d(st)
    f.value = scale(d.value, -1) if sign == "-" else d.value
    return f


def value(f):
    if isinstance(f, str):
        s = f.replace(" ", "")
        return C(int(s or 0), 64)
    return f.value


BASE = dict(code="012101", desc=None, unit=None, scale="2", ref="0", bits="16", cunit=None, cscale="1", clen="4", end="")


def line(crex=True, length=None, **kw):
    d = dict(BASE, **kw)
    d["desc"] = d["desc"] if d["desc"] is not None else chars("description", 20)
    d["unit"] = d["unit"] if d["unit"] is not None else chars("unit", 7)
    d["cunit"] = d["cunit"] if d["cunit"] is not None else chars("CREX unit", 5)

    def f(st):
        b = text.lit(" " + d["code"] + " ") + pad(st, d["desc"], 64) + text.lit(" ") + pad(st, d["unit"], 24) + text.lit(" ")
        b += pad(st, d["scale"], 3, True) + text.lit(" ") + pad(st, d["ref"], 12, True) + text.lit(" ") + pad(st, d["bits"], 3, True)
        assert len(b) == 118
        if crex:
            b += text.lit(" ") + pad(st, d["cunit"], 24) + pad(st, d["cscale"], 3, True) + text.lit("   ") + pad(st, d["clen"], 6, True)
            b += [C(32, 8)] * 15
        if length is not None:
            b = b[:length - 1]
        return b + text.lit("\n")
    f.d = d
    return f


def code(s):
    return int(s[0]) << 14 | int(s[1:3]) << 8 | int(s[3:6])


def same(I, st, x, v, w=32):
    """x is the number v, as an int"""
    t = I.resize(st, "trunc", v, w) if v.w != w else v
    if x is t:
        return True
    c = I.mkeq(st, x, t)
    return bool(uval(c)) if isc(c) else st.decide(c) is True


def judge(rep, rule, L, I, p, ls, crex, what):
    """the entries of a table are the lines of its file"""
    st, where = p.st, L.fn.where
    es = L.entries(I, st)
    if not rep.check(len(es) == len(ls), rule, where, "%d lines give %d entries (%s)" % (len(ls), len(es), what)):
        return
    for e, l in zip(es, ls):
        d = l.d
        c = L.get(I, st, e, "code")
        rep.check(isc(c) and uval(c) == code(d["code"]), rule, where, "line for %s gives an entry for code %s (%s)" % (d["code"], show(c), what))
        tag = "%s: %s" % (d["code"], what)
        for nm, f in (("desc", d["desc"]), ("unit", d["cunit"] if crex else d["unit"])):
            b, sz = L.text(I, st, e, nm)
            if isinstance(f, str):
                exp = f.rstrip()
                if nm == "unit":
                    exp = next((u for u, ps in (("CODE TABLE", ("CODE TABLE", "CODETABLE")), ("FLAG TABLE", ("FLAG TABLE", "FLAGTABLE"))) if exp.startswith(ps)), exp)
                exp = text.lit(exp)
            else:
                exp = f(st)
            short = exp[:sz - 1]
            while short and isc(short[-1]) and uval(short[-1]) == 32:
                short.pop()
            # text longer than its place is cut short
            rep.check(b == (exp if len(exp) < sz else short), rule, where, "the %s is not the one in the file: %s instead of %s (%s)" % ("description" if nm == "desc" else "unit", words(b), words(exp), tag))
        sc = value(d["cscale"] if crex else d["scale"])
        x = L.get(I, st, e, "scale")
        rep.check(same(I, st, x, sc), rule, where, "the scale is %s, in the file it is %s (%s)" % (show(x), show(sc), tag))
        u = d["cunit"] if crex else d["unit"]
        isstr = isinstance(u, str) and u.rstrip() == ("CHARACTER" if crex else "CCITTIA5")
        z = st.decide(mk("eq0", 1, x)) if not isc(x) else uval(x) == 0
        ty = L.get(I, st, e, "type")
        exp = "String" if isstr else "Integer" if z else "Decimal" if z is False else None
        ety = TYPES(L.mod)
        rep.check(isc(ty) and ety.get(uval(ty)) == exp, rule, where, "the type is %s, by unit and scale it is %s (%s)" % (ety.get(uval(ty)) if isc(ty) else show(ty), exp, tag))
        ref, bits = (C(0, 64), C(0, 64)) if crex else (value(d["ref"]), value(d["bits"]))
        x = L.get(I, st, e, "bit_ref")
        rep.check(same(I, st, x, ref), rule, where, "the reference value is %s, in the file it is %s (%s)" % (show(x), show(ref), tag))
        x = L.get(I, st, e, "bit_len")
        rep.check(same(I, st, x, bits), rule, where, "the width is %s bits, in the file it is %s (%s)" % (show(x), show(bits), tag))
        x = L.get(I, st, e, "len")
        if crex:
            ln = value(d["clen"])
            rep.check(same(I, st, x, ln), rule, where, "the width is %s characters, in the file it is %s (%s)" % (show(x), show(ln), tag))
        elif isc(bits):
            ln = uval(bits) // 8 if isstr else 1 if uval(bits) == 1 else math.ceil(uval(bits) * math.log10(2))
            rep.check(isc(x) and uval(x) == ln, rule, where, "%d bits give a width of %s characters, they are %d (%s)" % (uval(bits), show(x), ln, tag))
        r = st.objs.get(("range", e))
        rep.check(r is not None and r == L.snapshot(I, st, e), rule, where, "the range of values is not computed from the definition (%s)" % tag)


def words(b):
    if b is None:
        return "text that does not end"
    return "'%s'" % "".join(chr(uval(x)) if isc(x) else "x" if x.k in ("tchar", "digit") else "{%s}" % show(x) for x in b)


def TYPES(mod):
    for n, d in mod.enums.items():
        if n.endswith("Vartype"):
            d = d if isinstance(d, dict) else dict(d)
            return {v: k for k, v in d.items()}
    raise ToolError("no Vartype")


def bfiles(crex):
    u = "cunit" if crex else "unit"
    s = "cscale" if crex else "scale"
    r = []
    for c in ("000001", "001001", "012101", "063255", "008002", "031001", "020000"):
        r.append((dict(code=c), "code"))
    for n in (1, 2, 40, 63, 64):
        r.append((dict(desc=chars("description", n)), "description of %d characters" % n))
    for t in ("", "A  B", "X" * 64, "X" * 61 + "  Y", "X" * 62 + " Y", "X" * 62 + "  "):
        r.append((dict(desc=t), "description '%s'" % t))
    for n in (1, 2, 22, 23, 24):
        r.append(({u: chars(u, n)}, "unit of %d characters" % n))
    for t in ("CCITTIA5", "CHARACTER", "CODE TABLE", "CODE TABLE 012345", "CODETABLE", "CODETABLE 8042", "FLAG TABLE", "FLAG TABLE 3", "FLAGTABLE", "FLAGTABLE02", "CODE", "FLAG TABL", "CCITTIA", "CCITTIA55",
              "CHARACTERS", "NUMERIC", "C", "FT", "CODE TABLE DEFINED BY OR", "CODETABLEDEFINEDBYORIGIN"):
        r.append(({u: t}, "unit '%s'" % t))
        r.append(({u: t, s: "0"}, "unit '%s', scale 0" % t))
    for f, t in ((num("", "scale", 1), "scale of 1 digit"), (num("", "scale", 2), "scale of 2 digits"), (num("-", "scale", 1), "negative scale"), (num("-", "scale", 2), "negative scale of 2 digits"),
                 (num("-", "scale", 1, 1), "scale with a blank after the sign"), ("0", "scale 0"), ("  0", "scale 0")):
        r.append(({s: f}, t))
    if crex:
        for k in (1, 2, 3):
            r.append((dict(clen=digits("width", k)), "width of %d digits" % k))
        r.append((dict(clen="0", cunit="CHARACTER"), "width 0"))
    else:
        for k in (1, 5, 9):
            for sg in ("", "-"):
                r.append((dict(ref=num(sg, "reference", k)), "reference value of %d digits%s" % (k, ", negative" if sg else "")))
        r.append((dict(ref=num("-", "reference", 7, 2)), "reference value with blanks after the sign"))
        for k in range(1, 33):
            r.append((dict(bits="%d" % k), "%d bits" % k))
        for k in (2, 3):
            r.append((dict(bits=digits("width", k)), "width of %d digits" % k))
        for k in (8, 16, 72, 256, 640):
            r.append((dict(bits="%d" % k, unit="CCITTIA5", scale="0"), "text of %d bits" % k))
    return r


def btable(rep, mod, kind):
    crex = kind == "CrexVartable"
    L = Loader(mod, kind)
    rule = "%s entries are the lines of the file" % ("CREX B" if crex else "BUFR B")
    where = L.fn.where

    def closed(p, what):
        rep.check(p.end != "ret" or p.st.objs.get("file", 0) == 0, "table files are closed", where, "the file is left open or closed twice (%s)" % what)

    def all_good(ls, what, **kw):
        I, ps = L.run(ls)
        for p in ps:
            closed(p, what)
            if p.end == "ret":
                judge(rep, rule, L, I, p, ls, crex, what)
            else:
                rep.bad(rule, where, "the table is rejected: %s (%s)" % (p.what, what))

    def all_bad(ls, what, kind_="error_parse"):
        I, ps = L.run(ls)
        for p in ps:
            closed(p, what)
            rep.check(p.end == "throw" and kind_ in p.what, "malformed tables are rejected", where, "%s: %s" % (what, "accepted" if p.end == "ret" else p.what))
    for kw, what in bfiles(crex):
        all_good([line(**kw)], what)
        rep.count("kinds of line")
    a, b, c = line(code="001001"), line(code="001002", desc=chars("second description", 12), scale="-3", cscale="-2"), line(code="033007", unit="CODE TABLE 1", cunit="CODE TABLE 1")
    all_good([], "no lines")
    all_good([a, b], "two lines")
    all_good([a, b, c], "three lines")
    for x, y, t in ((b, a, "a line before a smaller code"), (a, line(code="001001"), "the same code twice"), (line(code="002001"), line(code="001255"), "classes out of order")):
        all_bad([x, y], t)
    all_bad([a, c, b], "the last line is out of order")
    if crex:
        for n in (8, 20, 119, 140, 155, 156):
            all_bad([line(length=n)], "line of %d characters" % n)
        I, ps = L.run([a, line(code="031001", length=119), line(code="031255", length=30), c])
        for p in ps:
            closed(p, "replication factors")
            if p.end == "ret":
                judge(rep, rule, L, I, p, [a, c], crex, "lines for replication factors without a CREX part")
            else:
                rep.bad(rule, where, "lines for replication factors without a CREX part are rejected: %s" % p.what)
    else:
        for n in (8, 20, 100, 116, 117, 118):
            all_bad([line(crex=False, length=n)], "line of %d characters" % n)
        all_bad([a, line(code="002001", crex=False, length=90), c], "line of 90 characters")
        all_good([line(crex=False)], "line without a CREX part")
    I, ps = L.run([a], fail=True)
    n = 0
    for p in ps:
        if "nofile" in p.st.objs:
            n += 1
            rep.check(p.end == "throw" and "error_system" in p.what, "malformed tables are rejected", where, "a file that cannot be opened is not reported: %s" % (p.what or p.end))
        else:
            closed(p, "opened")
    if not n:
        raise ToolError("the file is not opened with fopen")


# -- lookup
class Table:
    """a table of n entries with known codes"""

    def __init__(self, mod, fn, codes, chains=None, dtable=False):
        self.mod, self.fn, self.codes, self.dtable = mod, fn, codes, dtable
        self.F = fields(mod)
        self.V = Vec(mod)
        self.chains = chains or {}
        k = next(k for k, a in enumerate(fn.args) if "sret" not in str(a))
        self.this = mk("arg", 64, k, fn.args[k].get("n") or "arg%d" % k)
        ty = NS + ("DTableBase" if dtable else "VartableBase")
        self.off = {n: o for o, sz, n, t in mod.fields(ty)}
        self.es = mod.types[NS + ("Entry" if dtable else "VartableEntry")]["size"]
        self.eo = {n: o for o, sz, n, t in mod.fields(NS + ("Entry" if dtable else "VartableEntry"))}

    def entry(self, k):
        return add(self.V.data_of(self.vec), C(self.es * k, 64))

    @property
    def vec(self):
        return add(self.this, C(self.off["entries"], 64))

    def init(self, I, st):
        self.V.setn(I, st, self.vec, len(self.codes), self.es)
        I.ptr.add(self.V.data_of(self.vec))
        for k, c in enumerate(self.codes):
            I.store(st, self.entry(k), C(c, 16), 2)
            if not self.dtable:
                self.link(I, st, self.entry(k), [alt(k, j) for j in range(self.chains.get(k, 0))])

    def link(self, I, st, e, alts):
        o = self.eo["alterations"]
        for x in alts:
            st.assume(mk("eq0", 1, x), False)
            I.ptr.add(x)
        for x, y in zip([e] + alts, alts + [C(0, 64)]):
            I.store(st, add(x, C(o, 64)), y, 8)


def alt(k, j):
    return obj("alteration %d of entry %d" % (j, k))


SIZES = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33)


def lookups(rep, mod, pat, what, found, missing, dtable=False, sizes=SIZES, into=r"query_entry"):
    """a code is found exactly when it is in the table"""
    fn = mod.find(pat)
    rule = "codes are found"
    for n in sizes:
        codes = [F_(1 + k // 3, 2 + (k % 3) * 50) for k in range(n)]
        t = Table(mod, fn, codes, dtable=dtable)
        q = next(a for k, a in enumerate(fn.args) if width(a.get("ty", "ptr")) == 16)
        I = Interp(mod, fn, hooks=t.V.hooks() + [(r"c_str\(\)", lambda I, st, i, a: obj("path"))], unroll=40 + n, into=into, fork_exits=True)

        def init(I, st):
            t.init(I, st)
            if dtable:
                for k in range(n):
                    for nm in ("begin", "end"):
                        I.store(st, add(t.entry(k), C(t.eo[nm], 64)), mk("arg", 32, 100 + k, nm), 4)
        ps = I.run(init=init)
        x = mk("arg", 16, fn.args.index(q), q.get("n") or "arg%d" % fn.args.index(q))
        seen = set()
        for p in ps:
            lo, hi = p.st.rng(x)[2:4]
            cs = [c for c in codes if lo <= c <= hi and p.st.decide(I.mkeq(p.st, x, C(c, 16))) is not False]
            out = [v for v in (lo, hi) if v not in codes]
            k = found(I, p, t)
            if k is None:
                rep.check(missing(I, p), rule, fn.where, "%s of a code that is not in the table ends with %s (%d entries)" % (what, p.what or show(p.ret) if p.ret is not None else p.end, n))
                for c in cs:
                    rep.bad(rule, fn.where, "code %s, which is entry %d of %d, is not found by %s" % (nm_(c), codes.index(c), n, what))
            elif k == "any":
                rep.check(not (hi - lo + 1 > len(cs)), rule, fn.where, "codes from %s to %s are all found in a table that has %d of them" % (nm_(lo), nm_(hi), len(cs)))
                seen |= set(cs)
            else:
                ok = lo == hi == codes[k] if 0 <= k < n else False
                rep.check(ok, rule, fn.where, "codes from %s to %s get entry %d of %d (%s)" % (nm_(lo), nm_(hi), k, n, nm_(codes[k]) if 0 <= k < n else "outside the table"))
                seen.add(codes[k] if 0 <= k < n else None)
        rep.check(set(codes) <= seen, rule, fn.where, "%s never finds %s in a table of %d entries" % (what, [nm_(c) for c in codes if c not in seen][:3], n))
        rep.count("searches", len(ps))


def F_(x, y):
    return x << 8 | y


def nm_(c):
    return "%d%02d%03d" % (c >> 14, c >> 8 & 63, c & 255)


def index(t, ptr, delta=0):
    """number of the entry a pointer points to"""
    d = sub(ptr, add(t.V.data_of(t.vec), C(delta, 64)))
    if isc(d) and uval(d) % t.es == 0:
        return uval(d) // t.es
    return None


def truth(st, r, t):
    if isc(r):
        return bool(uval(r) & 1)
    if r.k == "not":
        v = truth(st, r.a[0], t)
        return None if v is None else not v
    if r.k == "eq0" and t.V.data_of(t.vec) in base_atoms(r.a[0]):
        return False
    if r.k in ("zext", "trunc"):
        return truth(st, r.a[0], t)
    return st.decide(r)


def run_lookup(rep, mod):
    def ptr(I, p, t):
        if p.end != "ret":
            return None
        if isc(p.ret) and uval(p.ret) == 0:
            return None
        k = index(t, p.ret)
        return -1 if k is None else k

    def notfound(I, p):
        return p.end == "throw" and "error_notfound" in p.what
    lookups(rep, mod, r"^wreport::\(anonymous namespace\)::VartableBase::query\(", "query", ptr, notfound)
    lookups(rep, mod, r"^wreport::\(anonymous namespace\)::VartableBase::contains\(", "contains",
            lambda I, p, t: "any" if p.end == "ret" and truth(p.st, p.ret, t) is not False else None, lambda I, p: p.end == "ret")

    def opcodes(I, p, t):
        if p.end != "ret":
            return None
        b, e = opret(I, p)
        vd = None
        for k in range(len(t.codes)):
            d = t.V.data_of(add(t.this, C(t.off["varcodes"], 64)))
            wb = add(d, scale(I.resize(p.st, "zext", mk("arg", 32, 100 + k, "begin"), 64), 2))
            we = add(d, scale(I.resize(p.st, "zext", mk("arg", 32, 100 + k, "end"), 64), 2))
            if b is wb and e is we:
                return k
        return -1
    lookups(rep, mod, r"^wreport::\(anonymous namespace\)::DTableBase::query\(", "query of a D table", opcodes, notfound, dtable=True)


def opret(I, p):
    """the two pointers of the returned Opcodes"""
    r, d = p.ret, {}
    while r is not None and r.k == "insertvalue":
        k = r.a[2] if not isinstance(r.a[2], tuple) else r.a[2][0]
        d.setdefault(k, r.a[1])
        r = r.a[0]
    if sorted(d) == [0, 1]:
        return d[0], d[1]
    raise ToolError("opcodes returned as %s" % (show(p.ret) if p.ret is not None else None))


# -- altered definitions
INTO_ALT = r"query_entry|get_alteration|VartableEntry::VartableEntry|digits_per_bits|unique_ptr|__uniq_ptr|wreport::\(anonymous namespace\)::VartableEntry::"


def alterations(rep, mod):
    fn = mod.find(r"^wreport::\(anonymous namespace\)::VartableBase::query_altered\(")
    rule = "altered definitions"
    types = TYPES(mod)
    inv = {v: k for k, v in types.items()}
    names = [a.get("n") for a in fn.args]
    q = [mk("arg", width(a["ty"]), k, a.get("n") or "arg%d" % k) for k, a in enumerate(fn.args)]
    qc, qs, qb, qr = q[1:5]
    ctor = mod.find(r"^wreport::\(anonymous namespace\)::VartableEntry::VartableEntry\(wreport", one=False)

    for ty in VT:
        for depth in (0, 1, 2):
            t = Table(mod, fn, [F_(1, 1), F_(12, 101), F_(20, 3)], chains={1: depth})
            items = [t.entry(1)] + [alt(1, j) for j in range(depth)]

            def fld(j, n):
                return mk("arg", 8 * t.F[n][1], 200 + j, "%s of the definition" % n if j == 0 else "%s of alteration %d" % (n, j))

            def rng(I, st, i, a):
                st.objs[("range", a[0])] = tuple((n, I.load(st, add(a[0], C(o, 64)), "i%d" % (8 * sz), sz)) for n, (o, sz) in sorted(t.F.items()) if n in ("scale", "len", "bit_ref", "bit_len", "type"))
                return True

            def init(I, st):
                t.init(I, st)
                for j, e in enumerate(items):
                    for n in ("scale", "bit_len", "bit_ref", "len"):
                        I.store(st, add(e, C(t.F[n][0], 64)), fld(j, n), 4)
                    I.store(st, add(e, C(t.F["type"][0], 64)), C(inv[ty], 8 * t.F["type"][1]), t.F["type"][1])
                    I.store(st, e, C(F_(12, 101), 16), 2)
                    for nm in ("desc", "unit"):
                        for k in (0, t.F[nm][1] - 1):
                            I.store(st, add(e, C(t.F[nm][0] + k, 64)), mk("arg", 8, 300 + k, "%s of %d" % (nm, j)), 1)
            hooks = t.V.hooks() + [(r"_Varinfo::compute_range", rng), (r"c_str\(\)", lambda I, st, i, a: obj("path"))]
            I = Interp(mod, fn, hooks=hooks, unroll=20, fork_exits=True, max_paths=20000, into=INTO_ALT)
            ps = I.run(init=init)
            outcomes = {"found": 0, "new": 0, "missing": 0, "refused": 0}
            for p in ps:
                st = p.st
                lo, hi = st.rng(qc)[2:4]
                here = "%s with %d alterations" % (ty, depth)
                if lo == hi == F_(1, 1) or lo == hi == F_(20, 3):
                    continue        # like the other one, with nothing known about it
                if not (lo == hi == F_(12, 101)):
                    outcomes["missing"] += 1
                    rep.check(p.end == "throw" and "error_notfound" in p.what, rule, fn.where, "a code that is not in the table gets %s" % (p.what or "a definition"))
                    continue
                eqs = [[st.decide(I.mkeq(st, x, y)) if not isc(I.mkeq(st, x, y)) else bool(uval(I.mkeq(st, x, y))) for x, y in ((qs, fld(j, "scale")), (qb, fld(j, "bit_len")), (qr, fld(j, "bit_ref")))]
                       for j in range(len(items))]
                some = any(all(e is True for e in x) for x in eqs)
                none = all(any(e is False for e in x) for x in eqs)
                if p.end == "throw":
                    outcomes["refused"] += 1
                    s, b = st.rng(qs), st.rng(qb)
                    wrong = ty in ("Integer", "Decimal") and (s[1] < -16 or s[0] > 16 or b[2] > 32 or b[3] == 0)
                    rep.check("error_consistency" in p.what and wrong, rule, fn.where, "scale %d to %d with %d to %d bits is refused: %s (%s)" % (s[0], s[1], b[2], b[3], p.what, here))
                    continue
                if p.end != "ret":
                    continue
                j = next((j for j, e in enumerate(items) if p.ret is e), None)
                if j is not None:
                    outcomes["found"] += 1
                    rep.check(all(e is True for e in eqs[j]), rule, fn.where, "a definition with another scale, width or reference value is returned (%s)" % here)
                    continue
                outcomes["new"] += 1
                if not rep.check(not some, rule, fn.where, "an alteration that already exists is created again (%s)" % here):
                    continue
                e = p.ret
                if not rep.check(not isc(e) and len(base_atoms(e)) == 1 and e not in items, rule, fn.where, "what is returned is not a new definition: %s" % show(e)):
                    continue

                def get(n):
                    o, sz = t.F[n]
                    return I.load(st, add(e, C(o, 64)), "i%d" % (8 * sz), sz)
                s, b = st.rng(qs), st.rng(qb)
                if ty in ("Integer", "Decimal"):
                    rep.check(s[0] >= -16 and s[1] <= 16 and b[3] <= 32, rule, fn.where, "an altered scale from %d to %d or a width up to %d bits is accepted (%s)" % (s[0], s[1], b[3], here))
                for n, x in (("scale", qs), ("bit_len", qb), ("bit_ref", qr)):
                    rep.check(get(n) is x or same(I, st, get(n), x), rule, fn.where, "the altered %s is %s, %s was asked for (%s)" % (n, show(get(n)), show(x), here))
                rep.check(isc(get("code")) and uval(get("code")) == F_(12, 101), rule, fn.where, "the altered definition has code %s" % show(get("code")))
                for nm in ("desc", "unit"):
                    o, sz = t.F[nm]
                    for k in (0, sz - 1):
                        x = I.load(st, add(e, C(o + k, 64)), "i8", 1)
                        rep.check(x is mk("arg", 8, 300 + k, "%s of 0" % nm), rule, fn.where, "the %s of the altered definition is not that of the definition: %s" % (nm, show(x)))
                z = st.decide(mk("eq0", 1, qs))
                exp = ty if ty in ("String", "Binary") else "Integer" if z else "Decimal" if z is False else None
                x = get("type")
                rep.check(isc(x) and types.get(uval(x)) == exp, rule, fn.where, "altering %s to scale %d to %d gives a %s (%s)" % (ty, s[0], s[1], types.get(uval(x)) if isc(x) else show(x), here))
                x = get("len")
                if ty in ("Integer", "Decimal"):
                    # digits computed from the width in another way than by cases are judged below, width by width
                    if b[2] == b[3]:
                        rep.check(isc(x) and uval(x) == len(str(2 ** b[2])), rule, fn.where, "%d bits give %s digits (%s)" % (b[2], show(x), here))
                elif ty == "String":
                    rep.check(x is I.binop(st, "udiv", qb, C(8, 32)) or x is I.binop(st, "lshr", qb, C(3, 32)), rule, fn.where, "text is %s characters long (%s)" % (show(x), here))
                r = st.objs.get(("range", e))
                rep.check(r is not None and all(v is get(n) for n, v in r), rule, fn.where, "the range of values is not computed from the altered definition (%s)" % here)
                # the chain still has all the alterations
                o = t.eo["alterations"]
                got, x = [], t.entry(1)
                for k in range(6):
                    x = I.load(st, add(x, C(o, 64)), "ptr", 8)
                    if isc(x):
                        break
                    got.append(x)
                rep.check(len(got) == depth + 1 and set(got) == set(items[1:] + [e]), rule, fn.where, "after adding one to %d alterations, %d are kept (%s)" % (depth, len(got), here))
            for k, v in outcomes.items():
                if k != "refused" or ty in ("Integer", "Decimal"):
                    rep.check(v > 0, rule, fn.where, "no trace where the definition is %s (%s with %d alterations)" % (k, ty, depth))
            rep.count("traces of altered lookups", len(ps))
            if depth or ty not in ("Integer", "Decimal"):
                continue
            for w in range(1, 33):
                I = Interp(mod, fn, hooks=hooks, unroll=40, fork_exits=True, max_paths=20000, into=INTO_ALT)
                new = 0
                for p in I.run(args={1: C(F_(12, 101), 16), 3: C(w, 32)}, init=init):
                    if p.end != "ret" or p.ret in items:
                        continue
                    new += 1
                    x = I.load(p.st, add(p.ret, C(t.F["len"][0], 64)), "i32", 4)
                    rep.check(isc(x) and uval(x) == len(str(2 ** w)), rule, fn.where, "%d bits give %s digits (%s)" % (w, show(x), ty))
                rep.check(new > 0, rule, fn.where, "no trace where the definition is altered to %d bits (%s)" % (w, ty))


def iterate(rep, mod):
    fn = mod.find(r"^wreport::\(anonymous namespace\)::VartableBase::iterate\(")
    rule = "iteration"
    for chains in ({}, {0: 1}, {1: 2}, {0: 1, 1: 1, 2: 2}):
        for n in (0, 1, 3):
            t = Table(mod, fn, [F_(k + 1, 1) for k in range(n)], chains={k: v for k, v in chains.items() if k < n})
            exp = [x for k in range(n) for x in [t.entry(k)] + [alt(k, j) for j in range(t.chains.get(k, 0))]]

            def call(I, st, i, a):
                def yes(I, s):
                    s.objs["visited"] = s.objs.get("visited", ()) + (a[1],)
                    return C(1, 1)

                def no(I, s):
                    s.objs["visited"] = s.objs.get("visited", ()) + (a[1],)
                    s.objs["stop"] = s.objs.get("stop", 0) + 1
                    return C(0, 1)
                return ("fork", [yes, no])
            I = Interp(mod, fn, hooks=t.V.hooks() + [(r"std::function<.*>::operator\(\)\(", call)], unroll=20, fork_exits=True)
            for p in I.run(init=t.init):
                v, stop = p.st.objs.get("visited", ()), p.st.objs.get("stop", 0)
                ok = p.end == "ret" and isc(p.ret)
                if stop:
                    rep.check(ok and stop == 1 and uval(p.ret) & 1 == 0 and list(v) == exp[:len(v)], rule, fn.where, "iteration goes on, or says it is complete, after being stopped")
                else:
                    rep.check(ok and uval(p.ret) & 1 == 1 and list(v) == exp, rule, fn.where, "%d of %d definitions are visited" % (len(v), len(exp)))


# -- D tables
def dline(c, n, first):
    return text.lit(" %s %2d %s\n" % (c, n, first))


def dcont(c):
    return text.lit("           %s\n" % c)


def dfile(seqs):
    r = []
    for c, n, ms in seqs:
        r.append(dline(c, n, ms[0]))
        r += [dcont(m) for m in ms[1:]]
    return r


def vcode(s):
    f = {"B": 0, "R": 1, "C": 2, "D": 3}.get(s[0])
    return (int(s[0]) if f is None else f) << 14 | int(s[1:3]) << 8 | int(s[3:6])


def dtable(rep, mod):
    L = Loader(mod, "DTableBase")
    rule = "D entries are the lines of the file"
    where = L.fn.where
    eo = {n: o for o, sz, n, t in mod.fields(NS + "Entry")}
    es = mod.types[NS + "Entry"]["size"]
    I_ = {"n": 0}

    def run(lines, fail=False):
        return L.run(lines, fail)

    def good(seqs, what, exp=None):
        I, ps = run(dfile(seqs))
        exp = exp or seqs
        for p in ps:
            st = p.st
            rep.check(p.end != "ret" or st.objs.get("file", 0) == 0, "table files are closed", where, "the file is left open or closed twice (%s)" % what)
            if p.end != "ret":
                rep.bad(rule, where, "the table is rejected: %s (%s)" % (p.what, what))
                continue
            ve, vc = L.vec("entries"), L.vec("varcodes")
            n = L.V.n(st, ve)
            got = []
            for k in range(n):
                e = add(L.V.data(st, ve), C(es * k, 64))
                c, b, x = I.load(st, e, "i16", 2), I.load(st, add(e, C(eo["begin"], 64)), "i32", 4), I.load(st, add(e, C(eo["end"], 64)), "i32", 4)
                if not (isc(c) and isc(b) and isc(x)) or uval(x) > L.V.n(st, vc) or uval(b) > uval(x):
                    got.append(("?", [show(c), show(b), show(x)]))
                    continue
                ms = [I.load(st, add(L.V.data(st, vc), C(2 * j, 64)), "i16", 2) for j in range(uval(b), uval(x))]
                got.append((uval(c), [uval(m) if isc(m) else show(m) for m in ms]))
            want = sorted((vcode(c), [vcode(m) for m in ms]) for c, k, ms in exp)
            rep.check(got == want, rule, where, "the sequences in memory are not those of the file: %s instead of %s (%s)" % (
                [(nm_(c) if isinstance(c, int) else c, [nm_(m) if isinstance(m, int) else m for m in ms]) for c, ms in got][:4], [(nm_(c), [nm_(m) for m in ms]) for c, ms in want][:4], what))
            rep.count("D tables")

    def bad(lines, what, kind="error_parse"):
        I, ps = run(lines)
        for p in ps:
            rep.check(p.end != "ret" or p.st.objs.get("file", 0) == 0, "table files are closed", where, "the file is left open or closed twice (%s)" % what)
            rep.check(p.end == "throw" and kind in p.what, "malformed tables are rejected", where, "%s: %s" % (what, "accepted" if p.end == "ret" else p.what))
    A = ("300002", 2, ["000002", "000003"])
    B_ = ("301001", 1, ["001001"])
    C_ = ("307001", 5, ["301001", "101002", "012101", "201130", "031001"])
    for s in (A, B_, C_, ("363255", 12, ["0%02d%03d" % (k, k) for k in range(12)])):
        good([s], "one sequence of %d" % len(s[2]))
    good([A, B_], "two sequences")
    good([A, B_, C_], "three sequences")
    good([B_, ("301002", 1, ["001002"]), ("301003", 1, ["001003"])], "sequences of one")
    good([("D00002", 2, ["B00002", "B00003"]), ("D07001", 3, ["D00002", "R01002", "B12101"])], "letters for the first digit", None)
    good([C_, A, B_], "sequences out of order")
    for lines, what in (
            (dfile([("300002", 3, ["000002", "000003"])]), "fewer members than declared, at the end"), (dfile([("300002", 3, ["000002", "000003"]), B_]), "fewer members than declared"),
            (dfile([("300002", 1, ["000002", "000003"])]), "more members than declared, at the end"), (dfile([("300002", 2, ["000002", "000003", "000004"]), B_]), "more members than declared"),
            (dfile([("300002", 0, ["000002"])]), "no members declared"), ([], "no lines"), ([dcont("001001")] + dfile([A]), "a member before the first sequence"),
            (dfile([A]) + [text.lit("xx 001001  1 001001\n")], "a line that is neither"), (dfile([A]) + [text.lit("          0010010\n")], "a member out of its column"),
            ([text.lit(" 300002  1\n")], "a short line"), (dfile([A]) + [text.lit("\n")], "an empty line"), (dfile([A, B_]) + [dcont("001001")[:16] + text.lit("\n")], "a member cut short")):
        bad(lines, what)
    I, ps = run(dfile([A]), True)
    n = 0
    for p in ps:
        if "nofile" in p.st.objs:
            n += 1
            rep.check(p.end == "throw" and "error_system" in p.what, "malformed tables are rejected", where, "a file that cannot be opened is not reported: %s" % (p.what or p.end))
    if not n:
        raise ToolError("the D table file is not opened with fopen")


def order(rep, mod):
    """entries are sorted by code"""
    for f in mod.find(r"^wreport::.*'lambda[0-9]*'\(.*Entry const&, .*Entry const&\)::operator\(\)\(", one=False):
        if len(f.args) not in (2, 3):
            continue
        a, b = [mk("arg", 64, k, f.args[k].get("n") or "arg%d" % k) for k in (len(f.args) - 2, len(f.args) - 1)]
        for x, y in ((5, 5), (5, 6), (6, 5), (0, 65535), (65535, 0), (49409, 49408), (49408, 49409), (255, 256), (256, 255)):
            I = Interp(mod, f, hooks=[], unroll=4)

            def init(I, st):
                I.store(st, a, C(x, 16), 2)
                I.store(st, b, C(y, 16), 2)
            for p in I.run(init=init):
                rep.check(p.end == "ret" and isc(p.ret) and bool(uval(p.ret) & 1) == (x < y), "codes are found", f.where, "%s is put %s %s" % (nm_(x), "after" if x < y else "before", nm_(y)))


def caches(rep, mod):
    """a file is loaded once; one that cannot be loaded leaves nothing behind"""
    rule = "tables are loaded once"
    mod = load([r"[>*&] std::map<", r"^bool std::operator(==|!=|<|>)<char"])
    NODE, END, SLOT = obj("cached entry"), obj("end of the cache"), obj("slot of the cache")
    CACHED, OTHER, WRONG = obj("cached table"), obj("entry of another file"), obj("table of another file")
    for pat in (r"^wreport::Vartable::load_bufr\(std::filesystem", r"^wreport::Vartable::load_crex\(std::filesystem", r"^wreport::DTable::load_bufr\(std", r"^wreport::DTable::load_crex\(std"):
        fs = mod.find(pat, one=False)
        fn = fs[0] if fs else mod.find(pat)
        path = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
        dt = "DTable" in pat

        def key(st, k):
            while ("copy of", k) in st.objs:
                k = st.objs[("copy of", k)]
            return k is path

        def copy(I, st, i, a):
            st.objs[("copy of", a[0])] = a[1]
            return True

        def find(I, st, i, a):
            good = key(st, a[1])
            def yes(I, s):
                s.objs["found"] = good
                return NODE

            def no(I, s):
                s.objs["found"] = None
                return END
            return ("fork", [yes, no])

        def bound(I, st, i, a):
            # the entry, one after where it would be, or none
            good = key(st, a[1])
            upper = "upper" in (i.d.get("fd") or "")

            def yes(I, s):
                s.objs["found"] = good
                return NODE

            def after(I, s):
                s.objs["found"] = None
                return OTHER

            def no(I, s):
                s.objs["found"] = None
                return END
            return ("fork", [after, no] if upper else [yes, after, no])

        def compared(I, st, i, a):
            # the key of an entry with the one asked for
            fd = i.d.get("fd") or ""
            m = re.search(r"operator(==|!=|<|>)", fd)
            side = [next((n for n in (NODE, OTHER) if a[k] is add(n, C(32, 64))), None) for k in (0, 1)]
            for k in (0, 1):
                if side[k] is not None and key(st, a[1 - k]):
                    same = side[k] is NODE
                    v = {"==": same, "!=": not same, "<": not same and k == 1, ">": not same and k == 0}[m.group(1)]
                    return C(v, 1)
            return NotImplemented

        def count(I, st, i, a):
            good = key(st, a[1])
            def yes(I, s):
                s.objs["found"] = good
                return C(1, 64)

            def no(I, s):
                s.objs["found"] = None
                return C(0, 64)
            return ("fork", [yes, no])

        def slot(I, st, i, a):
            if not key(st, a[1]):
                st.objs["wrong key"] = i.loc
            st.objs["slot"] = True
            return SLOT

        def ctor(I, st, i, a):
            st.objs["built"] = st.objs.get("built", ()) + ((a[0], key(st, a[1]), "slot" in st.objs),)
            return True

        def insert(I, st, i, a):
            # insert(pair), emplace(key, value), emplace(pair)
            hint = "_hint" in (i.d.get("fd") or "")
            if hint:
                a = [a[0]] + list(a[2:])
            if len(a) not in (2, 3):
                raise ToolError("cached in another way at %s" % i.loc)
            val = I.load(st, a[2] if len(a) == 3 else add(a[1], C(32, 64)), "ptr", 8)
            if not key(st, a[1]):
                st.objs["wrong key"] = i.loc
            I.store(st, SLOT, val, 8)
            I.store(st, add(NODE, C(64, 64)), val, 8)
            if hint:
                return NODE
            return mk("insertvalue", "agg", mk("insertvalue", "agg", mk("undef", "agg"), NODE, (0,)), C(1, 8), (1,))
        M_ = r"std::map<.*>::"
        I = M(mod, fn, hooks=[(M_ + r"map\(\)", lambda I, st, i, a: True), (M_ + r"find\(", find), (M_ + r"(lower|upper)_bound\(", bound), (r"operator(==|!=|<|>)(<.*>)?\(std::__cxx11::basic_string|operator(==|!=|<|>)\(std::filesystem", compared), (M_ + r"count\(", count), (M_ + r"c?end\(\)", lambda I, st, i, a: END), (M_ + r"(operator\[\]|at)\(", slot),
                               (M_ + r"(insert|emplace|try_emplace|insert_or_assign|emplace_hint)", insert), (r"::(BufrVartable|CrexVartable|DTableBase)::\w+\(", ctor),
                               (r"^std::__cxx11::basic_string<.*>::basic_string\(std::__cxx11::basic_string<.*(const&|&&)\)$|path::path<|path::path\(std::filesystem|path::operator std::|path::string\(\)", copy), (r"~basic_string|path::~path", lambda I, st, i, a: True)],
              unroll=5, fork_exits=True)
        I.ptr |= {NODE, END, SLOT, CACHED, OTHER, WRONG}

        def init(I, st):
            for x in (NODE, END, SLOT, CACHED, OTHER, WRONG):
                st.assume(mk("eq0", 1, x), False)
            st.assume(mk("eq0", 1, sub(NODE, END)), False)
            st.assume(mk("eq0", 1, sub(OTHER, END)), False)
            I.store(st, add(OTHER, C(64, 64)), WRONG, 8)
            I.store(st, add(NODE, C(64, 64)), CACHED, 8)
            I.store(st, SLOT, CACHED, 8)
        n = [0, 0]
        for p in I.run(init=init):
            st = p.st
            if p.end != "ret":
                continue
            if "found" not in st.objs:
                raise ToolError("cache not looked up in %s" % fn.where)
            b = st.objs.get("built", ())
            if st.objs["found"] is not None:
                n[0] += 1
                rep.check(st.objs["found"] and not b and p.ret is CACHED, rule, fn.where, "a table already loaded is not returned")
            else:
                n[1] += 1
                if p.ret is WRONG:
                    rep.bad(rule, fn.where, "a table loaded from another file is returned")
                    continue
                rep.check("wrong key" not in st.objs, rule, fn.where, "the table is cached under another name at %s" % st.objs.get("wrong key"))
                if rep.check(len(b) == 1, rule, fn.where, "the table is built %d times" % len(b)):
                    rep.check(b[0][1], rule, fn.where, "another file is loaded")
                    rep.check(not b[0][2], rule, fn.where, "a slot of the cache is made before the table is loaded: if loading fails, an empty slot is found later")
                    rep.check(p.ret is b[0][0] and I.load(st, SLOT, "ptr", 8) is b[0][0], rule, fn.where, "the table that was loaded is not the one cached and returned")
        rep.check(n[0] > 0 and n[1] > 0, rule, fn.where, "no trace with a table that is %s" % ("cached" if not n[0] else "not cached"))


def run(rep):
    mod = load()
    for r, n in (("BUFR B entries are the lines of the file", 500), ("CREX B entries are the lines of the file", 300), ("D entries are the lines of the file", 8), ("malformed tables are rejected", 25),
                 ("table files are closed", 100), ("codes are found", 100), ("altered definitions", 500), ("iteration", 10), ("tables are loaded once", 8), (c13_made.RULE, 200)):
        rep.rule(r, n)
    order(rep, mod)
    btable(rep, mod, "BufrVartable")
    btable(rep, mod, "CrexVartable")
    dtable(rep, mod)
    run_lookup(rep, mod)
    alterations(rep, mod)
    iterate(rep, mod)
    caches(rep, mod)
    c13_made.made_up(rep)
    rep.explanation = ("the constructors of the tables are interpreted abstractly on files whose lines hold symbolic text and digits, and the entries they leave are compared with the lines; the lookups are interpreted "
                       "for a symbolic code on tables of several sizes, and altered lookups for symbolic definitions and requests on chains of 0 to 2 alterations; requests for definitions made on demand are interpreted in every order of two")
    rep.assumptions += ["files of 0 to 3 lines (lines are treated alike); sorted() of entries sorts them by code"]
