"""C20: every variable owns its value and attributes alone; copies are complete and independent; moves leave a valid unset source."""
from wra import codec
from wra.absint import *
from wra.var import *
from wra.varrun import *
from wra.build import ToolError

DELA = re.compile(r"^operator delete")


def run(rep):
    rep.explanation = (
        "Every member of Var is abstractly interpreted for every combination of types of the variables involved. The heap blocks each trace allocates, frees, "
        "writes and leaves reachable are tracked: at the end every text buffer has the size its definition asks for and exactly one owner, everything "
        "replaced is freed once, sources of copies are untouched, copies have the same definition, value and attributes, and moved-from variables are unset and empty.")
    mod = codec.load([r"^wreport::Var::"], noinline=NOIN + [COPIES])
    M = VarModel(mod)
    R = {"size": "the buffer of a text or binary variable has the size of its definition", "own": "every buffer and attribute list has exactly one owner or is freed once",
         "bound": "text and binary values are written and read inside their buffers", "src": "copying does not change the source",
         "copy": "a copy has the same definition, value and attributes", "move": "a moved-from variable is unset and has no attributes",
         "null": "a set text or binary variable has a buffer", "dtor": "destroying a variable frees its buffer and its attributes"}
    for k, n in (("size", 20), ("own", 60), ("bound", 20), ("src", 20), ("copy", 12), ("move", 8), ("null", 20), ("dtor", 4)):
        rep.rule(R[k], n)
    n = 0
    for m in members(mod, M):
        if m.name in ("seta", "unseta", "setattrs", "clear_attrs"):
            continue    # attribute lists: see C08
        n += 1
        check_member(rep, R, mod, M, m)
    check_dtor(rep, R, mod, M)
    rep.count("members", n)


def check_dtor(rep, R, mod, M):
    m2 = codec.load([r"^wreport::Var::~Var"], noinline=codec.STRNO)
    f = m2.find(r"^wreport::Var::~Var")
    this = mk("arg", 64, 0, f.args[0]["n"] or "arg0")
    for ty in vartypes(M):
        def init(I, st):
            invariants(I, st, M, this)
            M.set_type(I, st, this, ty)
        I = Interp(m2, f, stable=stable_info(M))
        for p in I.run(init=init):
            if p.end != "ret":
                rep.bad(R["dtor"], f.where, "destructor of a %s variable ends with %s" % (ty, p.end))
                continue
            b = mk("ld", 64, M.field(this, "m_value"), 0)
            at = mk("ld", 64, M.field(this, "m_attrs"), 0)
            dl = [e.a[0] for e in p.ev if e.kind == "call" and DELA.search(e.snap or "")]
            nb = sum(1 for x in dl if x is b)
            na = sum(1 for x in dl if x is at)
            isnull = p.st.decide(mk("eq0", 1, b)) is True
            want = (0 if isnull else 1) if ty in TEXT else 0
            rep.check(nb == want or (isnull and ty in TEXT and nb <= 1), R["dtor"], f.where, "destroying a %s variable frees its buffer %d times" % (ty, nb), what=ty)
            anull = p.st.decide(mk("eq0", 1, at)) is True
            ndt = sum(1 for e in p.ev if e.kind == "call" and "Var::~Var" in (e.snap or "") and e.a[0] is at)
            rep.check(anull or (na == 1 and ndt == 1), R["dtor"], f.where, "destroying a %s variable frees its attributes %d times" % (ty, na), what=ty)


def check_member(rep, R, mod, M, m):
    own = [] if m.ctor and m.info is None else [m.this]
    vs = own + m.vars
    combos = [{}]
    for v in vs:
        combos = [c | {v: t} for c in combos for t in vartypes(M)]
    for types in combos:
        def init(I, st):
            for v, t in types.items():
                info = m.info if v is m.this else None
                invariants(I, st, M, v, info)
                M.set_type(I, st, v, t, info)
            for v in vs:
                # a set text variable has a buffer
                if types[v] in TEXT and not (v is m.this and m.ctor):
                    pass
        skip_attr = m.name in ("setattrs", "clear_attrs")
        I = Interp(mod, m.f, hooks=([] if skip_attr else h_attrs(M)) + h_dtor(M), max_paths=60000, icall_pure=True, stable=stable_info(M, m))
        for p in I.run(init=init):
            t = Trace(rep, R, M, m, I, p, types)
            if p.end == "loop":
                t.bounds({e.res: e.a[0] for e in p.ev if e.kind == "new"})
            elif p.end in ("ret", "throw"):
                t.check()


class Trace:
    def __init__(self, rep, R, M, m, I, p, types):
        self.rep, self.R, self.M, self.m, self.I, self.p, self.types, self.st = rep, R, M, m, I, p, types, p.st
        self.d = "%s, types %s" % (m.name, "/".join(types.values()))
        self.where = "%s (trace ends at %s)" % (m.where, p.ins.loc if p.ins else "?")

    def null(self, x):
        if isc(x):
            return x.a[0] == 0
        return self.st.decide(mk("eq0", 1, x)) is True

    def buf0(self, v):
        return mk("ld", 64, self.M.field(v, "m_value"), 0)

    def att0(self, v):
        return mk("ld", 64, self.M.field(v, "m_attrs"), 0)

    def info0(self, v):
        return self.m.info if v is self.m.this and self.m.ctor else self.M.info(v)

    def buf(self, v):
        return self.I.load(self.st, self.M.field(v, "m_value"), "ptr", 8)

    def info(self, v):
        return self.M.get(self.I, self.st, v, "m_info")

    def lenof(self, info):
        return self.M.inf(None, "len", info)

    def text(self, info):
        """can this be a text variable"""
        return bool(type_names(self.M, self.st, self.I, info) & TEXT)

    def surely_text(self, info):
        return type_names(self.M, self.st, self.I, info) <= TEXT

    def check(self):
        rep, R, M, m, I, p, st = self.rep, self.R, self.M, self.m, self.I, self.p, self.st
        unset0 = {}
        params = [m.this] + m.vars
        news = [e.res for e in p.ev if e.kind == "new"]
        nsz = {e.res: e.a[0] for e in p.ev if e.kind == "new"}
        dels = [e.a[0] for e in p.ev if e.kind == "call" and DELA.search(e.snap or "")]
        dtor = [e.a for e in p.ev if e.kind == "dtor"]
        vsize = sum(M.vo[max(M.vo, key=lambda n: M.vo[n][0])])
        newvars = [x for x in news if isc(nsz[x]) and nsz[x].a[0] == vsize and x not in dels]
        dead = [d[0] for d in dtor] + [x for x in dels]
        live = [v for v in params + newvars if v not in dead]
        if p.end == "throw" and m.ctor:
            live = [v for v in live if v is not m.this]
        freed = list(dels)
        for d in dtor:
            if self.text(d[3]):
                freed.append(d[1])
        # ---- shape of each variable at the end
        owners = {}
        for v in live:
            b, info = self.buf(v), self.info(v)
            if not self.text(info):
                continue
            if v not in params and info.k == "fresh":
                continue
            s = M.isset(I, st, v)
            b0 = None
            if self.null(b):
                if p.end == "ret" or v is m.this:
                    rep.check(s is not True, R["null"], self.where, "%s: %s is set and has no buffer" % (self.d, v), what=self.d)
                continue
            owners.setdefault(b, []).append(v)
            if b.k == "new":
                want = I.resize(st, "zext", add(self.lenof(info), C(1, 32)), 64)
                alt = add(I.resize(st, "zext", self.lenof(info), 64), C(1, 64))
                rep.check(nsz.get(b) is want or nsz.get(b) is alt or (b in nsz and st.decide(I.mkeq(st, nsz[b], alt)) is True), R["size"], self.where, "%s: the buffer of %s has size %s" % (self.d, v, nsz.get(b)), what=self.d)
            elif b.k == "ld":
                src = add(b.a[0], C(-M.vo["m_value"][0], 64))
                if src in self.types or src in params:
                    i0 = self.info0(src)
                    if i0 is None:
                        rep.bad(R["size"], self.where, "%s: the buffer of %s is not initialised" % (self.d, v))
                        continue
                    rep.check(i0 is info or st.decide(I.mkeq(st, i0, info)) is True, R["size"], self.where,
                              "%s: %s ends up with the buffer of %s and another definition" % (self.d, v, src), what=self.d)
            else:
                rep.bad(R["size"], self.where, "%s: %s has an unknown buffer %s" % (self.d, v, b))
        for b, vs in owners.items():
            rep.check(len(vs) == 1, R["own"], self.where, "%s: %s share one buffer" % (self.d, " and ".join(map(str, vs))), what=self.d)
        # ---- what becomes of each block
        blocks = [(v, self.buf0(v)) for v in params if not (v is m.this and m.ctor) and self.surely_text(self.info0(v))]
        for v, b in blocks:
            if self.null(b):
                continue
            n = len(owners.get(b, ())) + sum(1 for x in freed if x is b)
            # a variable that was not set may not have a buffer: then there is nothing to lose
            rep.check(n == 1, R["own"], self.where, "%s: the buffer of %s has %d owners or is freed %d times at the end" % (
                self.d, v, len(owners.get(b, ())), sum(1 for x in freed if x is b)), what=self.d)
        if p.end == "ret":
            for x in news:
                if x in newvars:
                    continue
                if any(I_tl(e) for e in p.ev if e.kind == "store" and e.a[1] is x):
                    continue
                n = len(owners.get(x, ())) + sum(1 for y in freed if y is x)
                if isc(nsz[x]) and x not in owners and n == 0:
                    # not a text buffer: library objects
                    continue
                rep.check(n == 1, R["own"], self.where, "%s: a new buffer has %d owners or is freed %d times" % (self.d, len(owners.get(x, ())), sum(1 for y in freed if y is x)), what=self.d)
        for x in set(freed):
            if self.null(x):
                continue
            rep.check(sum(1 for y in freed if y is x) == 1, R["own"], self.where, "%s: %s is freed twice" % (self.d, x), what=self.d)
        self.attrs(live, params, dtor, dels)
        self.bounds(nsz)
        self.copies()
        self.moves()

    def attrs(self, live, params, dtor, dels):
        rep, R, M, m, I, p, st = self.rep, self.R, self.M, self.m, self.I, self.p, self.st
        if m.name in ("seta", "unseta", "setattrs", "clear_attrs"):
            return      # lists are C08's
        for v in params:
            if v is m.this and m.ctor:
                continue
            a0 = self.att0(v)
            if self.null(a0):
                continue
            n = sum(1 for x in live if M.get(I, st, x, "m_attrs") is a0)
            f = sum(1 for e in p.ev if e.kind == "attrs" and e.a[-1] is a0) + sum(1 for d in dtor if d[2] is a0 or d[0] is a0)
            rep.check(n + f == 1, R["own"], self.where, "%s: the attributes of %s have %d owners and are freed %d times" % (self.d, v, n, f), what=self.d)

    def bounds(self, nsz):
        """accesses to buffers of variables"""
        rep, R, M, m, I, p, st = self.rep, self.R, self.M, self.m, self.I, self.p, self.st

        def cap(b):
            """bytes in the buffer"""
            if b in nsz:
                return [nsz[b]]
            if b.k == "ld" and split(b.a[0])[1] == M.vo["m_value"][0]:
                src = add(b.a[0], C(-M.vo["m_value"][0], 64))
                if src in self.types:
                    info = self.info0(src)
                    # binary definitions with the same number of bits have the same length
                    for o in self.types:
                        oi = self.info0(o)
                        if o is not src and self.types[o] == self.types[src] == "Binary" and st.decide(
                                I.mkeq(st, M.inf(None, "bit_len", info), M.inf(None, "bit_len", oi))) is True:
                            return [add(I.resize(st, "zext", self.lenof(i), 64), C(1, 64)) for i in (info, oi)]
                    return [add(I.resize(st, "zext", self.lenof(info), 64), C(1, 64))]
            return None

        strlens = {}
        for c in st.known:
            for x in atoms(c):
                if x.k == "call" and x.a[0] == "strlen":
                    strlens.setdefault(x.a[1][0], set()).add(x)

        def inside(off, n, b, cs):
            if any(fits(off, n, c) for c in cs):
                return True
            # text ends inside its buffer
            for x in strlens.get(b, ()):
                for y in (x, I.resize(st, "zext", I.resize(st, "trunc", x, 32), 64)):
                    if fits(off, n, add(y, C(1, 64))):
                        return True
            x = n
            while x.k in ("zext", "trunc"):
                x = x.a[0]
            return x.k == "call" and x.a[0] == "strlen" and x.a[1][0] is b and isc(off) and off.a[0] == 0

        def roots(a):
            k, at = aslin(a)
            return [(x, sub(a, x)) for x, c in at.items() if c == 1 and (x.k == "new" or (x.k == "ld" and x.w == 64))]

        def wide(t):
            """differences that do not wrap, taken apart"""
            k, at = aslin(t)
            r = C(k, t.w)
            for x, c in at.items():
                y = x
                if x.k == "zext" and x.a[0].k == "lin":
                    k2, at2 = aslin(x.a[0])
                    pos = [z for z, c2 in at2.items() if c2 == 1]
                    neg = [z for z, c2 in at2.items() if c2 == -1]
                    if k2 == 0 and len(at2) == 2 and len(pos) == len(neg) == 1 and st.decide(I.icmp(st, "ult", pos[0], neg[0])) is False:
                        y = sub(I.resize(st, "zext", pos[0], x.w), I.resize(st, "zext", neg[0], x.w))
                r = add(r, scale(y, c))
            return r

        def fits(off, n, c):
            """off + n <= c"""
            end = wide(add(off, n))
            d = sub(c, end)
            if isc(d):
                return d.a[0] >= 0
            if st.decide(I.icmp(st, "ult", c, end)) is False:
                return True
            if st.rng(d)[0] >= 0:
                return True
            (k1, a1), (k2, a2) = aslin(end), aslin(c)
            if len(a1) == len(a2) == 1:
                (x, c1), = a1.items()
                (y, c2), = a2.items()
                if c1 == c2 == 1 and x.k == y.k == "zext" and x.a[0].w == y.a[0].w:
                    x, y = x.a[0], y.a[0]
                    if k1 <= k2 + 1 and st.decide(I.icmp(st, "ult", x, y)) is True:
                        return True
                    if k1 <= k2 and st.decide(I.icmp(st, "ult", y, x)) is False:
                        return True
            return False

        for e in p.ev:
            acc = []
            if e.kind == "store":
                acc = [(e.a[0], C(1, 64), "written")]
            elif e.kind == "memcpy":
                acc = [(e.a[0], e.a[2], "written"), (e.a[1], e.a[2], "read")]
            elif e.kind == "memset":
                acc = [(e.a[0], e.a[2], "written")]
            elif e.kind == "call" and e.snap in ("strncpy", "stpncpy"):
                acc = [(e.a[0], e.a[2], "written")]
            elif e.kind == "call" and e.snap in ("strcpy", "strcat", "sprintf"):
                acc = [(e.a[0], None, "written")]
            elif e.kind == "call" and e.snap == "memcmp":
                acc = [(e.a[0], e.a[2], "read"), (e.a[1], e.a[2], "read")]
            for a, n, how in acc:
                for b, off in roots(a):
                    c = cap(b)
                    if c is None or (b in nsz and isc(nsz[b])):
                        continue
                    if n is None:
                        rep.bad(R["bound"], e.ins.loc, "%s: the buffer %s is %s without a limit" % (self.d, b, how))
                        continue
                    rep.check(inside(off, n, b, c), R["bound"], e.ins.loc, "%s: %s bytes at offset %s are %s in a buffer of %s" % (self.d, n, off, how, c[0]), what=self.d)

    def copies(self):
        rep, R, M, m, I, p, st = self.rep, self.R, self.M, self.m, self.I, self.p, self.st
        for v in m.vars:
            if v in m.moved:
                continue
            w = [e for e in p.ev if e.kind in ("store", "memcpy", "memset") and any(x is v or x is self.buf0(v) for x in lin_atoms(e.a[0]))]
            rep.check(not w, R["src"], w[0].ins.loc if w else self.where, "%s: the source %s is written" % (self.d, v), what=self.d)
        if p.end != "ret" or len(m.vars) != 1 or m.info is not None:
            return
        v = m.vars[0]
        if not (m.ctor or m.name == "operator="):
            return
        if st.decide(I.mkeq(st, m.this, v)) is True:
            return
        if not m.ctor and m.this is v:
            return
        self_assign = p.st.known.get(mk("eq0", 1, sub(m.this, v)))
        if self_assign:
            return
        rep.check(self.info(m.this) is M.info(v), R["copy"], self.where, "%s: the definition becomes %s" % (self.d, self.info(m.this)), what=self.d)
        s, s0 = M.isset(I, st, m.this), M.get(I, st, m.this, "m_isset")
        src = mk("ld", 8, M.field(v, "m_isset"), 0)
        srcset = st.decide(mk("trunc", 1, src))
        if srcset is None:
            srcset = st.decide(I.mkeq(st, src, C(0, 8)))
            srcset = None if srcset is None else not srcset
        ok = (s is srcset and s is not None) or src in atoms(s0) or s0 is src
        rep.check(ok, R["copy"], self.where, "%s: the variable is %s when the source is %s" % (self.d, setn(s), setn(srcset)), what=self.d)
        if s is not True:
            return
        b = self.buf(m.this)
        ty = self.types[v]
        if ty in TEXT:
            ok = b is self.buf0(v) if v in m.moved else False
            if not ok:
                ln = self.lenof(M.info(v))
                l64 = I.resize(st, "zext", ln, 64)
                full = {l64, add(l64, C(1, 64)), I.resize(st, "zext", add(ln, C(1, 32)), 64)}
                ok = any((e.kind == "memcpy" and e.a[0] is b and e.a[1] is self.buf0(v) and (e.a[2] in full if ty == "Binary" else e.a[2] in full - {l64} or e.a[2] is l64))
                         or (e.kind == "call" and e.snap in ("strcpy", "strncpy") and e.a[0] is b and e.a[1] is self.buf0(v) and ty == "String") for e in p.ev)
            rep.check(ok, R["copy"], self.where, "%s: the value is not that of the source" % self.d, what=self.d)
        else:
            i = M.ival(I, st, m.this)
            rep.check(i is mk("ld", 32, M.field(v, "m_value"), 0) or (i.k == "trunc" and i.a[0] is self.buf0(v)), R["copy"], self.where, "%s: the value becomes %s" % (self.d, i), what=self.d)
        a = M.get(I, st, m.this, "m_attrs")
        a0 = self.att0(v)
        if v in m.moved:
            ok = a is a0
        else:
            ok = st.objs.get(("copy of", a)) is a0 or (self.null(a) and self.null(a0)) or (a.k == "new" and any(
                e.kind == "call" and "Var::Var(wreport::Var const&)" in (e.snap or "") and e.a[0] is a and e.a[1] is a0 for e in p.ev))
        rep.check(ok, R["copy"], self.where, "%s: the attributes become %s" % (self.d, a), what=self.d)

    def moves(self):
        rep, R, M, m, I, p, st = self.rep, self.R, self.M, self.m, self.I, self.p, self.st
        for v in m.moved:
            if p.end != "ret" or st.known.get(mk("eq0", 1, sub(m.this, v))):
                continue
            s = M.isset(I, st, v)
            rep.check(s is False, R["move"], self.where, "%s: after moving, the source is %s" % (self.d, setn(s)), what=self.d)
            a = M.get(I, st, v, "m_attrs")
            rep.check(self.null(a), R["move"], self.where, "%s: after moving, the source has attributes %s" % (self.d, a), what=self.d)


def setn(s):
    return "set" if s else "unset" if s is False else "neither surely set nor unset"


def lin_atoms(a):
    if a.k == "lin":
        return [x for x, c in a.a[1]]
    return [a]


def I_tl(e):
    """kept in a (thread local) global"""
    return any(x.k == "glob" for x in atoms(e.a[0]))
