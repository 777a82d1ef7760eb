"""C23: data descriptors are expanded in order, with replications, sequences and operators applied as the regulations say."""
from wra.absint import *
from wra import dds
from wra.dds import F, name, Machine
from wra.build import ToolError

B12, B11, B13, B01, B33, B02, B20 = F(0, 12, 101), F(0, 11, 1), F(0, 13, 11), F(0, 1, 15), F(0, 33, 7), F(0, 2, 1), F(0, 20, 3)
STR, CODE, FLAG = B01, B02, F(0, 2, 2)
TYPES = {STR: "String"}
UNITS = {CODE: "CODE TABLE", FLAG: "FLAG TABLE", STR: "CCITTIA5"}
FACT = [F(0, 31, y) for y in (0, 1, 2, 11, 12)]
IMPLICIT = F(0, 31, 12)


class Err(Exception):
    pass


class Ref:
    """what the regulations say a list of descriptors stands for"""

    def __init__(self, dtable=None, factors=(), present=(), values=(), widths=None, types=None, units=None, known=None):
        self.dtable, self.factors, self.present, self.values, self.widths = dtable or {}, list(factors), list(present), list(values), widths or {}
        self.types, self.units, self.known = types or TYPES, units or UNITS, known
        self.out = []
        self.width = self.scale = self.incr = self.slen = self.refbits = self.af = 0
        self.sig = None
        self.refs = set()
        self.pending = False
        self.cur = self.last = None

    def text(self, c):
        return self.types.get(c) == "String"

    def numeric(self, c):
        return not self.text(c) and not self.units.get(c, "").endswith("TABLE")

    def info(self, c):
        s = w = 0
        r, ab = 1, None
        if self.numeric(c):
            s, w = self.scale, self.width
            if self.incr:
                s, w, r = s + self.incr, w + (10 * self.incr + 2) // 3, 10 ** self.incr
        elif self.text(c) and self.slen:
            ab = 8 * self.slen
        return ("def", c, s, ab if ab is not None else ("+", w), "new" if c in self.refs else r)

    def plain(self, c):
        return ("def", c, 0, ("+", 0), 1)

    def emit(self, *e):
        self.out.append(e)

    def next(self):
        p = self.cur.pop(0)
        if not self.cur:
            self.last, self.cur = self.deflt, None
        return p

    def bitmap(self, bm):
        pos, s = [], len(self.values)
        if not bm or not s:
            raise Err("no bitmap")
        for b in reversed(bm):
            s -= 1
            while s >= 0 and self.values[s] >> 14:
                s -= 1
            if s < 0:
                raise Err("bitmap before the start")
            if b == "+":
                pos.insert(0, s)
        self.deflt = list(pos)
        if pos:
            self.cur = pos
        else:
            self.last, self.cur = [], None

    def run(self, ops):
        ops = list(ops)
        while ops:
            c = ops.pop(0)
            f, x, y = c >> 14, c >> 8 & 63, c & 255
            if f == 0:
                self.b(c)
            elif f == 1:
                fac = None
                if y == 0:
                    fac = IMPLICIT
                    if ops and ops[0] >> 8 == 31:
                        fac = ops.pop(0)
                if len(ops) < x:
                    raise Err("replication beyond the end")
                body, ops = ops[:x], ops[x:]
                if self.pending:
                    if x != 1 or body[0] != F(0, 31, 31):
                        raise Err("not a bitmap")
                    n = y
                    if y == 0:
                        self.emit("define_bitmap_delayed_replication_factor", self.plain(fac))
                        n = self.factors.pop(0)
                    self.emit("define_bitmap", n)
                    self.bitmap(self.present.pop(0))
                    self.pending = False
                else:
                    n = y
                    if y == 0:
                        self.emit("define_delayed_replication_factor", self.plain(fac))
                        n = self.factors.pop(0)
                    for k in range(n):
                        self.run(body)
            elif f == 3:
                self.run(self.dtable[c])
            else:
                self.c(c, x, y, ops)
        return self.out

    def b(self, c):
        if self.refbits:
            self.emit("define_c03_refval_override", c, self.refbits)
            self.refs.add(c)
        elif c >> 8 == 33 and self.cur:
            i = self.info(c)
            self.emit("define_attribute", i, self.next())
        elif self.af:
            self.emit("define_variable_with_associated_field", self.info(c), self.af)
        else:
            self.emit("define_variable", self.info(c))

    def c(self, c, x, y, ops):
        if x == 1:
            self.width = y - 128 if y else 0
        elif x == 2:
            self.scale = y - 128 if y else 0
        elif x == 3:
            self.refbits = 0 if y == 255 else y
            if y == 0:
                self.refs = set()
        elif x == 4:
            if y and (self.af or y > 32 or not ops or ops[0] != F(0, 31, 21)):
                raise Err("associated field")
            if y:
                ops.pop(0)
                self.emit("define_associated_field_significance", self.plain(F(0, 31, 21)))
            self.af = y
        elif x == 5:
            self.emit("define_raw_character_data", c)
        elif x == 6:
            if not ops:
                raise Err("nothing after")
            d = ops.pop(0)
            if d in self.known and self.widths.get(d) == y:
                self.emit("define_variable", self.info(d))
            else:
                self.emit("define_variable", ("unknown", d, y))
        elif x == 7:
            if y > 9:
                raise Err("too much")
            self.incr = y
        elif x == 8:
            self.slen = y
        elif x == 22 and y == 0 or x == 23 and y == 0:
            self.pending = True
        elif x == 23 and y == 255:
            if not self.cur:
                raise Err("no bitmap")
            self.emit("define_substituted_value", self.next())
        elif x == 37 and y == 0:
            self.cur, self.last = list(self.last) if self.last else None, None
            if self.cur:
                self.deflt = list(self.cur)
            self.pending = False
        elif x == 37 and y == 255:
            self.last = None
        elif x in (22, 23, 37):
            raise Err("not supported")
        elif x == 36:
            pass
        else:
            raise ToolError("operator not modelled: %s" % name(c))


class Runner:
    def __init__(self, rep, R):
        self.rep, self.R = rep, R
        self.mod = dds.load()
        self.m = Machine(self.mod)
        self.where = self.mod.find(r"^wreport::bulletin::Interpreter::run\(").where

    def norm(self, e):
        """a leaf event as the reference writes it"""
        m = self.m
        leaf, af, bits = e.snap
        if leaf == "define_c03_refval_override":
            return (leaf, uval(e.a[0]), bits)
        if leaf == "define_raw_character_data":
            return (leaf, uval(e.a[0]))
        if leaf in ("define_substituted_value", "define_bitmap"):
            return (leaf, e.a[0])
        r = (leaf, e.a[0]) + tuple(e.a[1:])
        if leaf == "define_variable_with_associated_field":
            r += (af[0],)
        return r

    def expected(self, e):
        """the same, as terms"""
        def t(x):
            if isinstance(x, tuple) and x[0] == "def":
                _, c, s, w, r = x
                i = self.m.info(c)
                sc, ln, rf = (self.m.inf(i, n) for n in ("scale", "bit_len", "bit_ref"))
                return (c, add(sc, C(s, sc.w)), add(ln, C(w[1], ln.w)) if isinstance(w, tuple) else C(w, 32),
                        mk("refval", 32, C(c, 16)) if r == "new" else scale(rf, r))
            if isinstance(x, tuple) and x[0] == "unknown":
                return ("unknown",) + x[1:]
            return x
        return tuple(t(x) for x in e)

    def got(self, e):
        def t(x):
            if isinstance(x, T):
                if x.k == "info" and isc(x.a[0]):
                    return (uval(x.a[0]),) + tuple(self.m.inf(x, n) for n in ("scale", "bit_len", "bit_ref"))
                if x.k == "altered" and isc(x.a[0]):
                    return (uval(x.a[0]),) + x.a[1:]
                if x.k == "unknown" and isc(x.a[0]) and isc(x.a[1]):
                    return ("unknown", uval(x.a[0]), uval(x.a[1]))
                if isc(x):
                    return uval(x)
            return x
        return tuple(t(x) for x in self.norm(e))

    def go(self, rule, prog, what=None, **k):
        kn = k.pop("known", None)
        ref = Ref(known=kn if kn is not None else set(x for x in prog if x < 1 << 14), **k)
        err = None
        try:
            ref.run(prog)
        except Err as e:
            err = e
        want = [self.expected(e) for e in ref.out]
        widths = k.get("widths")
        I, ps = self.m.run(prog, dtable=k.get("dtable"), factors=k.get("factors", ()), types={c: TYPES.get(c, "Integer") for c in set(prog) | {y for l in (k.get("dtable") or {}).values() for y in l} if c < 1 << 14}, units=UNITS,
                           present=k.get("present", ()), values=k.get("values", ()), widths=widths, known=kn)
        text = " ".join(name(c) for c in prog) + (", " + what if what else "")
        extra = {n: k[n] for n in ("factors", "present") if k.get(n)}
        if extra:
            text += " " + str(extra)
        ok = True
        if not ps:
            raise ToolError("no trace for %s" % text)
        for p in ps:
            if p.end == "loop":
                raise ToolError("loop not followed for %s" % text)
            evs = [e for e in p.ev if e.kind == "leaf"]
            g = [self.got(e) for e in evs]
            if err is None and p.end != "ret":
                ok = self.rep.check(False, self.R[rule], p.ins.loc, "%s: rejected, it is valid" % text)
            elif err is not None and p.end == "ret":
                ok = self.rep.check(False, self.R[rule], self.where, "%s: accepted, it is not valid (%s)" % (text, err))
            elif err is not None:
                w = p.what or ""
                if "wreport" not in w and "error" not in w:
                    ok = self.rep.check(False, self.R[rule], p.ins.loc, "%s: rejected with something else than an error of the library: %s" % (text, w))
            elif g != want:
                k_ = next((n for n, (a, b) in enumerate(zip(g, want)) if a != b), min(len(g), len(want)))
                wh = evs[k_].ins.loc if k_ < len(evs) else self.where
                ok = self.rep.check(False, self.R[rule], wh, "%s: step %d is %s, should be %s" % (text, k_ + 1, g[k_] if k_ < len(g) else "missing", want[k_] if k_ < len(want) else "nothing"))
            bad = [e for e in p.ev if e.kind in ("icall",)]
            if bad:
                raise ToolError("unresolved call in %s at %s" % (text, bad[0].ins.loc))
        if ok:
            self.rep.ok(self.R[rule], text)


def run(rep):
    rep.explanation = (
        "The data descriptor interpreter that every encoder, decoder and checker is built on is abstractly interpreted on descriptor programs, with the Table B entries symbolic, down to the "
        "operations that consume or produce one item; the sequence of these operations, with the definition (scale, width, reference) each is given, is compared with the one "
        "of an independent expansion written from the WMO regulations. Programs enumerate every operand of every operator, group sizes, counts, nesting, sequences, and all "
        "ordered pairs of operator fragments; the bitmap constructor is run on every short bitmap and value layout.")
    R = {"seq": "descriptors are taken in order, each once", "rep": "a replication repeats its descriptors as many times as it says", "delayed": "a delayed replication takes its factor, explicit or implied",
         "d": "a sequence descriptor stands for its expansion", "op": "an operator changes the definition of the elements it applies to, until cancelled",
         "kind": "only numbers change width and scale, only text changes length", "refval": "new reference values are collected and then used, until cancelled",
         "af": "associated fields are announced by their significance and precede every value", "raw": "character data and local descriptors have their stated width",
         "bm": "values after a bitmap go to the items present, in order", "mk": "a bitmap refers to the values just before it, and to nothing before the first", "pair": "operators combine, in any order",
         "err": "what cannot be expanded is an error"}
    for k, n in (("seq", 3), ("rep", 60), ("delayed", 20), ("d", 4), ("op", 700), ("kind", 30), ("refval", 30), ("af", 30), ("raw", 200), ("bm", 8), ("mk", 100), ("pair", 200), ("err", 10)):
        rep.rule(R[k], n)
    r = Runner(rep, R)
    go = r.go
    # order
    go("seq", [B12])
    go("seq", [B12, B11, B13, B12, B12])
    go("seq", [B33, B12, F(0, 31, 1), F(0, 31, 31)])
    # replication
    for x in range(1, 64):
        body = [F(0, 12, 1 + k) for k in range(x)]
        go("rep", [F(1, x, 2)] + body + [B13])
    for y in list(range(1, 41)) + [100, 127, 128, 200, 254, 255]:
        go("rep", [F(1, 1, y), B12, B13])
    go("rep", [F(1, 4, 2), B12, F(1, 2, 3), B11, B13, B12, B20])
    go("rep", [F(1, 3, 2), F(1, 2, 2), F(0, 12, 1), F(1, 1, 3), B11, B12])
    go("rep", [F(1, 0, 3), B12])
    for y in range(0, 4):
        for fc in FACT:
            go("delayed", [F(1, 2, 0), fc, B12, B11, B13], factors=[y])
        go("delayed", [F(1, 2, 0), B12, B11, B13], factors=[y])
        go("delayed", [F(1, 1, 0), F(3, 1, 1), B13], factors=[y], dtable={F(3, 1, 1): [B11, B12]})
    for y in (15, 16, 127, 128, 255, 256, 300):
        go("delayed", [F(1, 1, 0), F(0, 31, 2), B12, B13], factors=[y])
    for a in range(0, 3):
        for b in range(0, 3):
            go("delayed", [F(1, 5, 0), F(0, 31, 1), B12, F(1, 1, 0), F(0, 31, 2), B11, B13, B20], factors=[a] + [b] * a)
    go("delayed", [F(1, 1, 3), F(0, 31, 1), B12])
    # sequences
    D = {F(3, 1, 1): [B12, B11], F(3, 1, 2): [B13, F(3, 1, 1), B12], F(3, 1, 3): [F(1, 2, 2), B11, F(3, 1, 1), F(2, 1, 130)], F(3, 63, 255): [], F(3, 0, 4): [F(2, 1, 0)]}
    go("d", [F(3, 1, 1), B20], dtable=D)
    go("d", [F(3, 1, 2), B20, F(3, 1, 1)], dtable=D)
    go("d", [F(3, 1, 3), B20, F(3, 1, 1), F(3, 0, 4), B12], dtable=D)
    go("d", [F(3, 63, 255), B20], dtable=D)
    go("d", [F(1, 1, 2), F(3, 1, 2), B20], dtable=D)
    go("d", [F(2, 1, 131), F(3, 1, 2), F(2, 1, 0), B20], dtable=D)
    # operators, every operand
    for x in (1, 2, 8):
        for y in range(256):
            go("op", [B12, F(2, x, y), B12, STR, F(1, 1, 2), B11, F(2, x, 0), B12, STR])
    for y in range(10):
        go("op", [B12, F(2, 7, y), B12, B11, F(2, 7, 0), B12])
    for y in range(10, 256):
        go("err", [B12, F(2, 7, y), B12], "increment that cannot be represented")
    for a in (0, 3, 9):
        go("op", [F(2, 1, 130), F(2, 2, 126), F(2, 7, a), B12, F(2, 2, 0), B12, F(2, 1, 0), B12, F(2, 7, 0), B12])
    for el in (CODE, FLAG, STR, B12):
        for opn in ([F(2, 1, 130)], [F(2, 1, 1)], [F(2, 2, 130)], [F(2, 2, 100)], [F(2, 7, 2)], [F(2, 8, 5)], [F(2, 1, 130), F(2, 8, 5)], [F(2, 2, 129), F(2, 7, 1)]):
            go("kind", opn + [el, el])
    for bits in list(range(1, 33)):
        go("refval", [F(2, 3, bits), B12, B11, F(2, 3, 255), B12, B13, B11, B12])
    go("refval", [F(2, 3, 10), B12, F(2, 3, 255), B12, F(2, 3, 0), B12, B11])
    go("refval", [F(2, 3, 10), B12, F(2, 3, 255), F(2, 3, 12), B11, F(2, 3, 255), B12, B11, B13])
    go("refval", [F(2, 3, 10), B12, F(2, 3, 255), F(2, 1, 130), B12, F(2, 2, 130), B12, B13, F(2, 1, 0), F(2, 2, 0), B12])
    go("refval", [F(2, 3, 10), B12, F(2, 3, 255), F(1, 2, 2), B12, B11])
    for el in (CODE, FLAG, STR):
        go("refval", [F(2, 3, 10), el, F(2, 3, 255), el, B12, F(2, 3, 0), el])
    # associated fields
    S = F(0, 31, 21)
    for y in range(1, 256):
        go("af" if y <= 32 else "err", [B12, F(2, 4, y), S, B11, STR, F(2, 4, 0), B12])
    go("af", [F(2, 4, 6), S, B12, F(2, 4, 0), F(2, 4, 2), S, B12])
    go("af", [F(2, 4, 6), S, F(1, 1, 0), F(0, 31, 1), B12, F(2, 4, 0), B12], factors=[2])
    go("err", [F(2, 4, 6), B12])
    go("err", [F(2, 4, 6)])
    go("err", [F(2, 4, 6), S, B12, F(2, 4, 6), S])
    # character data, local descriptors
    for y in range(256):
        go("raw", [B12, F(2, 5, y), B11])
    L = F(0, 12, 200)
    for y in range(1, 256):
        go("raw", [B12, F(2, 6, y), L, B11], known={B12, B11})
    for w in (1, 7, 8, 31, 32):
        for y in range(1, 40):
            go("raw", [F(2, 6, y), L, B11, L], widths={L: w})
    go("err", [F(2, 6, 8)])
    # errors
    go("err", [F(1, 2, 2), B12])
    go("err", [F(1, 1, 0), F(0, 31, 1)])
    go("err", [F(1, 1, 0)])
    go("err", [F(1, 3, 0), F(0, 31, 1), B12, B11])
    for y in (1, 2, 127, 128, 254, 255):
        go("err", [F(2, 22, y)])
    for y in (1, 2, 127, 128, 254):
        go("err", [F(2, 23, y)])
        go("err", [F(2, 37, y)])
    go("err", [F(2, 23, 255)])
    # bitmaps
    V = [B12, B11, B13]
    bits = [F(0, 31, 31)]
    for bm in ("+++", "+-+", "--+", "-+-", "++-", "+--", "-++"):
        n = bm.count("+")
        go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * (n + 1), present=[bm], values=V)
        go("bm", V + [F(2, 22, 0), F(1, 1, 0), F(0, 31, 1)] + bits + [F(1, 1, n), B33], present=[bm], values=V, factors=[3])
        go("bm", V + [F(2, 23, 0), F(1, 1, 3)] + bits + [F(2, 23, 255)] * n + [B33], present=[bm], values=V)
        go("bm", V + [F(2, 23, 0), F(1, 1, 3)] + bits + [F(2, 23, 255)] * n + [F(2, 22, 0), F(2, 37, 0)] + [B33] * (n + 1), present=[bm], values=V)
        go("bm", V + [F(2, 22, 0), F(2, 36, 0), F(1, 1, 3)] + bits + [B33] * n + [F(2, 23, 0), F(2, 37, 0)] + [F(2, 23, 255)] * n + [F(2, 37, 255), B33, B12], present=[bm], values=V)
        go("err", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * n + [F(2, 23, 255)], present=[bm], values=V)
        go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * n + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * n + [B33], present=[bm, bm[::-1]], values=V)
        # a bitmap that is used again is complete: what is replicated after it is data
        go("bm", V + [F(2, 22, 0), F(2, 36, 0), F(1, 1, 3)] + bits + [B33] * n + [F(2, 22, 0), F(2, 37, 0), F(1, 1, n), B33, B12], present=[bm], values=V)
        go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * n + [F(2, 23, 0), F(2, 37, 0), F(1, 1, 0), F(0, 31, 1), F(2, 23, 255), B12], present=[bm], values=V, factors=[n])
        # what is not class 33 stays a variable, and operators apply to attributes too
        go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [F(0, 1, 31), F(2, 1, 130), B33, F(0, 31, 1), F(2, 1, 0)] + [B33] * n, present=[bm], values=V)
    go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33, B12], present=["---"], values=V)
    go("err", V + [F(2, 23, 0), F(1, 1, 3)] + bits + [F(2, 23, 255)], present=["---"], values=V)
    go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [F(2, 22, 0), F(2, 37, 0), B33, B12], present=["---"], values=V)
    go("err", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [F(2, 23, 0), F(2, 37, 0), F(2, 23, 255)], present=["---"], values=V)
    go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * 3 + [F(2, 37, 255), F(2, 22, 0), F(2, 37, 0), B33], present=["+++"], values=V)
    go("err", V + [F(2, 22, 0), F(1, 2, 3)] + bits + [B33])
    go("err", V + [F(2, 22, 0), F(1, 1, 3), B12])
    go("err", V + [F(2, 22, 0), F(1, 1, 0), B12], factors=[3])
    # the values a bitmap refers to
    import itertools
    for n in range(1, 5):
        for lay in itertools.product((0, 2), repeat=n):
            vals = [B12 if f == 0 else F(2, 22, 0) for f in lay]
            for m in range(1, n + 2):
                for bm in {"+" * m, "+" + "-" * (m - 1), "-" * (m - 1) + "+"}:
                    go("mk", [F(2, 22, 0), F(1, 1, m)] + bits + [B33] * bm.count("+"), present=[bm], values=vals, what=" ".join(name(v) for v in vals))
    go("mk", [F(2, 22, 0), F(1, 1, 1)] + bits, present=["+"], values=[])
    go("mk", [F(2, 22, 0), F(1, 1, 0)] + bits, present=[""], values=[B12], factors=[0])
    dangling(r)
    # all ordered pairs of fragments
    frag = [[B12], [STR], [CODE], [F(2, 1, 130)], [F(2, 1, 0)], [F(2, 2, 129)], [F(2, 2, 0)], [F(2, 7, 1)], [F(2, 7, 0)], [F(2, 8, 4)], [F(2, 8, 0)], [F(2, 3, 9), B11, F(2, 3, 255)], [F(2, 3, 0)],
            [F(2, 4, 3), S, B12, F(2, 4, 0)], [F(2, 5, 3)], [F(2, 6, 9), L], [F(1, 1, 2), B13], [F(1, 2, 0), F(0, 31, 1), B12, STR], [F(3, 1, 1)], [F(2, 22, 0), F(1, 1, 2)] + bits + [B33, B33], [F(2, 37, 0), B33]]
    deep = rep.tier == "thorough"
    for a in frag:
        for b in frag:
            for c in (frag if deep else [[]]):
                if any(x[0] >> 8 == 0x80 | 7 and x[0] & 255 for x in (a, b, c) if x) and any(x and x[0] == F(2, 3, 9) for x in (a, b, c)):
                    continue        # the regulations do not say how these combine
                n = sum(1 for x in (a, b, c) if x and x[0] == F(2, 22, 0))
                go("pair", a + b + c + [B12, B11, STR, CODE, B33], present=["+-"] * n, values=V, factors=[2] * 3, dtable=D, known={B12, B11, B13, STR, CODE, B33})
    rep.count("abstract runs", r.m.runs)
    rep.assumptions.append("std::vector, std::map and std::stack behave as specified; Table B lookups return the entry of the code asked for (C12)")


def dangling(r):
    """a bitmap that cannot be defined leaves no pointer to a destroyed one"""
    m = r.m
    V = [B12, B11, B13]
    prog = V + [F(2, 22, 0), F(1, 1, 3), F(0, 31, 31), B33, F(2, 22, 0), F(1, 1, 3), F(0, 31, 31)]
    m_, what = r.m, "a bitmap defined while another is in use fails"
    I, ps = m.run(prog, types={c: "Integer" for c in V + [B33]}, present=["+++", "++++++"], values=V)
    for p in ps:
        if p.end != "throw":
            r.rep.check(False, r.R["mk"], r.where, "a bitmap longer than the values before it is accepted")
            continue
        cur = [I.load(p.st, add(m.at("bitmaps"), C(m.bo[n][0], 64)), "ptr", 8) for n in ("current", "last") if n in m.bo]
        freed = {e.a[0] for e in p.ev if e.kind == "call" and (e.snap or "").startswith("operator delete")}
        r.rep.check(not any(c in freed for c in cur), r.R["mk"], r.mod.find(r"^wreport::bulletin::Bitmaps::define\(wreport::Var const&, wreport::Subset const&, ").where,
                    "a bitmap definition that fails leaves a pointer to the destroyed previous bitmap, destroyed again later", "a failed bitmap definition leaves no dangling pointer")
