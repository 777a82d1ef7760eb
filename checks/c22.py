"""C22: what the BUFR decoder reads from a data section is, item by item, what the encoder wrote, and every variable and attribute comes back in its place."""
from wra.absint import *
from wra import dsec, vobj
from wra.dsec import Section, Mismatch, Val
from wra.dds import F, name
from wra.build import ToolError
from checks import c10
from checks.c23 import Ref, Err, TYPES, UNITS, B12, B11, B13, B20, STR, CODE, B33, FACT

L = F(0, 12, 200)
SIG = F(0, 31, 21)


class Layout(Ref):
    """the variables a program describes"""

    def __init__(self, m, sub, brefs=None, **k):
        self.m, self.sub, self.vars, self.brefs, self.at = m, sub, [], brefs or {}, {}
        self.ctag = 0
        Ref.__init__(self, **k)

    def term(self, d):
        if d[0] == "unknown":
            return mk("unknown", 64, C(d[1], 16), C(d[2], 32))
        _, c, s, w, r = d
        i = self.m.info(c)
        if s == 0 and w == ("+", 0) and r == 1:
            return i
        sc, ln, rf = (self.m.inf(i, n) for n in ("scale", "bit_len", "bit_ref"))
        if c in self.brefs and r != "new":
            rf = C(self.brefs[c], 32)
        ref = C(self.newref(c), 32) if r == "new" else scale(rf, r)
        return mk("altered", 64, C(c, 16), add(sc, C(s, 32)), add(ln, C(w[1], 32)) if isinstance(w, tuple) else C(w, 32), ref)

    def newref(self, c):
        return self.want[c]

    def emit(self, leaf, *a):
        n = len(self.vars)
        val = mk("value", 64, self.sub, n)
        if leaf == "define_variable":
            self.add(a[0][1], self.term(a[0]), "?", val)
        elif leaf == "define_variable_with_associated_field":
            self.add(a[0][1], self.term(a[0]), "?", val)
            self.at.setdefault(n, []).append(("af", a[1]))
        elif leaf == "define_delayed_replication_factor":
            self.add(a[0][1], self.term(a[0]), "i", C(self.factors[0], 32))
        elif leaf == "define_associated_field_significance":
            self.add(SIG, self.m.info(SIG), "i", C(self.sigv, 32))
        elif leaf == "define_raw_character_data":
            self.add(a[0], ("chardef", a[0], a[0] & 255), "raw", val)
        elif leaf == "define_bitmap":
            self.add(self.ctag, ("bitmapdef", self.ctag, len(self.present[0])), "bm", self.present[0])
        elif leaf == "define_attribute":
            self.at.setdefault(a[1], []).append(("attr", self.term(a[0]), a[0][1]))
        elif leaf == "define_substituted_value":
            v = self.vars[a[0]]
            self.at.setdefault(a[0], []).append(("attr", v[1], v[0]))

    def c(self, c, x, y, ops):
        if x in (22, 23) and y == 0:
            self.ctag = c
        Ref.c(self, c, x, y, ops)

    def add(self, code, info, kind, v):
        self.vars.append((code, info, kind, v))
        self.values.append(code)


class Runner:
    def __init__(self, rep, R):
        self.rep, self.R = rep, R
        self.mod = dsec.load()
        self.s = Section(self.mod)
        self.enc = self.mod.find(r"^wreport::BufrBulletin::encode").where
        self.dec = self.mod.find(r"^wreport::bufr::Decoder::decode_data\(").where

    def go(self, rule, prog, nsub=1, attrs=True, known=None, brefs=None, want=None, fits=True, sigv=1, **k):
        s, rep, R = self.s, self.rep, self.R[rule]
        text = " ".join(name(c) for c in prog)
        ex = {n: k[n] for n in ("factors", "present") if k.get(n)}
        if brefs:
            ex["reference"] = want or brefs
        if not attrs:
            ex["attributes"] = "none"
        if nsub > 1:
            ex["subsets"] = nsub
        if ex:
            text += " " + str(ex)
        kn = known if known is not None else {x for x in prog if x < 1 << 14} | {x for l in (k.get("dtable") or {}).values() for x in l}
        lay = []
        for j in range(nsub):
            kk = dict(k)
            for n in ("factors", "present"):
                if k.get(n) and isinstance(k[n][0], (list, tuple)):
                    kk[n] = k[n][j]
            l = Layout(s, j, brefs=brefs, known=kn, values=[], **{n: kk[n] for n in kk if n != "sigv"})
            l.want, l.sigv = want or {}, sigv
            l.run(prog)
            lay.append(l)
        s.params(dtable=k.get("dtable"), types=TYPES, units=UNITS, widths=k.get("widths"), attrs=attrs, known=kn, brefs=brefs)

        def mkvar(v):
            code, info, kind, x = v

            def f(I, st):
                i = s.special(I, st, *info) if isinstance(info, tuple) else info
                st.assume(mk("eq0", 1, i), False)
                if i.k in ("info", "altered"):
                    s.known_info(I, st, i)
                return Val(i, kind, x)
            return f
        try:
            I, ps = s.encode(prog, [[mkvar(v) for v in l.vars] for l in lay])
        except Mismatch as m:
            return rep.check(False, R, m.where, "%s: the encoder: %s" % (text, m.text))
        outs = {}
        for p in ps:
            if p.end == "throw":
                if not fits:
                    rep.ok(R, text + ", rejected")
                    continue
                return rep.check(False, R, p.ins.loc, "%s: a valid subset is not encoded" % text)
            if p.end != "ret":
                raise ToolError("%s: trace ends with %s at %s" % (text, p.end, p.ins.loc))
            if any(e.kind == "icall" for e in p.ev):
                raise ToolError("%s: unresolved call at %s" % (text, next(e for e in p.ev if e.kind == "icall").ins.loc))
            it = s.items_of(p)
            outs[tuple(map(tuple, it))] = p
        if not fits:
            if outs:
                rep.check(False, R, self.enc, "%s: encoded, it does not fit" % text)
            return
        if not outs:
            raise ToolError("no trace for %s" % text)
        for its, p in outs.items():
            if len(its) != nsub:
                return rep.check(False, R, self.enc, "%s: %d subsets are encoded instead of %d" % (text, len(its), nsub))
            try:
                I, qs = s.decode(prog, nsub, [x for l in its for x in l])
            except Mismatch as m:
                return rep.check(False, R, m.where, "%s: the decoder %s" % (text, m.text))
            for q in qs:
                if q.end == "throw":
                    return rep.check(False, R, q.ins.loc, "%s: the decoder rejects what was encoded" % text)
                if q.end != "ret":
                    raise ToolError("%s: trace ends with %s at %s" % (text, q.end, q.ins.loc))
                if any(e.kind == "icall" for e in q.ev):
                    raise ToolError("%s: unresolved call at %s" % (text, next(e for e in q.ev if e.kind == "icall").ins.loc))
                if not self.compare(R, text, lay, q, its, attrs):
                    return False
        rep.ok(R, text)

    def compare(self, R, text, lay, q, its, attrs):
        s, rep = self.s, self.rep
        n = sum(len(l) for l in its)
        if q.st.objs.get(("pos",), (0, 0)) != (n, 0):
            return rep.check(False, R, self.dec, "%s: %d items are written, reading stops at %s" % (text, n, q.st.objs.get(("pos",))))
        for j, l in enumerate(lay):
            got = s.stored(q.st, j)
            if len(got) != len(l.vars):
                return rep.check(False, R, self.dec, "%s: %d variables are encoded, %d come back" % (text, len(l.vars), len(got)))
            for k, (g, v) in enumerate(zip(got, l.vars)):
                code, info, kind, x = v
                d = (mk(info[0], 64, C(info[1], 16), C(info[2], 32)) if isinstance(info, tuple) else info)
                if s.defn(g.info) != s.defn(d):
                    return rep.check(False, R, self.dec, "%s: variable %d comes back as %s instead of %s" % (text, k, s.defn(g.info), s.defn(d)))
                if kind == "raw":
                    same = g.kind in ("s", "c")
                else:
                    same = g.kind == kind and g.v == x
                if not same:
                    return rep.check(False, R, self.dec, "%s: variable %d has the value of another" % (text, k), key=None)
                want = []
                if attrs and kind == "?":  # (the model gives the others none)
                    for a in l.at.get(k, ()):
                        if a[0] == "af":
                            want.append(("af", (mk("afvalue", 32, x), C(a[1], 32), C(l.sigv, 32))))
                        else:
                            t = mk("attribute of", 64, x, C(a[2], 16))
                            want.append((s.defn(a[1]), t))
                have = [(("af", y.v) if y.kind == "af" else (s.defn(y.info), y.v)) for y in g.attrs if y.kind != "af" or attrs]
                if have != want:
                    return rep.check(False, R, self.dec, "%s: variable %d comes back with attributes %s instead of %s" % (text, k, have, want))
        return True


def run(rep):
    rep.explanation = (
        "The BUFR encoder and decoder are abstractly interpreted from their entry points, through the descriptor interpreter, on descriptor programs and subsets of variables with "
        "symbolic values: the encoder gives the sequence of items written to the message, which is given to the decoder; every read must ask for the item that comes next, with the same "
        "definition or width, and at the end every variable must be back in its subset and position, with its value, definition and attributes.")
    R = {"seq": "variables come back in order, in their subset", "rep": "replicated variables and their factors come back", "op": "variables with changed definitions are written and read with the same definition",
         "refval": "new reference values are read back as written, or rejected when they do not fit", "af": "associated fields come back as attributes of their variable", "raw": "character data and local descriptors are as wide when read as when written",
         "bm": "attributes and substituted values come back on the variable they were taken from", "pair": "the same with operators combined"}
    for k, n in (("seq", 4), ("rep", 20), ("op", 100), ("refval", 100), ("af", 40), ("raw", 40), ("bm", 20), ("pair", 200)):
        rep.rule(R[k], n)
    r = Runner(rep, R)
    go = r.go
    for n in (1, 2, 3):
        go("seq", [B12, B11, STR, CODE, B13], nsub=n)
        go("seq", [B12], nsub=n)
        go("seq", [F(3, 1, 1), STR], nsub=n, dtable={F(3, 1, 1): [B12, B11]})
    for x in (1, 2, 5):
        for y in (1, 2, 3, 7):
            go("rep", [F(1, x, y)] + [F(0, 12, 1 + j) for j in range(x)] + [B13])
    for f in FACT:
        for n in range(4):
            go("rep", [F(1, 2, 0), f, B12, STR, B13], factors=[n])
    go("rep", [F(1, 2, 0), F(0, 31, 1), B12, STR, B13], factors=[[1], [3], [0]], nsub=3)
    for a in range(3):
        for b in range(3):
            go("rep", [F(1, 5, 0), F(0, 31, 1), B12, F(1, 1, 0), F(0, 31, 2), B11, B13, B20], factors=[a] + [b] * a)
    for x in (1, 2, 8):
        for y in list(range(0, 256, 5)) + [127, 128, 129, 255]:
            go("op", [B12, F(2, x, y), B12, STR, CODE, B11, F(2, x, 0), B12, STR])
    for y in range(10):
        go("op", [B12, F(2, 7, y), B12, B11, CODE, STR, F(2, 7, 0), B12])
    # reference values
    for bits in range(1, 33):
        for v in sorted({0, 1, -1, 5, -5, (1 << (bits - 1)) - 1, -((1 << (bits - 1)) - 1)} | ({1 << (bits - 1), -(1 << (bits - 1))} if bits < 32 else set())):
            if not -(1 << 31) < v < 1 << 31:
                continue
            fits = abs(v) < 1 << (bits - 1)
            go("refval", [F(2, 3, bits), B12, F(2, 3, 255), B12, B11], brefs={B12: 77}, want={B12: v}, fits=fits)
    # associated fields
    for bits in range(1, 33):
        go("af", [B12, F(2, 4, bits), SIG, B11, STR, F(2, 4, 0), B13])
        go("af", [B12, F(2, 4, bits), SIG, B11, STR, F(2, 4, 0), B13], attrs=False)
    for sg in (1, 2, 3, 6, 7, 8, 62, 63):
        go("af", [F(2, 4, 4), SIG, B11, F(2, 4, 0), B13], sigv=sg, nsub=2)
    c10.afattr(rep, R)
    go("af", [F(2, 4, 4), SIG, F(1, 1, 0), F(0, 31, 1), B11, F(2, 4, 0), B13], factors=[2])
    # character data and local descriptors
    for y in range(1, 64):
        go("raw", [B12, F(2, 5, y), B11])
        go("raw", [B12, F(2, 6, y), L, B11], known={B12, B11})
    for y in (8, 9):
        go("raw", [F(2, 6, y), L, B11, L], widths={L: 9})
    # bitmaps
    V = [B12, B11, B13]
    bits = [F(0, 31, 31)]
    for at in (True, False):
        for bm in ("+++", "+-+", "--+", "-+-", "++-", "+--", "-++", "---"):
            n = bm.count("+")
            go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * (n + 1), present=[bm], attrs=at)
            go("bm", V + [F(2, 22, 0), F(1, 1, 0), F(0, 31, 1)] + bits + [F(1, 1, n), B33] if n else V + [F(2, 22, 0), F(1, 1, 0), F(0, 31, 1)] + bits, present=[bm], factors=[3], attrs=at)
            go("bm", [B20] + V + [F(2, 23, 0), F(1, 1, 3)] + bits + [F(2, 23, 255)] * n + [B12], present=[bm], attrs=at)
            go("bm", V + [F(2, 22, 0), F(2, 36, 0), F(1, 1, 3)] + bits + [B33] * n + [F(2, 23, 0), F(2, 37, 0)] + [F(2, 23, 255)] * n + [F(2, 37, 255), B33, B12], present=[bm], attrs=at)
            go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [F(0, 1, 31)] + [B33] * n + [F(2, 23, 0), F(1, 1, 3)] + bits + [F(2, 23, 255)] * n, present=[bm, bm], attrs=at)
        go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [B33] * 2, present=[["+-+"], ["-++"]], attrs=at, nsub=2)
        go("bm", [F(2, 1, 130), B12, F(2, 1, 0), STR, F(2, 23, 0), F(1, 1, 2)] + bits + [F(2, 23, 255)] * 2, present=["++"], attrs=at)
        go("bm", V + [F(2, 22, 0), F(1, 1, 3)] + bits + [F(2, 1, 130), B33, F(2, 1, 0), B33, B33], present=["+++"], attrs=at)
    # pairs
    D = {F(3, 1, 1): [B12, B11]}
    frag = [[B12], [STR], [CODE], [F(2, 1, 130)], [F(2, 1, 0)], [F(2, 2, 129)], [F(2, 7, 1)], [F(2, 7, 0)], [F(2, 8, 4)], [F(2, 4, 3), SIG, B12, F(2, 4, 0)], [F(2, 5, 3)], [F(2, 6, 9), L],
            [F(1, 1, 2), B13], [F(1, 2, 0), F(0, 31, 1), B12, STR], [F(3, 1, 1)], [F(2, 22, 0), F(1, 1, 2)] + bits + [B33], [F(2, 23, 0), F(1, 1, 2)] + bits + [F(2, 23, 255)], [F(2, 22, 0), F(2, 37, 0), B33]]
    for a in frag:
        for b in frag:
            for c in (frag if rep.tier == "thorough" else [[]]):
                nb = sum(1 for x in (a, b, c) if F(0, 31, 31) in x)
                try:
                    go("pair", [B20, F(0, 20, 1)] + a + b + c + [B12, B11, STR, CODE], present=["+-"] * nb, factors=[2] * 3, dtable=D, known={B12, B11, B13, STR, CODE, B33})
                except Err:
                    continue
    rep.count("abstract runs", r.s.runs)
    rep.assumptions.append("the variables of a subset carry the definitions their descriptors give them; fields, numbers, text and attributes as bits are C03, C09, C10")
