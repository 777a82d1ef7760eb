"""C24: CREX bulletins survive encoding and decoding."""
from wra.absint import *
from wra import crexsec, text
from wra.crexsec import Crex, Val, F, name, Fixed
from wra.seq import obj
from wra.build import ToolError

N1, N2, N3 = F(0, 12, 101), F(0, 11, 1), F(0, 20, 3)
S1, S2 = F(0, 1, 15), F(0, 1, 19)
FACT = [F(0, 31, 0), F(0, 31, 1), F(0, 31, 2), F(0, 31, 11), F(0, 31, 12)]
IMPL = F(0, 31, 12)
HEAD = ["master_table_number", "edition_number", "master_table_version_number", "data_category", "data_subcategory"]


def expand(prog, dtable, factors):
    """the variables a program describes: codes, or ("factor", code, count)"""
    out = []
    prog = list(prog)
    while prog:
        c = prog.pop(0)
        f, x, y = c >> 14, c >> 8 & 63, c & 255
        if f == 0:
            out.append(c)
        elif f == 3:
            out += expand(dtable[c], dtable, factors)
        elif f == 1:
            n = y
            if n == 0:
                fc = prog.pop(0) if prog and prog[0] >> 14 == 0 and prog[0] >> 8 & 63 == 31 else IMPL
                n = factors.pop(0)
                out.append(("factor", fc, n))
            body, prog = prog[:x], prog[x:]
            for _ in range(n):
                out += expand(body, dtable, factors)
    return out


def tokens(bs):
    """groups of characters between blanks; markers made of + on their own"""
    res, cur = [], []
    for b in list(bs) + [C(32, 8)]:
        if text.known_isspace(b):
            if cur:
                res.append(tuple(cur))
            cur = []
        else:
            cur.append(b)
    return res


class Runner:
    def __init__(self, rep, R):
        self.rep, self.R = rep, R
        self.mod = crexsec.load()
        self.c = Crex(self.mod)
        self.enc = self.mod.find(r"^wreport::CrexBulletin::encode(\[|\()").where
        self.dec = self.mod.find(r"^wreport::CrexBulletin::decode\(").where

    def value(self, k, j, code, spec):
        """spec: ("n", lo, hi), ("t", length), "missing" or a count"""
        c = self.c

        def f(I, st):
            i = c.info(code)
            st.assume(mk("eq0", 1, i), False)
            c.known_info(I, st, i)
            if spec == "missing":
                return Val(i)
            if isinstance(spec, int):
                return Val(i, "i", C(spec, 32))
            if spec[0] == "n":
                t = mk("arg", 32, -1, "value %d.%d" % (k, j))
                lo, hi = spec[1:]
                st.setiv(t, slo=lo, shi=hi, **({"ulo": lo, "uhi": hi} if lo >= 0 else {}))
                return Val(i, "i", t)
            return Val(i, "c", tuple(text.tchar(st, "text %d.%d" % (k, j), x, spec[1]) for x in range(spec[1])))
        return f

    def go(self, rule, prog, subsets=1, head=None, check=False, types=None, lens=None, dtable=None, factors=(), values=None, entries=("decode",), fits=True, supp=False, sep=None):
        """values: code -> spec"""
        c, rep, R = self.c, self.rep, self.R[rule]
        types, lens = types or {}, lens or {}
        lens = {**{N1: 4, N2: 3, N3: 5, S1: 9, S2: 5, F(0, 31, 12): 5, F(0, 31, 11): 3, F(0, 31, 0): 1, F(0, 31, 1): 3, F(0, 31, 2): 5}, **lens}
        types = {**{S1: "String", S2: "String", N3: "Decimal"}, **types}
        what = " ".join(name(x) for x in prog)
        ex = {k: v for k, v in (("factors", factors), ("values", {name(k): v for k, v in (values or {}).items()}), ("subsets", subsets if subsets > 1 else None), ("check digits", check), ("header", head)) if v}
        if ex:
            what += " " + str(ex)
        c.params(types, lens, dtable)
        hd = {n: (0, 99) for n in HEAD[:3]}
        hd.update(data_category=(0, 255), data_subcategory=(255, 255))
        hd.update(head or {})

        def fld(n, lo, hi):
            def f(I, st):
                if lo == hi:
                    return C(lo, 8)
                t = mk("arg", 8, -1, n)
                st.setiv(t, ulo=lo, uhi=hi, **({"slo": lo, "shi": hi} if hi < 128 else {"slo": lo - 256, "shi": hi - 256} if lo > 127 else {}))
                return t
            return f
        H = {n: fld(n, *r) for n, r in hd.items()}
        H["has_check_digit"] = 1 if check else 0
        lay = []
        for k in range(subsets):
            fs = list(factors[k] if factors and isinstance(factors[0], (list, tuple)) else factors)
            lay.append(expand(prog, dtable or {}, fs))
        spec = {}
        for k, l in enumerate(lay):
            for j, x in enumerate(l):
                if isinstance(x, tuple):
                    spec[k, j] = x[2]
                else:
                    d = ("t", 3) if types.get(x) == "String" else ("n", 0, 10 ** min(lens.get(x, 3), 9) - 1)
                    s = (values or {}).get(x, d)
                    spec[k, j] = s[(j + k) % len(s)] if isinstance(s, list) else s
        try:
            I, ps = c.encode(H, prog, [[self.value(k, j, x[1] if isinstance(x, tuple) else x, spec[k, j]) for j, x in enumerate(l)] for k, l in enumerate(lay)])
        except Fixed as m:
            return rep.check(False, R, m.where, "%s: %s" % (what, m.text))
        done = False
        for p, bs in ps:
            if p.end == "throw":
                if not fits:
                    done = True
                    continue
                return rep.check(False, R, p.ins.loc, "%s: a valid bulletin is not encoded" % what)
            if p.end != "ret":
                raise ToolError("%s: trace ends with %s at %s" % (what, p.end, p.ins.loc))
            if not fits:
                return rep.check(False, R, self.enc, "%s: encoded, it does not fit" % what)
            if bs is None:
                raise ToolError("%s: the text of the message is not known" % what)
            done = True
            if not self.layout(R, what, p.st, I, bs, prog, lay, spec, H, hd, check, types, lens):
                return False
            if supp:
                # an optional section
                e7 = [k for k in range(len(bs) - 3) if [uval(b) if isc(b) else 0 for b in bs[k:k + 4]] == [55] * 4][-1]
                bs = bs[:e7] + text.lit("SUPP OPTIONAL 12 + DATA++\r\r\n") + bs[e7:]
            if sep is not None:
                # groups may be separated by any white space
                out = []
                for b in bs:
                    sp = isc(b) and chr(uval(b)).isspace()
                    if not sp:
                        out.append(b)
                    elif out[-1] is not None:
                        out.append(None)
                bs = [y for b in out for y in ([b] if b is not None else text.lit(sep))]
                what += " separated by %r" % sep
            for e in entries:
                if not self.back(R, what, p.st, bs, prog, lay, spec, hd, check, e):
                    return False
        if not done:
            raise ToolError("no trace for %s" % what)
        rep.ok(R, what)

    def val(self, st, k, j, code, spec):
        return self.value(k, j, code, spec)(None, st)

    def layout(self, R, what, st, I, bs, prog, lay, spec, H, hd, check, types, lens):
        """the text is the one the CREX regulations ask for"""
        def num(t, n):
            if isc(t):
                return text.lit(str(uval(t)).rjust(n, "0"))
            return [mk("digit", 8, I.resize(st, "zext", t, 64), k, n) for k in range(n)]
        hv = {n: f(I, st) for n, f in H.items() if callable(f)}
        want = [text.lit("CREX++"), text.lit("T") + num(hv["master_table_number"], 2) + num(hv["edition_number"], 2) + num(hv["master_table_version_number"], 2)]
        want.append(text.lit("A") + num(hv["data_category"], 3) + ([] if hd["data_subcategory"] == (255, 255) else num(hv["data_subcategory"], 3)))
        want += [text.lit(name(x)) for x in self.sent(prog)] + ([text.lit("E")] if check else []) + [text.lit("++")]
        d = 1
        for k, l in enumerate(lay):
            if k:
                want.append(text.lit("+"))
            for j, x in enumerate(l):
                code = x[1] if isinstance(x, tuple) else x
                s = spec[k, j]
                v = self.val(st, k, j, code, s) if I is None else self.value(k, j, code, s)(I, st)
                g = text.lit(str(d % 10)) if check else []
                d += 1
                n = lens.get(code, 3)
                if s == "missing":
                    g = g + text.lit("/" * n)
                elif isinstance(s, int):
                    g = g + text.lit("%04d" % s)
                elif s[0] == "t":
                    g = g + list(v.v)
                elif s[1] < 0:
                    g = g + text.lit("-") + [mk("digit", 8, scale(I.resize(st, "sext", v.v, 64), -1), q, n) for q in range(n)]
                else:
                    g = g + [mk("digit", 8, I.resize(st, "sext", v.v, 64), q, n) for q in range(n)]
                want.append(g)
        want += [text.lit("++"), text.lit("7777")]
        show = lambda ts: " ".join("".join(chr(uval(b)) if isc(b) else "#" for b in t) for t in ts)
        # markers may be glued to the group before them
        flat = lambda ts: self.glue(ts)
        if flat(tokens(bs)) != flat([tuple(w) for w in want]):
            return self.rep.check(False, R, self.enc, "%s: written as [%s] instead of [%s]" % (what, show(tokens(bs)), show(want)))
        return True

    def glue(self, ts):
        out = []
        for t in ts:
            if out and all(isc(b) and uval(b) == 43 for b in t):
                out[-1] = out[-1] + tuple(t)
            else:
                out.append(tuple(t))
        return out

    def sent(self, prog):
        imp = lambda x: x >> 14 == 0 and x >> 8 & 63 == 31 and x & 255 < 3
        res = []
        for k, x in enumerate(prog):
            if imp(x):
                continue
            if x >> 14 == 1:
                n = x >> 8 & 63
                g = k + 1 + (1 if x & 255 == 0 and k + 1 < len(prog) and prog[k + 1] >> 14 == 0 and prog[k + 1] >> 8 & 63 == 31 else 0)
                x -= sum(1 for y in prog[g:g + n] if imp(y)) << 8
            res.append(x)
        return res

    def back(self, R, what, st0, bs, prog, lay, spec, hd, check, entry):
        c, rep = self.c, self.rep
        I, qs = c.decode(st0, bs, entry)
        ok = False
        for q in qs:
            if q.end == "throw":
                return rep.check(False, R, q.ins.loc, "%s: %s rejects what was encoded" % (what, entry))
            if q.end != "ret":
                raise ToolError("%s: trace ends with %s at %s" % (what, q.end, q.ins.loc))
            ok = True
            for n in HEAD:
                v = c.header(I, q.st, n)
                w = mk("arg", 8, -1, n) if hd[n][0] != hd[n][1] else C(hd[n][0], 8)
                if v is not w:
                    return rep.check(False, R, self.dec, "%s: %s: %s comes back as %s" % (what, entry, n, v))
            v = c.header(I, q.st, "has_check_digit")
            if not isc(v) or (uval(v) & 1) != int(check):
                return rep.check(False, R, self.dec, "%s: %s: has_check_digit comes back as %s" % (what, entry, v))
            codes = c.codes(I, q.st)
            if codes != [C(x, 16) for x in self.sent(prog)]:
                return rep.check(False, R, self.dec, "%s: %s: the descriptors come back as %s" % (what, entry, [name(uval(x)) if isc(x) else str(x) for x in codes]))
            if entry == "decode_header":
                continue
            got = c.stored(q.st)
            if len(got) != len(lay):
                return rep.check(False, R, self.dec, "%s: %d subsets come back instead of %d" % (what, len(got), len(lay)))
            for k, (g, l) in enumerate(zip(got, lay)):
                if len(g) != len(l):
                    return rep.check(False, R, self.dec, "%s: %d variables come back instead of %d" % (what, len(g), len(l)))
                for j, (v, x) in enumerate(zip(g, l)):
                    code = x[1] if isinstance(x, tuple) else x
                    if isinstance(x, tuple) and code & 255 < 3:
                        code = IMPL
                    w = self.value(k, j, code, spec[k, j])(I, q.st)
                    if v.info is not w.info:
                        return rep.check(False, R, self.dec, "%s: variable %d comes back as %s" % (what, j, v.info))
                    if v.kind != w.kind or v.v != w.v and v.v is not w.v:
                        return rep.check(False, R, self.dec, "%s: variable %d comes back as %s instead of %s" % (what, j, v, w))
        if not ok:
            raise ToolError("no decoding of %s" % what)
        return True


def run(rep):
    rep.explanation = (
        "CrexBulletin::encode is abstractly interpreted, from its entry point to the text it returns, on bulletins with symbolic header fields and values; the text, whose characters are known "
        "or are the digits of a symbolic number or the characters of a symbolic text, must be the one the CREX regulations ask for, and is given to CrexBulletin::decode, which must come back with the same fields, "
        "descriptors, subsets and values.")
    R = {"head": "header fields are written in their place and come back", "num": "numbers of every width come back with their sign", "text": "text of every width comes back", "miss": "missing values are slashes and come back missing",
         "seq": "variables come back in order, in their subset", "rep": "replicated variables and their factors come back", "check": "check digits count the values and are accepted back", "pair": "the same combined",
         "sep": "groups separated by any white space are the same message", "big": "a replication factor of more than 4 digits is not written"}
    for k, n in (("sep", 10), ("big", 3), ("head", 6), ("num", 27), ("text", 60), ("miss", 20), ("seq", 6), ("rep", 30), ("check", 20), ("pair", 60)):
        rep.rule(R[k], n)
    r = Runner(rep, R)
    go = r.go
    E3 = ("decode", "decode_header", "decode_verbose")
    for lo, hi in ((0, 0), (0, 127), (128, 255), (0, 255)):
        go("head", [N1], head={"data_category": (lo, hi)}, entries=E3)
    for lo, hi in ((0, 0), (1, 99), (100, 127), (128, 254), (0, 254)):
        go("head", [N1], head={"data_subcategory": (lo, hi)}, entries=E3)
        go("head", [N1, S1], head={"data_subcategory": (lo, hi), "data_category": (255, 255)}, entries=E3, check=True)
    for ty in ("Integer", "Decimal"):
        for n in range(1, 10):
            m = 10 ** n - 1
            for lo, hi in ((0, m), (-m, -1), (m, m), (-m, -m), (0, 0)):
                go("num", [N1, N2], types={N1: ty}, lens={N1: n}, values={N1: ("n", lo, hi)})
        go("num", [N1, N2], types={N1: ty}, lens={N1: 10}, values={N1: ("n", 0, (1 << 31) - 1)})
        go("num", [N1, N2], types={N1: ty}, lens={N1: 10}, values={N1: ("n", -(1 << 31) + 1, -1)})
    for n in list(range(1, 21)) + [32, 64, 254, 255, 256, 300]:
        for m in sorted({1, 2, n // 2, n - 1, n} - {0}):
            if m <= n:
                go("text", [N1, S1, N2], lens={S1: n}, values={S1: ("t", m)})
    for chk in (False, True):
        for n in (1, 2, 3, 5, 10):
            for c in (N1, S1):
                go("miss", [N2, c, N2], lens={c: n}, values={c: "missing"}, check=chk)
                go("miss", [c], lens={c: n}, values={c: "missing"}, check=chk)
    D = {F(3, 1, 1): [N1, N2], F(3, 1, 2): [F(3, 1, 1), S1]}
    for chk in (False, True):
        rule = "check" if chk else "seq"
        for n in (1, 2, 3):
            go(rule, [N1, S1, N3, N2], subsets=n, check=chk)
            go(rule, [N1], subsets=n, check=chk)
            go(rule, [F(3, 1, 2), N3], subsets=n, dtable=D, check=chk)
        go(rule, [N1] * 25, check=chk)
        go(rule, [N1] * 12, subsets=3, check=chk, values={N1: ["missing", ("n", 0, 9999), ("n", -9999, -1)]})
        rule = "check" if chk else "rep"
        for x in (1, 2, 3):
            for y in (1, 2, 5):
                go(rule, [F(1, x, y)] + [N1, S1, N2][:x] + [N3], check=chk)
        for f in FACT:
            for n in (0, 1, 3):
                go(rule, [F(1, 2, 0), f, N1, S1, N3], factors=[n], check=chk)
                go(rule, [N3, F(1, 2, 0), f, N1, S1], factors=[n], check=chk)
        go(rule, [F(1, 1, 0), N1], factors=[[0], [2], [0]], subsets=3, check=chk)
        go(rule, [F(1, 1, 0), F(0, 31, 1), N1], factors=[[1], [0]], subsets=2, check=chk)
        go(rule, [F(1, 4, 0), F(0, 31, 1), N1, F(1, 1, 0), F(0, 31, 2), S1, N2], factors=[2, 1, 2], check=chk)
    for n in (1, 2):
        go("seq", [N1, S1], subsets=n, supp=True, entries=E3)
    for sp in (" ", "  ", "\n", "\r\n", "\r\r\n", "\t", " \r\n "):
        for chk in (False, True):
            go("sep", [N1, F(1, 2, 2), N2, N1, F(1, 1, 0), F(0, 31, 1), N3], subsets=2, factors=[1], head={"data_subcategory": (0, 254)}, values={N1: ["missing", ("n", -9999, -1)]}, check=chk, sep=sp, entries=E3)
    for f in FACT:
        for n in (10000, 10001, 65535):
            go("big", [F(1, 1, 0), f, F(3, 1, 3), N1], factors=[n], dtable={F(3, 1, 3): []}, fits=False)
        go("rep", [F(1, 1, 0), f, F(3, 1, 3), N1], factors=[999], dtable={F(3, 1, 3): []})
    frag = [[N1], [S1], [N3], [F(1, 2, 2), N1, S1], [F(1, 1, 0), F(0, 31, 1), N2], [F(3, 1, 1)], [F(1, 1, 0), F(0, 31, 2), F(3, 1, 1)], [S2]]
    vals = {N1: [("n", -9999, -1), "missing", ("n", 0, 9999)], S1: [("t", 1), ("t", 9), "missing"], N3: ("n", -99999, -1), S2: "missing"}
    for a in frag:
        for b in frag:
            for c in (frag if rep.tier == "thorough" else [[]]):
                for chk in ((False, True) if rep.tier == "thorough" else (bool((len(a) + len(b)) % 2),)):
                    go("pair", a + b + c, values=vals, factors=[2, 0, 1, 2], dtable=D, check=chk, subsets=1)
    rep.count("abstract runs", r.c.runs)
    rep.assumptions.append("variables carry the definitions their descriptors give them, and numbers fit the width of their definition (C06); text does not begin with a blank or a slash")
    rep.assumptions.append("the C library formats and parses decimal numbers as specified")
