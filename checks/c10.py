"""C10: in BUFR data all ones and only all ones is a missing value; every other field is its number; compressed values are base plus increment."""
from wra import codec, text, vobj
from wra.absint import *
from wra.sink import Sink
from wra.seq import Seq, obj
from wra.var import VarModel
from wra.vobj import Val
from wra.build import ToolError
from checks.c03 import msb, stream, pad

GB = r"^wreport::bufr::Input::get_bits\("
DS = r"^wreport::bufr::Input::decode_string\(unsigned int, char\*, unsigned long&\)"
UD, CD = "wreport::bufr::UncompressedDecoderTarget", "wreport::bufr::CompressedDecoderTarget"
NUM = ("Integer", "Decimal")
NEVER = [(0, 31, y) for y in (0, 1, 2, 11, 12)]


def code(f, x, y):
    return f << 14 | x << 8 | y


def ones(n):
    return (1 << n) - 1


def run(rep):
    rep.explanation = (
        "The operations that decode a data field, with and without compression, are abstractly interpreted for every field width, every increment width and one to three "
        "subsets, with the bits read from the message symbolic: on every trace where a variable ends up unset the bits are known to be all ones, on every other trace they are "
        "known not to be and the variable holds base plus increment, decoded once with its own definition, each subset its own. The encoding side is followed to the "
        "bits written, which are all ones for an unset variable and the encoded number otherwise.")
    R = {"num": "a number is missing exactly when all its bits are 1, and is decoded from its bits otherwise", "rep": "replication factors are never missing",
         "cnum": "a compressed number is base plus increment in each subset, missing when base, increment or sum is all ones", "cone": "a compressed value with no increments is the same in all subsets",
         "uni": "values that cannot change between subsets are not accepted with increments", "bin": "an opaque value is missing exactly when all its bits are 1, and is its bytes otherwise",
         "str": "text is stored as read, unset when missing, one for each subset", "attr": "a decoded attribute goes to its variable, unless missing",
         "enc": "an unset variable is encoded as all ones, a set number as its encoded bits", "af": "associated fields are encoded as their value or all ones, and decoded to the attribute of the following value",
         "bm": "bitmaps are one bit for each value, 0 when present"}
    for k, n in (("num", 60), ("rep", 5), ("cnum", 200), ("cone", 20), ("uni", 10), ("bin", 10), ("str", 6), ("attr", 4), ("enc", 60), ("af", 3), ("bm", 4)):
        rep.rule(R[k], n)
    D = Dec(rep, R)
    D.uncompressed()
    D.compressed()
    encoder(rep, R)
    afattr(rep, R)
    rep.count("abstract runs", D.runs)


def afattr(rep, R):
    """the attribute made from an associated field is the one its encoder looks for"""
    A = r"^wreport::bulletin::AssociatedField::"
    mod = codec.load([A + r"(make_attribute|get_attribute)\("], noinline=codec.STRNO + vobj.NOIN + [r"^wreport::notes::", r"^wreport::Vartable::"])
    fo = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::bulletin::AssociatedField")}
    mkf, getf = mod.find(A + r"make_attribute\("), mod.find(A + r"get_attribute\(")
    rule = R["af"]
    known = 0
    for sig in range(64):
        for bl in (1, 2, 6, 8, 32):
            out = {}
            for f in (mkf, getf):
                j = 1 if f.args[0].get("sret") else 0
                this = mk("arg", 64, j, f.args[j]["n"] or "arg%d" % j)
                q = lambda I, st, i, a: mk("query", 64, a[-1])
                ea = lambda I, st, i, a: mk("attr of", 64, a[0], a[1])
                I = Interp(mod, f, hooks=[(r"^wreport::Vartable::query\(", q), (r"^wreport::Var::enqa\(", ea), (r"^wreport::notes::", lambda I, st, i, a: True)] + vobj.hooks())

                def init(I, st):
                    for nm, v in (("significance", sig), ("bit_count", bl)):
                        I.store(st, add(this, C(fo[nm][0], 64)), C(v, 32), 4)
                out[f] = (I, I.run(init=init))
            desc = "significance %d, %d bits" % (sig, bl)
            codes = set()
            if 1 <= sig <= 63:
                for f in (mkf, getf):
                    t = [p for p in out[f][1] if p.end == "throw"]
                    rep.check(not t, rule, f.where, "%s: rejected, it has to be decoded and may be ignored" % desc, what=desc)
            for p in out[getf][1]:
                if p.end == "ret" and p.ret.k == "attr of":
                    codes.add(uval(p.ret.a[1]) if isc(p.ret.a[1]) else None)
                elif p.end == "ret":
                    rep.check(isc(p.ret) and p.ret.a[0] == 0, rule, getf.where, "%s: the attribute encoded is %s" % (desc, p.ret), what=desc)
            I, ps = out[mkf]
            val = mk("arg", 32, len(mkf.args) - 1, mkf.args[-1]["n"] or "arg%d" % (len(mkf.args) - 1))
            made = set()
            for p in ps:
                if p.end != "ret":
                    continue
                res = I.load(p.st, mk("arg", 64, 0, mkf.args[0]["n"] or "arg0"), "ptr", 8)
                one = p.st.decide(I.mkeq(p.st, val, C(ones(bl), 32)))
                v = p.st.objs.get(("var", res))
                if v is None:
                    rep.check(isc(res) and res.a[0] == 0 and (one is True or not codes), rule, mkf.where, "%s: no attribute is made though the bits may not be all ones" % desc, what=desc)
                    continue
                # table lookups are virtual
                c = v.info.a[0] if v.info.k == "query" else v.info.a[1][-1] if v.info.k == "call" and v.info.a[0] == "<indirect>" and len(v.info.a[1]) == 3 else None
                made.add(uval(c) if c is not None and isc(c) else None)
                if v.kind == "unset":
                    rep.check(one is True, rule, mkf.where, "%s: the attribute has no value though the bits may not be all ones" % desc, what=desc)
                else:
                    # significance 21 is a one bit flag, whose only value that is not missing is 0
                    rep.check(v.kind == "i" and (v.v is val and one is False or sig == 21 and isc(v.v) and v.v.a[0] == 0), rule, mkf.where, "%s: the value of the attribute is %s" % (desc, v), what=desc)
            rep.check(made == codes, rule, mkf.where, "%s: attributes %s are made, and %s encoded" % (desc, [vcode(c) for c in made], [vcode(c) for c in codes]), what=desc)
            known += len(made)
    if not known:
        raise ToolError("no associated field makes an attribute")


def vcode(c):
    return "?" if c is None else "%d%02d%03d" % (c >> 14, c >> 8 & 63, c & 255)


class Dec:
    def __init__(self, rep, R):
        self.rep, self.R = rep, R
        self.mod = codec.load([r"^%s::(decode_|get_|add_)" % UD, r"^%s::(decode_|get_|add_)" % CD, r"^std::_Function_handler<void \(unsigned int, wreport::Var&&\)"],
                              noinline=codec.STRNO + vobj.NOIN + [GB, DS, r"^wreport::Tables::", r"AssociatedField::make_attribute", r"^wreport::Bulletin::"])
        self.M = VarModel(self.mod)
        self.runs = 0
        m = self.mod
        self.into = "^%s::|^%s::|^std::_Function_handler<" % (UD, CD)
        if not any(re.search(GB, x) for x in m.callees()):
            raise ToolError("the data decoders do not call Input::get_bits")

    def go(self, f, info=None, consts=(), n=None, six=None, afc=None):
        """one abstract run; n: number of subsets; six: value of the 6 bit increment width"""
        M, mod = self.M, self.mod
        self.runs += 1
        sret = bool(f.args[0].get("sret"))
        this = mk("arg", 64, 1 if sret else 0, f.args[1 if sret else 0]["n"] or "arg")
        S = Sink()
        sizes = codec.vec_sizes(mod)
        six = list(six or [])

        def h_bits(I, st, i, a):
            k = len([e for e in st.ev if e.kind == "bits"])
            w = a[1]
            done = len([e for e in st.ev if e.kind == "bits" and e.res.k == "c" and isc(e.a[0]) and e.a[0].a[0] == 6])
            if isc(w) and w.a[0] == 6 and done < len(six) and any(e.kind in ("bits", "text") for e in st.ev):
                v = C(six[done], 32)
            elif isc(w) and w.a[0] == 0:
                v = C(0, 32)
            elif isc(w) and w.a[0] <= 32:
                v = mk("bits_read", 32, k)
                st.setiv(v, slo=0 if w.a[0] < 32 else None, shi=ones(w.a[0]) if w.a[0] < 32 else None, ulo=0, uhi=ones(w.a[0]))
            else:
                v = mk("bits_read", 32, k)
            st.ev.append(Ev("bits", i, [w], v, st.loops))
            return v

        def h_text(I, st, i, a):
            k = len([e for e in st.ev if e.kind == "text"])
            st.ev.append(Ev("text", i, [a[1]], None, st.loops))
            st.objs[("text", a[2])] = ("text read", k)
            return mk("present", 1, k)

        def h_af(I, st, i, a):
            # make_attribute(this, value) -> unique_ptr through sret
            t = mk("afattr", 64, a[2])
            st.ev.append(Ev("af", i, [a[2]], t, st.loops))
            I.store(st, a[0], t, 8)
            I.ptr.add(t)
            return True
        hk = [(GB, h_bits), (DS, h_text), (r"AssociatedField::make_attribute", h_af), (r"^wreport::Bulletin::subset\(", lambda I, st, i, a: add(mk("vdata", 64, mk("subsets", 64, a[0])), scale(a[1] if a[1].w == 64 else I.resize(st, "zext", a[1], 64), 64)))]
        hk += vobj.hooks() + vobj.subset_hooks() + S.hooks() + S.vhooks(sizes)

        def init(I, st):
            for j in range(len(f.args)):
                if f.args[j]["ty"] == "ptr":
                    st.assume(mk("eq0", 1, mk("arg", 64, j, f.args[j]["n"] or "arg%d" % j)), False)
            self.vptr(I, st, f, this)
            for nm, v in dict(consts).items():
                o, sz = M.io[nm]
                I.store(st, add(info, C(o, 64)), C(v, 8 * sz), sz)
            if n is not None:
                o, sz = {x[2]: (x[0], x[1]) for x in mod.fields(CD)}["subset_count"]
                I.store(st, add(this, C(o, 64)), C(n, 32), 4)
            if afc is not None:
                a, o = afc
                I.store(st, add(a, C(o, 64)), C(5, 32), 4)
        I = Interp(mod, f, hooks=hk, max_paths=3000, unroll=80, on_loop=S.on_loop, on_havoc=S.on_havoc, into=self.into)
        return I, this, I.run(init=init)

    def vptr(self, I, st, f, this):
        cls = UD if UD in f.dem else CD
        g = "_ZTVN" + "".join("%d%s" % (len(x), x) for x in cls.split("::")) + "E"
        if g not in self.mod.globals:
            raise ToolError("no virtual table for %s" % cls)
        I.store(st, this, add(mk("glob", 64, g), C(16, 64)), 8)

    def fn(self, cls, name):
        return self.mod.find(r"^%s::%s\([^()]*\)$" % (cls, name))

    def infoarg(self, f):
        for j, a in enumerate(f.args):
            if (a["n"] or "") == "info":
                return mk("arg", 64, j, "info")
        k = 2 if f.args[0].get("sret") else 1
        return mk("arg", 64, k, f.args[k]["n"] or "arg%d" % k)

    # ---------------------------------------------------------- one field
    def number(self, p, I, b, bl, v, info, exempt, desc, where, rule):
        """a decoded variable v against the bits b"""
        rep, st = self.rep, p.st
        one = st.decide(I.mkeq(st, b, C(ones(bl), 32)))
        if v.kind == "unset":
            return rep.check(one is True and not exempt, rule, where, "%s: the variable is missing%s" % (desc, "" if exempt else " while its bits may not be all ones"), what=desc)
        good = v.kind == "d" and v.v.k == "decbin" and v.v.a[0] is info and v.v.a[1] is b and v.info is info
        rep.check(good, rule, where, "%s: the bits %s are decoded to %s" % (desc, b, v), what=desc)
        if not exempt:
            rep.check(one is False, rule, where, "%s: the variable has a value while its bits may be all ones" % desc, what=desc)

    def uncompressed(self):
        rep, R, tn = self.rep, self.R, self.M.types
        for name in ("decode_uniform_b_value", "decode_and_add_to_all", "decode_and_add_b_value", "decode_and_set_attribute"):
            f = self.fn(UD, name)
            info = self.infoarg(f)
            codes = [(0, 12, 101), (0, 31, 21), (0, 31, 31), (0, 30, 1), (2, 31, 1)]
            for ty in NUM:
                for c in codes + NEVER:
                    for bl in (range(1, 33) if c == (0, 12, 101) and ty == "Integer" else (1, 8, 32)):
                        rule = R["attr"] if name.endswith("attribute") else R["rep"] if c in NEVER else R["num"]
                        desc = "%s, %s, %d bits, variable %d%02d%03d" % ((name, ty, bl) + c)
                        I, this, ps = self.go(f, info, {"type": tn[ty], "bit_len": bl, "code": code(*c)})
                        for p in ps:
                            b = self.reads(p, [bl], desc, f, rule)
                            v = self.result(f, p, I, this, info, desc, rule)
                            if b and v is not None:
                                self.number(p, I, b[0], bl, v, info, c in NEVER, desc, f.where, rule)
            # text
            I, this, ps = self.go(f, info, {"type": tn["String"], "bit_len": 24, "len": 3})
            for p in ps:
                v = self.result(f, p, I, this, info, "text", R["str"])
                if v is not None:
                    self.one_text(p, v, 0, info, f, "%s, text" % name)
            # opaque data
            for bl in (1, 5, 8, 12, 16, 20):
                I, this, ps = self.go(f, info, {"type": tn["Binary"], "bit_len": bl, "len": (bl + 7) // 8})
                ws = [8] * (bl // 8) + ([bl % 8] if bl % 8 else [])
                desc = "%s, opaque, %d bits" % (name, bl)
                for p in ps:
                    b = self.reads(p, ws, desc, f, R["bin"])
                    v = self.result(f, p, I, this, info, desc, R["bin"])
                    if not b or v is None:
                        continue
                    one = [p.st.decide(I.mkeq(p.st, x, C(ones(w), 32))) for x, w in zip(b, ws)]
                    if v.kind == "unset":
                        rep.check(all(x is True for x in one), R["bin"], f.where, "%s: missing while its bits may not be all ones" % desc, what=desc)
                    else:
                        ok = v.kind == "c" and v.v[0] == "mem" and v.info is info
                        if ok:
                            got = [I.load(p.st, add(v.v[1], C(k, 64)), "i8", 1) for k in range(len(b))]
                            ok = all(bits(g) == bits(x)[:8] for g, x in zip(got, b))
                        rep.check(ok, R["bin"], f.where, "%s: the value is not the bits read, in order: %s" % (desc, v), what=desc)
                        rep.check(False in one, R["bin"], f.where, "%s: a value is set while all its bits may be ones" % desc, what=desc)
        # associated fields
        f = self.fn(UD, "decode_and_add_b_value_with_associated_field")
        info = self.infoarg(f)
        fa, o = self.field(f)
        for bl in (7, 32):
            I, this, ps = self.go(f, info, {"type": tn["Decimal"], "bit_len": bl, "code": code(0, 12, 101)}, afc=(fa, o))
            for p in ps:
                desc = "value of %d bits with associated field" % bl
                b = self.reads(p, [5, bl], desc, f, R["af"])
                v = self.result(f, p, I, this, info, desc, R["af"])
                if not b or v is None:
                    continue
                af = [e for e in p.ev if e.kind == "af"]
                rep.check(len(af) == 1 and af[0].a[0] is b[0], R["af"], f.where, "%s: the attribute is not made from the bits before the value" % desc, what=desc)
                if len(af) == 1:
                    t = af[0].res
                    to = [(a, v.attrs) for a, v in p.st.objs.items() if isinstance(a, tuple) and a[0] == "var" and v.attrs]
                    made = p.st.decide(mk("eq0", 1, t)) is not True
                    # it goes to the last variable of the subset, or to the variable before it is stored
                    ok = made == (len(to) == 1) and all(len(x) == 1 and x[0].v is t for a, x in to)
                    if ok and to:
                        at = set(x.k for x in aslin(to[0][0][1])[1])
                        ok = at == {"vdata", "vsize"} and aslin(to[0][0][1])[0] == -self.mod.types["wreport::Var"]["size"] or v.attrs and v.attrs[0].v is t
                    rep.check(ok or v.attrs and v.attrs[0].v is t, R["af"], f.where, "%s: the attribute goes to %s" % (desc, [str(a[1]) for a, x in to]), what=desc + ": attribute")
                self.number(p, I, b[1], bl, v, info, False, desc, f.where, R["af"])

        f = self.fn(UD, "decode_and_add_bitmap")
        self.bitmap(f, 1)

    def bitmap(self, f, per):
        """decode_and_add_bitmap: bits in order, 0 is +"""
        rep, R = self.rep, self.R
        for n, subs in [(1, 1), (2, 1), (3, 1)] + ([(2, 2), (1, 3)] if per == 7 else []):
            k = [j for j, a in enumerate(f.args) if a["n"] == "bitmap_size"] or [len(f.args) - 1]
            self.runs += 1
            I, this, ps = self.go_bitmap(f, k[0], n, per, subs)
            for p in ps:
                if p.end == "throw":
                    ok = per == 7 and any(e.res.k != "c" and p.st.decide(I.mkeq(p.st, e.res, C(0, 32))) is False for e in p.ev if e.kind == "bits")
                    rep.check(ok, R["bm"], p.ins.loc, "decoding a bitmap of %d values fails: %s" % (n, p.what), what="errors")
                    continue
                if p.end != "ret":
                    continue
                b = [e for e in p.ev if e.kind == "bits"]
                ws = [e.a[0].a[0] if isc(e.a[0]) else None for e in b]
                want = [1] * n if per == 1 else [1, 6] * n
                if not rep.check(ws == want, R["bm"], f.where, "a bitmap of %d values is read as fields of %s bits" % (n, ws), what="%d values" % n):
                    continue
                data = [e.res for e in (b if per == 1 else b[::2])]
                st = p.st
                sd = [e for e in p.ev if e.kind == "bitmapstr"]
                if {e.a[0] for e in sd} != {"get_bitmap", "Var"} or any(e.a[1] is None for e in sd):
                    raise ToolError("the text of a bitmap is not known in %s" % f.where)
                desc = "bitmap of %d values, %d subsets" % (n, subs)
                if per == 7:
                    vs = self.outs(f, p, subs, desc, R["bm"])
                else:
                    vs = [e.res for e in p.ev if e.kind == "stored"]
                    rep.check(len(vs) == 1, R["bm"], f.where, "%s: %d variables are stored" % (desc, len(vs)), what=desc)
                for v in vs or []:
                    rep.check(v.kind == "s" or v.kind == "?", R["bm"], f.where, "%s: the variable stored is %s" % (desc, v), what=desc)
                for e in sd:
                    if not rep.check(len(e.a[1]) == n, R["bm"], e.ins.loc, "a bitmap of %d values gives a text of %d characters" % (n, len(e.a[1])), what="length"):
                        continue
                    for j, (x, w) in enumerate(zip(data, e.a[1])):
                        z = st.decide(I.mkeq(st, x, C(0, 32)))
                        if w.k in ("ite", "sel"):
                            c, x1, x2 = w.a
                            zz = st.decide(c)
                            if zz is None:
                                # both ways: the condition is that the bit is set, or that it is not
                                for cond in (True, False):
                                    s2 = st.fork()
                                    s2.assume(c, cond)
                                    z2 = s2.decide(I.mkeq(s2, x, C(0, 32)))
                                    w2 = x1 if cond else x2
                                    ok = isc(w2) and z2 is not None and w2.a[0] == (ord("+") if z2 else ord("-"))
                                    rep.check(ok, R["bm"], f.where, "bit %d of a bitmap, known to be %s, gives %s" % (j, {True: 0, False: 1, None: "?"}[z2], w2), what="bit %d" % j)
                                continue
                            w = x1 if zz else x2
                        ok = isc(w) and z is not None and w.a[0] == (ord("+") if z else ord("-"))
                        rep.check(ok, R["bm"], f.where, "bit %d of a bitmap, known to be %s, gives %s" % (j, {True: 0, False: 1, None: "?"}[z], w), what="bit %d" % j)

    def go_bitmap(self, f, k, n, per, subs):
        mod = self.mod
        S = Sink()

        def h_bits(I, st, i, a):
            j = len([e for e in st.ev if e.kind == "bits"])
            v = mk("bits_read", 32, j)
            w = a[1].a[0] if isc(a[1]) else 32
            st.setiv(v, slo=0, shi=ones(min(w, 31)), ulo=0, uhi=ones(w))
            st.ev.append(Ev("bits", i, [a[1]], v, st.loops))
            return v
        X = text.Strs()

        def h_made(I, st, i, a):
            b = X.get(I, st, a[2])
            st.ev.append(Ev("bitmapstr", i, ["get_bitmap" if "get_bitmap" in i.callee else "Var", b], None, st.loops))
            return NotImplemented
        hk = [(GB, h_bits), (r"^wreport::Tables::get_bitmap\(|^wreport::Var::Var\(wreport::_Varinfo const\*, std::__cxx11::basic_string", h_made)]
        hk += X.hooks() + vobj.hooks() + vobj.subset_hooks() + S.hooks() + S.vhooks(codec.vec_sizes(mod))
        I = Interp(mod, f, hooks=hk, max_paths=3000, unroll=80, on_loop=S.on_loop, on_havoc=S.on_havoc, into=self.into)
        def init(I, st):
            for j in range(len(f.args)):
                if f.args[j]["ty"] == "ptr":
                    st.assume(mk("eq0", 1, mk("arg", 64, j, f.args[j]["n"] or "arg%d" % j)), False)
            self.vptr(I, st, f, mk("arg", 64, 0, f.args[0]["n"]))
            if per == 7:
                o, sz = {x[2]: (x[0], x[1]) for x in mod.fields(CD)}["subset_count"]
                I.store(st, add(mk("arg", 64, 0, f.args[0]["n"]), C(o, 64)), C(subs, 32), 4)
        return I, None, I.run(init=init, args={k: C(n, 32)})

    def field(self, f):
        k = len(f.args) - 1
        o = {x[2]: x[0] for x in self.mod.fields("wreport::bulletin::AssociatedField")}
        if "bit_count" not in o:
            raise ToolError("AssociatedField has no bit_count")
        return mk("arg", 64, k, f.args[k]["n"] or "arg%d" % k), o["bit_count"]

    def reads(self, p, ws, desc, f, rule):
        """the fields read on a trace"""
        if p.end != "ret":
            if p.end == "throw":
                self.rep.bad(rule, p.ins.loc, "%s: decoding fails with %s" % (desc, p.what))
            return None
        b = [e for e in p.ev if e.kind == "bits"]
        got = [e.a[0].a[0] if isc(e.a[0]) else str(e.a[0]) for e in b]
        if not self.rep.check(got == ws, rule, f.where, "%s: fields of %s bits are read instead of %s" % (desc, got, ws), what=desc):
            return None
        return [e.res for e in b]

    def result(self, f, p, I, this, info, desc, rule):
        """the variable an uncompressed decode produces"""
        if p.end != "ret":
            return None
        if f.args[0].get("sret"):
            return vobj.get(p.st, mk("arg", 64, 0, f.args[0]["n"] or "arg0"))
        if "set_attribute" in f.dem:
            k = [v for a, v in p.st.objs.items() if isinstance(a, tuple) and a[0] == "var" and "vdata" in {x.k for x in atoms(a[1])}]
            at = [x for v in k for x in v.attrs]
            if not at:
                return Val(info)
            if not self.rep.check(len(at) == 1, rule, f.where, "%s: %d attributes are set" % (desc, len(at)), what=desc):
                return None
            return at[0]
        s = [e for e in p.ev if e.kind == "stored"]
        if not self.rep.check(len(s) == 1, rule, f.where, "%s: %d variables are stored" % (desc, len(s)), what=desc):
            return None
        return s[0].res

    def one_text(self, p, v, k, info, f, desc):
        R, rep = self.R, self.rep
        pr = p.st.decide(mk("present", 1, k))
        if v.kind == "unset":
            rep.check(pr is False, R["str"], f.where, "%s: unset while the text may be present" % desc, what=desc)
        else:
            rep.check(v.kind == "c" and v.v == ("text read", k) and pr is True and v.info is info, R["str"], f.where, "%s: the value is %s while text %d %s" % (
                desc, v, k, {True: "was read", False: "is missing", None: "may be missing"}[pr]), what=desc)

    # ---------------------------------------------------------- compressed
    def attrs(self, f, p, info, n, desc, rule):
        """the attribute the variable of each subset gets"""
        sub, var = self.mod.types["wreport::Subset"]["size"], self.mod.types["wreport::Var"]["size"]
        pos = mk("zext", 64, mk("arg", 32, len(f.args) - 1, f.args[-1]["n"] or "arg%d" % (len(f.args) - 1)))
        r = {}
        for a, v in p.st.objs.items():
            if not (isinstance(a, tuple) and a[0] == "var" and v.attrs):
                continue
            k, d = aslin(a[1])
            vd = [x for x in d if x.k == "vdata"]
            idx = None
            if k == 0 and len(d) == 2 and d.get(pos) == var and len(vd) == 1:
                k, d = aslin(vd[0].a[0])
                if len(d) == 1 and k % sub == 0:
                    idx = k // sub
            if idx is None or idx in r or len(v.attrs) != 1:
                self.rep.bad(rule, f.where, "%s: %d attributes are given to the variable at %s" % (desc, len(v.attrs), a[1]))
                return None
            r[idx] = v.attrs[0]
        if not self.rep.check(all(0 <= k < n for k in r), rule, f.where, "%s: variables of subsets %s get an attribute" % (desc, sorted(r)), what=desc):
            return None
        for k, v in r.items():
            self.rep.check(v.kind != "unset", rule, f.where, "%s: an unset variable becomes an attribute" % desc, what=desc)
        return [r.get(k) or Val(info) for k in range(n)]

    def outs(self, f, p, n, desc, rule, info=None):
        """the variable each subset gets"""
        if f.dem.split("(")[0].endswith("set_attribute"):
            return self.attrs(f, p, info, n, desc, rule)
        r = {}
        for e in p.ev:
            if e.kind == "stored":
                k, d = aslin(e.a[0])
                vd = [x for x in d if x.k == "vdata"]
                sz = codec.vec_sizes(self.mod).get("wreport::Subset")
                idx = k // sz if len(d) == 1 and vd and sz and k % sz == 0 else None
            elif e.kind == "given":
                idx = e.a[0].a[0] if isc(e.a[0]) else None
            else:
                continue
            if idx is None or idx in r:
                self.rep.bad(rule, e.ins.loc, "%s: a value goes to subset %s%s" % (desc, idx if idx is not None else e.a[0], " twice" if idx in r else ""))
                return None
            r[idx] = e.res
        if not self.rep.check(sorted(r) == list(range(n)), rule, f.where, "%s: subsets %s get a value" % (desc, sorted(r)), what=desc):
            return None
        return [r[k] for k in range(n)]

    def compressed(self):
        rep, R, tn = self.rep, self.R, self.M.types
        fs = [self.fn(CD, "decode_and_add_b_value"), self.fn(CD, "decode_and_set_attribute")]
        c = {"code": code(0, 12, 101)}
        for f in fs:
            info = self.infoarg(f)
            for ty in NUM:
                for bl in ((1, 7, 8, 16, 31, 32) if ty == "Integer" else (12,)):
                    for db in (range(0, 33) if bl in (8, 32) else (0, 1, 5, 32)):
                        for n in (1, 2, 3) if (bl, db) in ((8, 0), (8, 3)) else (2,):
                            desc = "%s, %s, %d bits, increments of %d, %d subsets" % (f.short.split("::")[-1], ty, bl, db, n)
                            I, this, ps = self.go(f, info, dict(c, type=tn[ty], bit_len=bl), n=n, six=[db])
                            self.cnum(f, I, ps, info, bl, db, n, desc)
            # text
            for db in (0, 2, 3):
                for n in (1, 2, 3):
                    desc = "%s, text, increments of %d octets, %d subsets" % (f.short.split("::")[-1], db, n)
                    I, this, ps = self.go(f, info, {"type": tn["String"], "bit_len": 24, "len": 3}, n=n, six=[db])
                    for p in ps:
                        if p.end == "throw":
                            rep.bad(R["str"], p.ins.loc, "%s: fails with %s" % (desc, p.what))
                        if p.end != "ret":
                            continue
                        t = [e.a[0].a[0] if isc(e.a[0]) else None for e in p.ev if e.kind == "text"]
                        b = [e.a[0].a[0] if isc(e.a[0]) else None for e in p.ev if e.kind == "bits"]
                        rep.check(t == [24] + ([8 * db] * n if db else []) and b == [6], R["str"], f.where, "%s: texts of %s bits are read" % (desc, t), what=desc)
                        o = self.outs(f, p, n, desc, R["str"], info)
                        for k, v in enumerate(o or []):
                            self.one_text(p, v, k + 1 if db else 0, info, f, desc)
        # values that are the same everywhere
        for name in ("decode_uniform_b_value", "decode_and_add_to_all"):
            f = self.fn(CD, name)
            info = self.infoarg(f)
            for bl in (1, 8, 16, 32):
                for db in (0, 1, 8):
                    for n in (1, 3):
                        desc = "%s, %d bits, increments of %d, %d subsets" % (name, bl, db, n)
                        I, this, ps = self.go(f, info, dict(c, type=tn["Integer"], bit_len=bl), n=n, six=[db])
                        for p in ps:
                            if db:
                                # all increments would have to be read and compared
                                rep.check(p.end == "throw", R["uni"], f.where, "%s: increments are not refused" % desc, what=desc)
                                continue
                            b = self.reads(p, [bl, 6], desc, f, R["uni"])
                            if not b:
                                continue
                            o = [vobj.get(p.st, mk("arg", 64, 0, f.args[0]["n"] or "arg0"))] if f.args[0].get("sret") else self.outs(f, p, n, desc, R["uni"])
                            for v in o or []:
                                self.number(p, I, b[0], bl, v, info, False, desc, f.where, R["uni"])
        self.bitmap(self.fn(CD, "decode_and_add_bitmap"), 7)
        self.caf()

    def caf(self):
        rep, R = self.rep, self.R
        f = self.fn(CD, "decode_and_add_b_value_with_associated_field")
        info = self.infoarg(f)
        fa, o = self.field(f)
        rule = R["af"]
        for bl, adb, db, n in ((8, 0, 0, 1), (8, 0, 0, 2), (8, 1, 0, 2), (8, 5, 3, 2), (12, 0, 3, 2)):
            desc = "value of %d bits with associated field, increments of %d and %d, %d subsets" % (bl, adb, db, n)
            I, this, ps = self.go(f, info, {"type": self.M.types["Integer"], "bit_len": bl, "code": code(0, 12, 101)}, n=n, six=[adb, db], afc=(fa, o))
            for p in ps:
                st = p.st
                rd = [e for e in p.ev if e.kind == "bits" and not (isc(e.a[0]) and e.a[0].a[0] == 0)]
                eq = lambda x, w: st.decide(I.mkeq(st, x, C(ones(w), 32)))
                nomissing = bool(rd) and eq(rd[0].res, 5) is False
                vb = 2 + (n if nomissing and adb else 0)
                if p.end == "throw":
                    rep.check(db != 0 and len(rd) > vb and eq(rd[vb].res, bl) is True, rule, p.ins.loc, "%s: decoding fails with %s" % (desc, p.what), what=desc + ": errors")
                    continue
                if p.end != "ret":
                    continue
                got = [e.a[0].a[0] if isc(e.a[0]) else str(e.a[0]) for e in rd]
                want = [5, 6] + ([adb] * n if nomissing and adb else []) + [bl, 6] + ([db] * n if db else [])
                if not rep.check(got == want, rule, f.where, "%s: fields of %s bits are read" % (desc, got), what=desc):
                    continue
                o_ = self.outs(f, p, n, desc, rule, info)
                for k, v in enumerate(o_ or []):
                    t = mk("afattr", 64, add(rd[0].res, rd[2 + k].res) if adb else rd[0].res) if nomissing else None
                    if t is not None and st.decide(mk("eq0", 1, t)) is not True:
                        ok = len(v.attrs) == 1 and v.attrs[0].v is t
                    else:
                        ok = not v.attrs
                    rep.check(ok, rule, f.where, "%s: the value of subset %d has attributes %s" % (desc, k, [str(x.v) for x in v.attrs]), what=desc)
                    s = add(rd[vb].res, rd[vb + 2 + k].res) if db else rd[vb].res
                    conds = [eq(rd[vb].res, bl)] + ([eq(rd[vb + 2 + k].res, db), eq(s, bl)] if db else [])
                    if v.kind == "unset":
                        rep.check(True in conds, rule, f.where, "%s: the value of subset %d is missing while its bits may not be" % (desc, k), what=desc)
                    else:
                        rep.check(v.kind == "d" and v.v is mk("decbin", "d", info, s) and v.info is info and all(x is False for x in conds), rule, f.where,
                                  "%s: subset %d gets %s" % (desc, k, v), what=desc)

    def cnum(self, f, I, ps, info, bl, db, n, desc):
        rep, R = self.rep, self.R
        rule = R["cnum"] if db else R["cone"]
        for p in ps:
            st = p.st
            rd = [e for e in p.ev if e.kind == "bits"]
            if p.end == "throw":
                one = rd and st.decide(I.mkeq(st, rd[0].res, C(ones(bl), 32)))
                rep.check(db != 0 and one is True, rule, p.ins.loc, "%s: decoding fails with %s" % (desc, p.what), what=desc + ": errors")
                continue
            if p.end != "ret":
                continue
            got = [e.a[0].a[0] if isc(e.a[0]) else str(e.a[0]) for e in rd]
            if not rep.check(got == [bl, 6] + ([db] * n if db else []), rule, f.where, "%s: fields of %s bits are read" % (desc, got), what=desc):
                continue
            o = self.outs(f, p, n, desc, rule, info)
            base = rd[0].res
            eq = lambda x, w: st.decide(I.mkeq(st, x, C(ones(w), 32)))
            for k, v in enumerate(o or []):
                if db:
                    d = rd[2 + k].res
                    s = add(base, d)
                    conds = [eq(base, bl), eq(d, db), eq(s, bl)]
                else:
                    s = base
                    conds = [eq(base, bl)]
                if v.kind == "unset":
                    rep.check(True in conds, rule, f.where, "%s: the value of subset %d is missing while neither base nor increment nor sum is known to be all ones" % (desc, k), what=desc)
                    continue
                rep.check(v.kind == "d" and v.v.k == "decbin" and v.v.a[0] is info and v.v.a[1] is s and v.info is info, rule, f.where,
                          "%s: subset %d gets %s instead of the number %s" % (desc, k, v, s), what=desc)
                rep.check(all(x is False for x in conds), rule, f.where, "%s: subset %d has a value while base, increment or sum may be all ones" % (desc, k), what=desc)


# -------------------------------------------------------------- encoding

def encoder(rep, R):
    OUT = r"^wreport::buffers::BufrOutput::"
    mod = codec.load([OUT + r"(BufrOutput|flush|append_var|append_missing)\("], noinline=codec.STRNO + vobj.NOIN)
    M = VarModel(mod)
    q = Seq(mod, hooks=vobj.hooks())
    q.unroll = 300
    o, s, info, var = obj("bufr output"), obj("string"), obj("info"), obj("variable")

    def init(I, st):
        st.objs[("str", s)] = ((), C(0, 64))
    st0 = q.call1(OUT + r"BufrOutput\(", [o, s], init=init).st
    f = mod.find(OUT + r"append_var\(")
    for ty in M.types:
        for bl in (range(1, 33) if ty == "Integer" else (1, 9, 32) if ty == "Decimal" else (8, 24, 40)):
            def ini(I, st):
                for n, v in (("type", M.types[ty]), ("bit_len", bl), ("len", (bl + 7) // 8)):
                    I.store(st, add(info, C(M.io[n][0], 64)), C(v, 8 * M.io[n][1]), M.io[n][1])
                # the definition of the variable itself can be another one
                for n, v in (("type", M.types[ty]), ("bit_len", bl + 8), ("len", (bl + 15) // 8)):
                    I.store(st, add(mk("varinfo", 64, var), C(M.io[n][0], 64)), C(v, 8 * M.io[n][1]), M.io[n][1])
            for p in q.call(f, [o, info, var], st0, init=ini):
                desc = "%s, %d bits" % (ty, bl)
                if p.end == "throw":
                    rep.bad(R["enc"], f.where, "%s: encoding fails with %s" % (desc, p.what))
                if p.end != "ret":
                    continue
                isset = p.st.decide(mk("isset", 1, var))
                e = q.call1(OUT + r"flush\(", [o], p.st)
                got = stream(e.st.objs[("str", s)][0])
                if isset is False:
                    rep.check(got == pad([1] * bl), R["enc"], f.where, "%s: a missing value is encoded as %s" % (desc, got), what=desc + ", missing")
                elif isset is True and ty in NUM:
                    rep.check(got == pad(msb(mk("encbin", 32, info, mk("enq", "d", var)), bl)), R["enc"], f.where, "%s: the number is encoded as %s" % (desc, got), what=desc)
                elif isset is None:
                    rep.bad(R["enc"], f.where, "%s: whether the value is set is not looked at" % desc)
    rep.count("abstract runs", q.calls)
    afields(rep, R)


def afields(rep, R):
    """encoding of attributes and associated fields"""
    mod = codec.load([r"DDSEncoder::(encode_associated_field|define_attribute|encode_attr|define_substituted_value)\("],
                     noinline=codec.STRNO + vobj.NOIN + [r"BufrOutput::", r"AssociatedField::get_attribute", r"UncompressedEncoder::get_var"])
    f = mod.find(r"DDSEncoder::encode_associated_field\(")
    att = mk("attribute", 64, 0)

    def run_(f):
        hk = [(r"AssociatedField::get_attribute", lambda I, st, i, a: att), (r"^wreport::Var::enqa\(", lambda I, st, i, a: ev(st, i, "enqa", a, att)),
              (r"BufrOutput::(add_bits|append_missing|append_var)\(", lambda I, st, i, a: ev(st, i, "out", [i.callee] + a[1:], True)),
              (r"get_var\(", lambda I, st, i, a: mk("var of subset", 64, *a[1:]))] + vobj.hooks() + Sink().vhooks(codec.vec_sizes(mod))
        I = Interp(mod, f, hooks=hk)
        return I, I.run()

    def ev(st, i, kind, a, r):
        st.ev.append(Ev(kind, i, a, r, st.loops))
        return r
    I, ps = run_(f)
    for p in ps:
        if p.end != "ret":
            rep.bad(R["af"], f.where, "encoding an associated field: %s %s" % (p.end, p.what))
            continue
        o = [e for e in p.ev if e.kind == "out"]
        null = p.st.decide(mk("eq0", 1, att))
        s = p.st.decide(mk("isset", 1, att))
        if not rep.check(len(o) == 1, R["af"], f.where, "an associated field is encoded as %d fields" % len(o), what="one field"):
            continue
        nm = o[0].a[0]
        if null is False and s is True:
            rep.check("add_bits" in nm and o[0].a[1] is mk("enq", 32, att), R["af"], f.where, "an associated field with a value is encoded with %s(%s)" % (nm.split("(")[0], o[0].a[1]), what="present")
        else:
            rep.check((null is True or s is False) and "append_missing" in nm, R["af"], f.where, "an associated field that may have a value is encoded with %s" % nm.split("(")[0], what="missing")
    for f in [g for g in mod.fns.values() if re.search(r"DDSEncoder::(define_attribute|define_substituted_value)\(", g.dem)]:
        I, ps = run_(f)
        for p in ps:
            if p.end != "ret":
                rep.bad(R["af"], f.where, "encoding an attribute: %s %s" % (p.end, p.what))
                continue
            o = [e for e in p.ev if e.kind == "out"]
            if not rep.check(len(o) == 1, R["af"], f.where, "an attribute is encoded as %d fields" % len(o), what="one field"):
                continue
            null = p.st.decide(mk("eq0", 1, att))
            nm = o[0].a[0]
            if null is False:
                rep.check("append_var" in nm and o[0].a[2] is att, R["af"], f.where, "an attribute is encoded with %s(%s)" % (nm.split("(")[0], o[0].a[1:]), what="attribute")
            else:
                rep.check(null is True and "append_missing" in nm, R["af"], f.where, "an attribute that may be there is encoded with %s" % nm.split("(")[0], what="no attribute")
