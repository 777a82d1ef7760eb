"""C27: subsets and bulletins are built from the variables they are given, in order, and bitmaps say which variables have the attribute."""
import itertools
import re
from wra.absint import *
from wra import codec, vobj, text
from wra.dds import Vecs, F, name
from wra.seq import obj
from wra.var import VarModel
from wra.vobj import Val
from wra.build import ToolError

S = r"^wreport::Subset::"
VV = r"^(wreport::Var& |void )?std::vector<wreport::Var,.*>::"
VS = r"^(wreport::Subset& |void )?std::vector<wreport::Subset,.*>::"
INTO = r"^wreport::(Subset::(?!~|Subset\()|Bulletin::(obtain_)?subset\(|\(anonymous namespace\)::)"


class Build:
    def __init__(self, rep, R):
        self.rep, self.R = rep, R
        no = codec.STRNO + [r"^wreport::Var::", S, r"^wreport::(Vartable|Tables)::", r"^wreport::notes::", r"^(wreport::(Var|Subset)& |void )?std::vector<wreport::(Var|Subset),", r"^wreport::Bulletin::", r"^strlen$"]
        self.mod = codec.load([S, r"^wreport::Bulletin::(obtain_)?subset\("], noinline=no)
        self.M = VarModel(self.mod)
        self.Str = text.Strs()
        self.vs, self.ss = self.mod.types["wreport::Var"]["size"], self.mod.types["wreport::Subset"]["size"]
        self.V = Vecs(dict(codec.vec_sizes(self.mod)))
        self.sf = {n: (o, sz) for o, sz, n, t in self.mod.fields("wreport::Subset")}
        self.to = {n: (o, sz) for o, sz, n, t in self.mod.fields("wreport::Tables")}
        self.bf = {n: (o, sz) for o, sz, n, t in self.mod.fields("wreport::Bulletin")}
        for n, d in (("tables", self.sf), ("btable", self.to), ("subsets", self.bf), ("tables", self.bf)):
            if n not in d:
                raise ToolError("no member %s" % n)
        self.tables, self.bt, self.sub = obj("tables"), obj("btable"), obj("subset")
        self.runs, self.out = 0, None

    def info(self, code):
        return mk("query", 64, self.bt, code if isinstance(code, T) else C(code, 16))

    # -- what calls mean
    def h_virtual(self, I, st, i, a):
        """table lookups are virtual"""
        cv, args = a[0], a[1:]
        if i.ty == "ptr" and len(args) == 2 and args[1].w == 16:
            r = mk("query", 64, args[0], args[1])
            I.ptr.add(r)
            st.assume(mk("eq0", 1, r), False)
            return r
        return NotImplemented

    def h_query(self, I, st, i, a):
        r = mk("query", 64, a[0], a[1])
        st.assume(mk("eq0", 1, r), False)
        return r

    def h_bitmap(self, I, st, i, a):
        b = self.Str.get(I, st, a[2])
        r = mk("bitmap", 64, a[0], a[1], tuple(b) if b is not None else None)
        st.assume(mk("eq0", 1, r), False)
        return r

    def elem(self, st, p):
        """number of the variable of the subset at p"""
        o = add(p, scale(self.V.data_of(self.sub), -1))
        if not isc(o) or o.a[0] % self.vs:
            return None
        return o.a[0] // self.vs

    def seen(self, st, i, p):
        k = self.elem(st, p)
        if k is not None and not 0 <= k < self.V.n(st, self.sub):
            self.out = (i.loc, k, self.V.n(st, self.sub))
        return k

    def h_code(self, I, st, i, a):
        self.seen(st, i, a[0])
        v = vobj.get(st, a[0])
        if v.info.k == "query" and isc(v.info.a[1]):
            return v.info.a[1]
        return mk("code of", 16, v.info)

    def h_enqa(self, I, st, i, a):
        k = self.seen(st, i, a[0])
        if k is None or not isc(a[1]):
            return NotImplemented
        if uval(a[1]) in self.attrs.get(k, ()):
            return C(0x10000 + 64 * k, 64)      # some address
        return C(0, 64)

    def h_push(self, I, st, i, a):
        v, n = a[0], self.V.n(st, a[0])
        dst = add(self.V.data(st, v), C(n * self.vs, 64))
        m = re.search(r"::(push_back|emplace_back)(<.*>)?\((.*)\)$", i.callee)
        args = m.group(3) if m else ""
        if re.match(r"wreport::Var( const)?&&?$", args):
            vobj.put(st, dst, vobj.get(st, a[1]))
            if args.endswith("Var&&"):
                vobj.put(st, a[1], Val(vobj.get(st, a[1]).info))
        else:
            # emplace_back with the arguments of a constructor, taken by reference
            ts = [x.strip() for x in args.split(",")]
            inf = I.load(st, a[1], "ptr", 8)
            if len(ts) == 1:
                val = Val(inf)
            elif ts[1].startswith(("int", "unsigned")):
                val = Val(inf, "i", I.load(st, a[2], "i32", 4))
            elif ts[1].startswith("double"):
                val = Val(inf, "d", I.load(st, a[2], "double", 8))
            elif ts[1].startswith("char const*"):
                val = self.cval(I, st, inf, I.load(st, a[2], "ptr", 8))
            elif ts[1].startswith("wreport::Var"):
                val = Val(inf, "conv", a[2])
            else:
                return NotImplemented
            vobj.put(st, dst, val)
        self.V.setn(I, st, v, n + 1, self.vs)
        return dst if i.ty == "ptr" else True

    def cval(self, I, st, inf, p):
        b = text.cstr(I, st, p)
        return Val(inf, "c", tuple(b) if b is not None else p)

    def h_ctor_c(self, I, st, i, a):
        vobj.put(st, a[0], self.cval(I, st, a[1], a[2]))
        return True

    def h_ctor_s(self, I, st, i, a):
        b = self.Str.get(I, st, a[2])
        vobj.put(st, a[0], Val(a[1], "c", tuple(b) if b is not None else a[2]))
        return True

    def h_ctor_v(self, I, st, i, a):
        vobj.put(st, a[0], Val(a[1], "conv", a[2]))
        return True

    def h_assign(self, I, st, i, a):
        """vectors of variables, copied or moved"""
        d, s = a[0], a[1]
        n = self.V.n(st, s)
        for k in range(n):
            vobj.put(st, add(self.V.data(st, d), C(k * self.vs, 64)), vobj.get(st, add(self.V.data(st, s), C(k * self.vs, 64))))
        self.V.setn(I, st, d, n, self.vs)
        if "&&" in i.callee and d is not s:
            self.V.setn(I, st, s, 0, self.vs)
        return a[0]

    def h_swap(self, I, st, i, a):
        d, s = a[0], a[1]
        g = lambda v: [vobj.get(st, add(self.V.data(st, v), C(k * self.vs, 64))) for k in range(self.V.n(st, v))]
        x, y = g(d), g(s)
        for v, l in ((d, y), (s, x)):
            for k, e in enumerate(l):
                vobj.put(st, add(self.V.data(st, v), C(k * self.vs, 64)), e)
            self.V.setn(I, st, v, len(l), self.vs)
        return True

    def h_insert(self, I, st, i, a):
        """at the end only"""
        v, n = a[0], self.V.n(st, a[0])
        dst = add(self.V.data(st, v), C(n * self.vs, 64))
        if a[1] is not dst or len(a) != 3 or not re.search(r", wreport::Var( const&|&&)\)$", i.callee):
            raise ToolError("insertion in a subset not modelled at %s" % i.loc)
        vobj.put(st, dst, vobj.get(st, a[2]))
        self.V.setn(I, st, v, n + 1, self.vs)
        return dst

    def h_other(self, I, st, i, a):
        raise ToolError("operation on a subset not modelled: %s at %s" % (i.callee, i.loc))

    def h_newsubset(self, I, st, i, a):
        n = self.V.n(st, a[0])
        s = add(self.V.data(st, a[0]), C(n * self.ss, 64))
        self.V.setn(I, st, a[0], n + 1, self.ss)
        src = a[1] if len(a) > 1 else None
        if re.search(r"\(wreport::Subset( const)?&&?\)$", i.callee):
            src = st.objs.get(("made with", src))
        st.objs[("made with", s)] = src
        return s if i.ty == "ptr" else True

    def h_subset(self, I, st, i, a):
        st.objs[("made with", a[0])] = a[1]
        return True

    def hooks(self):
        VI = r"^wreport::Var::Var\(wreport::_Varinfo const\*, "
        ign = lambda I, st, i, a: True
        return [(r"<indirect>", self.h_virtual), (r"^wreport::Vartable::query\(", self.h_query), (r"^wreport::Tables::get_bitmap\(", self.h_bitmap), (r"^wreport::Var::code\(", self.h_code),
                (r"^wreport::Var::enqa\(", self.h_enqa), (VI + r"char const\*\)", self.h_ctor_c), (VI + r"std::__cxx11::basic_string", self.h_ctor_s), (VI + r"wreport::Var const&\)", self.h_ctor_v),
                (VV + r"(push_back|emplace_back)", self.h_push), (VV + r"(operator=|vector)\(std::vector<wreport::Var,", self.h_assign), (VV + r"swap\(", self.h_swap),
                (VS + r"(push_back|emplace_back)", self.h_newsubset), (r"^wreport::Subset::Subset\(wreport::Tables const&\)", self.h_subset), (r"^wreport::Subset::~", ign), (r"^wreport::notes::", ign)] + \
            [(VV + r"(insert|emplace)\(", self.h_insert)] + vobj.hooks() + self.V.hooks() + self.Str.hooks() + text.hooks() + \
            [(VV + r"~?vector\(", ign), (VV + r"(insert|emplace|erase|pop_back|resize|assign|swap|shrink_to_fit)", self.h_other)]

    def start(self, I, st, codes):
        for o in (self.tables, self.bt, self.sub):
            st.assume(mk("eq0", 1, o), False)
        I.store(st, add(self.sub, C(self.sf["tables"][0], 64)), self.tables, 8)
        I.store(st, add(self.tables, C(self.to["btable"][0], 64)), self.bt, 8)
        self.V.setn(I, st, self.sub, len(codes), self.vs)
        for k, c in enumerate(codes):
            vobj.put(st, add(self.V.data(st, self.sub), C(k * self.vs, 64)), Val(self.info(c), "?", mk("value", 64, k)))

    def run(self, f, args, init):
        self.runs += 1
        I = Interp(self.mod, f, hooks=self.hooks(), unroll=4000, fork_exits=True, canon_bits=True, into=INTO, icall_pure=True)
        I.memset_max = 4096
        return I, I.run(args=args, init=init)

    def content(self, st, v=None):
        v = v if v is not None else self.sub
        return [vobj.get(st, add(self.V.data(st, v), C(k * self.vs, 64))) for k in range(self.V.n(st, v))]

    def old(self, codes):
        return [Val(self.info(c), "?", mk("value", 64, k)) for k, c in enumerate(codes)]

    # -- rules
    def stores(self):
        rep, R = self.rep, self.R["store"]
        code = mk("arg", 16, 1, "code")
        I32, D64, P = mk("arg", 32, -1, "val"), mk("arg", "d", -1, "val"), obj("val")
        inf = obj("info")
        var = obj("var")
        given = Val(obj("its info"), "?", mk("value", 64, "given"))
        lit = tuple(text.lit("ABC"))
        q = self.info(code)
        cases = [(r"store_variable\(wreport::Var const&\)", [var], given), (r"store_variable\(wreport::Var&&\)", [var], given), (r"store_variable\(unsigned short, wreport::Var const&\)", [code, var], Val(q, "conv", var)),
                 (r"store_variable_i\(", [code, I32], Val(q, "i", I32)), (r"store_variable_d\(", [code, D64], Val(q, "d", D64)), (r"store_variable_c\(", [code, P], Val(q, "c", lit)),
                 (r"store_variable_undef\(unsigned short\)", [code], Val(q)), (r"store_variable_undef\(wreport::_Varinfo const\*\)", [inf], Val(inf))]
        for pat, args, want in cases:
            f = self.mod.find(S + pat)
            for n in (0, 1, 3):
                codes = [F(0, 12, 101)] * n

                def init(I, st):
                    self.start(I, st, codes)
                    for o in (P, inf, var):
                        st.assume(mk("eq0", 1, o), False)
                    vobj.put(st, var, given)
                    text.put(I, st, P, list(lit) + [C(0, 8)])
                I, ps = self.run(f, dict(enumerate([self.sub] + args)), init)
                what = "%s after %d variables" % (f.short.split("::")[-1], n)
                if not any(p.end == "ret" for p in ps):
                    rep.bad(R, f.where, "%s: never returns" % what)
                for p in ps:
                    if p.end == "throw":
                        continue
                    if p.end != "ret":
                        raise ToolError("%s: %s" % (what, p.end))
                    got = self.content(p.st)
                    exp = self.old(codes) + [want]
                    rep.check(got == exp, R, f.where, "%s: the subset has %s instead of %s" % (what, show(got), show(exp)), what=what)

    def bitmap(self, rule, f, args, codes, attrs, want, count, what):
        self.attrs, self.out = attrs, None
        rep, R = self.rep, self.R[rule]
        I, ps = self.run(f, dict(enumerate(args)), lambda I, st: self.start(I, st, codes))
        if self.out:
            return rep.check(False, R, self.out[0], "%s: variable %d of %d is looked at" % (what, self.out[1], self.out[2]))
        for p in ps:
            if p.end == "throw":
                if p.what and ("new" in p.what or "alloc" in p.what) or p.ins.callee and "Var" in p.ins.callee:
                    continue
                return rep.check(False, R, p.ins.loc, "%s: rejected" % what)
            if p.end != "ret":
                raise ToolError("%s: %s at %s" % (what, p.end, p.ins.loc))
            got = self.content(p.st)
            if got[:len(codes)] != self.old(codes) or len(got) != len(codes) + 1:
                return rep.check(False, R, f.where, "%s: the subset has %s" % (what, show(got)))
            b = got[-1]
            exp = tuple(text.lit(want))
            if b.info.k != "bitmap" or b.info.a[0] is not self.tables or b.info.a[2] != exp or b.info.a[1] is not args[1]:
                return rep.check(False, R, f.where, "%s: the definition asked for is that of %s %s" % (what, b.info.k, show1(b.info.a[2]) if b.info.k == "bitmap" else ""))
            if b.v != exp:
                return rep.check(False, R, f.where, "%s: the bitmap is %s instead of %s" % (what, show1(b.v), want))
            if count is not None:
                if not rep.check(isc(p.ret) and uval(p.ret) == count, R, f.where, "%s: %s is returned instead of %d" % (what, p.ret, count), what=what):
                    return
        rep.ok(R, what)

    def bitmaps(self):
        f, g = self.mod.find(S + r"append_dpb\("), self.mod.find(S + r"append_fixed_dpb\(")
        A, OTHER = F(0, 33, 7), F(0, 33, 2)
        ccode = mk("arg", 16, 1, "ccode")
        lays = [l for n in range(4) for l in itertools.product("vV+oc", repeat=n)] if self.rep.tier != "thorough" else [l for n in range(5) for l in itertools.product("vV+oc", repeat=n)]
        lays += [tuple("vV" * 20), tuple("V" * 33), tuple("cV" * 9), tuple("v" * 300)]
        for l in lays:
            # v: no attribute, V: the attribute, o: another attribute, +: both, c: not data, with the attribute
            codes = [F(0, 12, 1 + k % 100) if x != "c" else F(2, 22, 0) for k, x in enumerate(l)]
            attrs = {k: {"v": (), "V": (A,), "o": (OTHER,), "+": (A, OTHER), "c": (A,)}[x] for k, x in enumerate(l)}
            bm = "".join("+" if x in "V+" else "-" for x in l if x != "c")
            for size in sorted({0, 1, len(bm) - 1, len(bm), len(bm) + 1, len(bm) + 3}):
                if size < 0:
                    continue
                w = (bm + "-" * size)[:size]
                self.bitmap("dpb", f, [self.sub, ccode, C(size, 32), C(A, 16)], codes, attrs, w, w.count("+"), "append_dpb of %d items on %s" % (size, "".join(l) or "nothing"))
        for n in (0, 1, 2, 3, 7, 8, 31, 32, 100, 255, 256, 300):
            self.bitmap("fixed", g, [self.sub, ccode, C(n, 32)], [F(0, 12, 101)] * 2, {}, "+" * n, None, "append_fixed_dpb of %d items" % n)

    def moves(self):
        rep, R = self.rep, self.R["move"]
        other, ot = obj("other"), obj("other tables")
        for f in self.mod.find(S + r"operator=\(wreport::Subset&&\)", one=False):
            for n in (0, 1, 3):
                for m in (0, 2):
                    for same in (False, True):
                        src = self.sub if same else other

                        def init(I, st):
                            self.start(I, st, [F(0, 12, 101)] * n)
                            st.assume(mk("eq0", 1, other), False)
                            st.assume(I.mkeq(st, self.sub, other), False)
                            I.store(st, add(other, C(self.sf["tables"][0], 64)), ot, 8)
                            self.V.setn(I, st, other, m, self.vs)
                            for k in range(m):
                                vobj.put(st, add(self.V.data(st, other), C(k * self.vs, 64)), Val(self.info(7), "?", mk("value", 64, "other", k)))
                        I, ps = self.run(f, {0: self.sub, 1: src}, init)
                        what = "assignment of a subset of %d variables to %s" % (n if same else m, "itself" if same else "one of %d" % n)
                        for p in ps:
                            if p.end != "ret":
                                raise ToolError("%s: %s" % (what, p.end))
                            got = self.content(p.st)
                            exp = self.old([F(0, 12, 101)] * n) if same else [Val(self.info(7), "?", mk("value", 64, "other", k)) for k in range(m)]
                            t = I.load(p.st, add(self.sub, C(self.sf["tables"][0], 64)), "ptr", 8)
                            rep.check(got == exp and t is (self.tables if same else ot), R, f.where, "%s: leaves %s with tables %s" % (what, show(got), t), what=what)

    def subsets(self):
        rep, R = self.rep, self.R["obtain"]
        bul = obj("bulletin")
        sv = add(bul, C(self.bf["subsets"][0], 64))
        tb = add(bul, C(self.bf["tables"][0], 64))
        for pat in (r"^wreport::Bulletin::obtain_subset\(", r"^wreport::Bulletin::subset\("):
            f = self.mod.find(pat)
            for n in (0, 1, 2, 5):
                for k in (0, 1, 2, 4, 5, 6, 9, 255, 256, 300):

                    def init(I, st):
                        st.assume(mk("eq0", 1, bul), False)
                        self.V.setn(I, st, sv, n, self.ss)
                    I, ps = self.run(f, {0: bul, 1: C(k, 32)}, init)
                    what = "%s(%d) of %d" % (f.short.split("::")[-1], k, n)
                    for p in ps:
                        grow = "obtain" in pat
                        if k >= n and not grow:
                            rep.check(p.end == "throw", R, f.where, "%s: not rejected" % what, what=what)
                            continue
                        if p.end == "throw":
                            if p.what and "alloc" in p.what:
                                continue
                            rep.check(False, R, f.where, "%s: rejected" % what)
                            continue
                        if p.end != "ret":
                            raise ToolError("%s: %s" % (what, p.end))
                        d = self.V.data(p.st, sv)
                        have = self.V.n(p.st, sv)
                        ok = p.ret is add(d, C(k * self.ss, 64)) and have == (max(n, k + 1) if grow else n)
                        ok = ok and all(p.st.objs.get(("made with", add(d, C(j * self.ss, 64)))) is tb for j in range(n, have))
                        rep.check(ok, R, f.where, "%s: gives %s, with %d subsets" % (what, p.ret, have), what=what)


def show1(b):
    if not isinstance(b, tuple):
        return str(b)
    return "".join(chr(uval(x)) if isc(x) else "?" for x in b)


def show(l):
    return "[%s]" % ", ".join("%s %s" % (v.info, v if v.kind != "c" else show1(v.v)) for v in l)[:300]


def run(rep):
    rep.explanation = (
        "The functions that add to a subset or to a bulletin are abstractly interpreted, with symbolic codes and values, on subsets and bulletins of known size; what the subset holds at the end must be what it held before "
        "followed by one variable with the definition of the code and the value given. The bitmaps made by append_dpb and append_fixed_dpb are compared with the reference for every arrangement of variables with and without the attribute, "
        "and of items that are not data, up to three items (four in thorough), and for sizes shorter and longer than the subset; looking at a variable that is not there is reported.")
    R = {"store": "storing a variable adds one at the end, with the definition and value given", "dpb": "a bitmap has one item for each data variable, + if it has the attribute",
         "fixed": "a fixed bitmap has as many + as asked for", "move": "a subset that is assigned has the variables and tables of the other", "obtain": "the subset asked for is given, adding those that are not there yet"}
    for k, n in (("store", 20), ("dpb", 300), ("fixed", 10), ("move", 0), ("obtain", 40)):
        rep.rule(R[k], n)
    b = Build(rep, R)
    b.stores()
    b.bitmaps()
    b.moves()
    b.subsets()
    rep.count("abstract runs", b.runs)
    rep.assumptions.append("std::vector and std::string behave as specified; variables behave as C06, C07, C08 and C20 say; definitions of bitmaps are those of C13")
