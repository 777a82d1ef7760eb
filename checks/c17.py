"""C17: comparisons see every difference and nothing else; clear resets everything."""
import itertools
from wra import codec
from wra.absint import *
from wra.sink import Sink
from wra.seq import obj
from wra.var import VarModel
from wra.build import ToolError

LOG = r"^wreport::notes::"
NOIN = codec.STRNO + [LOG, r"^std::filesystem::", r"^(bool )?std::operator(==|!=)<char", r"^wreport::Var::(enqc|enqs|format|print)", r"^wreport::Var::(operator==|operator!=|diff)\(",
                      r"^wreport::vartype_format", r"^wreport::varcode_format", r"^wreport::Tables::"]
SD = r"^wreport::Subset::diff\("
NA = object()


def run(rep):
    rep.explanation = (
        "The comparison functions are abstractly interpreted on pairs of abstract objects. For variables: every pair of types, with up to 3 attributes on each side; on each trace the outcome is "
        "compared with whether code, presence, type, value and attributes are known to be equal or different on that trace: no trace may answer without knowing, or against what it knows. "
        "For bulletins and subsets: one field at a time (and every two fields) is made different and all others equal, with the number of descriptors and subsets 0 to 2. "
        "clear is followed from an arbitrary bulletin and compared field by field with a newly built one.")
    R = {"eq": "variables are equal exactly when code, presence, type, value and attributes are equal", "diff": "Var::diff is 0 exactly when the variables are equal",
         "sub": "Subset::diff is 0 exactly when tables, number of variables and all variables are equal",
         "same": "bulletins that are the same have no differences", "one": "a bulletin that differs in any field or subset has differences", "clear": "clear leaves a bulletin as newly created"}
    for k, n in (("eq", 40), ("diff", 40), ("sub", 6), ("same", 2), ("one", 60), ("clear", 30)):
        rep.rule(R[k], n)
    variables(rep, R)
    subsets(rep, R)
    bulletins(rep, R)
    clear(rep, R)


# ------------------------------------------------------------------ variables

def h_cmp(name):
    def h(I, st, i, a):
        return mk(name, 32, *a)
    return h


def opaque(I, st, i, a):
    """a result that says nothing about the variables"""
    if i.ty in (None, "void"):
        return True
    r = I.fresh(width(i.ty), "text")
    if i.ty == "ptr":
        I.ptr.add(r)
        st.assume(mk("eq0", 1, r), False)
    return r


VHOOKS = [(r"^strcmp$", h_cmp("strcmp")), (r"^(memcmp|bcmp)$", h_cmp("memcmp")), (r"^strncmp$", h_cmp("strncmp")),
          (r"^wreport::(notes::|vartype_format|varcode_format|Var::(enqc|format|print))", opaque), (r"^snprintf$", opaque),
          (r"^std::(basic_)?ostream", opaque), (r"^std::basic_ostream<.* std::operator<<", opaque)]


class Vars:
    def __init__(self, mod):
        self.mod, self.M = mod, VarModel(mod)

    def setup(self, I, st, v, ty, nxt, blen):
        M = self.M
        st.assume(mk("eq0", 1, v), False)
        M.any_type(I, st, v)
        if ty:
            M.set_type(I, st, v, ty)
        st.setiv(mk("ld", 8, M.field(v, "m_isset"), 0), ulo=0, uhi=1, slo=0, shi=1)
        if blen:
            I.store(st, M.info_addr(v, "len"), C(blen, 8 * M.io["len"][1]), M.io["len"][1])
        I.store(st, M.field(v, "m_attrs"), nxt, 8)

    def eq3(self, I, st, a, b):
        """are these two terms equal"""
        return st.decide(I.mkeq(st, a, b))

    def same(self, I, st, x, y):
        """what the trace knows about two variables without their attributes: True, False or None"""
        M = self.M
        ld = lambda v, n: mk("ld", 8 * M.vo[n][1], M.field(v, n), 0)
        inf = lambda v, n: I.load(st, M.info_addr(v, n), "i%d" % (8 * M.io[n][1]), M.io[n][1])
        facts = [self.eq3(I, st, M.inf(x, "code"), M.inf(y, "code"))]
        sx, sy = (M.isset(I, st, v) for v in (x, y))
        if sx is False and sy is False:
            return fold(facts)
        if sx is None or sy is None:
            # one unknown: still equal or not as a whole
            facts.append(self.eq3(I, st, ld(x, "m_isset"), ld(y, "m_isset")))
            if facts[-1] is False:
                return False
            facts.append(None)
            return fold(facts)
        if sx is not sy:
            return False
        facts.append(self.eq3(I, st, M.inf(x, "type"), M.inf(y, "type")))
        tx = self.types(I, st, x) & self.types(I, st, y)
        if facts[-1] is False or not tx:
            return False
        vals = set()
        for t in tx:
            vals.add(self.value(I, st, x, y, t))
        facts.append(vals.pop() if len(vals) == 1 else None)
        return fold(facts)

    def types(self, I, st, v):
        M = self.M
        return {n for n, k in M.types.items() if st.decide(I.mkeq(st, M.inf(v, "type"), C(k, 32))) is not False}

    def value(self, I, st, x, y, t):
        M = self.M
        vx, vy = (mk("ld", 64, M.field(v, "m_value"), 0) for v in (x, y))
        if t in ("Integer", "Decimal"):
            return self.eq3(I, st, mk("ld", 32, M.field(x, "m_value"), 0), mk("ld", 32, M.field(y, "m_value"), 0))
        lens = [I.load(st, M.info_addr(v, "len"), "i%d" % (8 * M.io["len"][1]), M.io["len"][1]) for v in (x, y)]
        n = lens[0].a[0] if isc(lens[0]) else None
        if t == "Binary":
            bl = self.eq3(I, st, M.inf(x, "bit_len"), M.inf(y, "bit_len"))
            if bl is False:
                return False
            lens = [I.resize(st, "zext", l, 64) for l in lens]
            for a, b in ((vx, vy), (vy, vx)):
                for l in lens:
                    d = st.decide(I.mkeq(st, mk("memcmp", 32, a, b, l), C(0, 32)))
                    if d is not None:
                        return fold([bl, d])
            # byte by byte
            return fold([bl] + ([self.byte(I, st, vx, vy, k) for k in range(n)] if n else [None]))
        for a, b in ((vx, vy), (vy, vx)):
            d = st.decide(I.mkeq(st, mk("strcmp", 32, a, b), C(0, 32)))
            if d is not None:
                return d
        for k in range(n or 0):
            e = self.byte(I, st, vx, vy, k)
            if e is not True:
                return e
            z = [st.decide(I.mkeq(st, mk("ld", 8, add(v, C(k, 64)), 0), C(0, 8))) for v in (vx, vy)]
            if True in z:
                return True
            if False not in z:
                return None
        return None

    def byte(self, I, st, vx, vy, k):
        return self.eq3(I, st, mk("ld", 8, add(vx, C(k, 64)), 0), mk("ld", 8, add(vy, C(k, 64)), 0))


def fold(facts):
    if False in facts:
        return False
    return None if None in facts else True


def variables(rep, R):
    mod = codec.load([r"^wreport::Var::(diff|operator==|operator!=)\("], noinline=NOIN)
    V = Vars(mod)
    M = V.M
    types = list(M.types)
    combos = [((t1, t2), 0, 0, 2) for t1 in types for t2 in types]
    combos += [(("Integer", "Integer"), a, b, None) for a in range(3) for b in range(3) if a + b]
    combos += [(("Integer", "Integer"), a, b, None) for a, b in ((0, 3), (3, 0), (1, 3), (3, 1))]
    combos += [((t, t), 1, 1, 2) for t in types if t != "Integer"] + [(("Integer", "String"), 1, 0, 2), (("String", "String"), 0, 1, 2)]
    for pat, rule in ((r"^wreport::Var::operator==\(", "eq"), (r"^wreport::Var::operator!=\(", "eq"), (r"^wreport::Var::diff\(", "diff")):
        f = mod.find(pat)
        for (t1, t2), n1, n2, blen in combos:
            x, y = obj("first"), obj("second")
            xs = [x] + [obj("first.attr%d" % k) for k in range(n1)]
            ys = [y] + [obj("second.attr%d" % k) for k in range(n2)]

            def init(I, st):
                for l, t in ((xs, t1), (ys, t2)):
                    for k, v in enumerate(l):
                        V.setup(I, st, v, t if k == 0 else "Integer", l[k + 1] if k + 1 < len(l) else C(0, 64), blen)
                    for a, b in itertools.combinations(l[1:], 2):
                        st.assume(I.icmp(st, "ult", M.inf(a, "code"), M.inf(b, "code")), True)
            I = Interp(mod, f, hooks=VHOOKS + Sink().hooks(), unroll=20, fork_exits=True, max_paths=60000, into=r"^wreport::Var::(diff|operator==|operator!=)\(")
            ps = I.run(args={0: x, 1: y}, init=init)
            desc = "%s, types %s and %s, %d and %d attributes" % (f.short.split("::")[-1], t1, t2, n1, n2)
            got = set()
            for p in ps:
                if p.end == "throw":
                    continue
                if p.end != "ret":
                    rep.bad(R[rule], f.where, "%s: does not return (%s)" % (desc, p.end))
                    continue
                st = p.st
                facts = [V.same(I, st, a, b) for a, b in zip(xs, ys)]
                if n1 != n2:
                    facts.append(False)
                want = fold(facts)
                res = st.decide(I.mkeq(st, p.ret, C(0, p.ret.w)))
                if "operator==" in pat and res is not None:
                    res = not res
                if want is None or res is None:
                    if foreign(p):
                        continue
                    rep.bad(R[rule], f.where, "%s: %s is returned where the variables %s" % (desc, p.ret, "are equal" if want else "differ" if want is False else "may be equal or different (last branch at %s)" % (p.ins.loc if p.ins is not None else "?")))
                    continue
                got.add(want)
                rep.check(res is want, R[rule], f.where, "%s: the answer is %s where the variables %s" % (desc, p.ret, "are equal" if want else "differ"), what="%s %s" % (desc, want))
            if n1 == n2 and t1 == t2 and True not in got and any(foreign(p) for p in ps) is False:
                rep.bad(R[rule], f.where, "%s: no trace finds equal variables equal" % desc)


def foreign(p):
    """the trace used something that is not modelled"""
    return any(e.kind in ("call", "icall") and e.res is not None and not (e.snap or "").startswith(("llvm.", "operator ")) for e in p.ev)


# ------------------------------------------------------------------ what strings and paths are

class Idents:
    """strings and paths that are only compared: objects are identified by where they come from"""

    def __init__(self, mod, sizes):
        self.S = Sink()
        self.mod, self.vs = mod, sizes

    def ident(self, st, a):
        r = st.objs.get(("ident", a))
        if r is not None:
            return r
        s = st.objs.get(("str", a))
        if s is not None and s[0] and all(x[0] == "b" for x in s[0]):
            return mk("text", 64, tuple(x[1] for x in s[0]))
        return mk("contents", 64, a)

    def equal(self, I, st, a, b):
        x, y = self.ident(st, a), self.ident(st, b)
        if x is y:
            return C(1, 1)
        if x.k == "text" and y.k == "text":
            return C(0, 1)
        if x.n > y.n:
            x, y = y, x
        return mk("same text", 1, x, y)

    def h_eq(self, I, st, i, a):
        return self.equal(I, st, a[0], a[1])

    def h_ne(self, I, st, i, a):
        return I.neg(self.equal(I, st, a[0], a[1]))

    def h_compare(self, I, st, i, a):
        e = self.equal(I, st, a[0], a[1])
        return mk("sel", 32, e, C(0, 32), C(1, 32)) if not isc(e) else C(0 if e.a[0] else 1, 32)

    def h_virtual(self, I, st, i, a):
        cv = a[0]
        sret = len(a) > 2 and i.ty in (None, "void")
        if cv.k != "ld" or len(a) not in (2, 3):
            return NotImplemented
        o = a[2] if sret else a[1]
        slot = split(cv.a[0])[1]
        r = mk("virtual", 64, o, slot)
        if sret:
            st.objs[("ident", a[1])] = r
            return True
        if i.ty == "ptr":
            st.objs[("ident", r)] = r
            I.ptr.add(r)
            return r
        return NotImplemented

    def h_copy(self, I, st, i, a):
        st.objs[("ident", a[0])] = self.ident(st, a[1])
        return NotImplemented

    def h_view(self, I, st, i, a):
        r = mk("view", 64, a[0])
        st.objs[("ident", r)] = self.ident(st, a[0])
        I.ptr.add(r)
        return r

    def h_cstr(self, I, st, i, a):
        self.S.h_assign_cstr(I, st, i, a)
        return True

    def hooks(self):
        P = r"^std::filesystem::__cxx11::"
        return [(r"<indirect>", self.h_virtual), (r"^(bool )?std::operator==<char", self.h_eq), (r"^(bool )?std::operator!=<char", self.h_ne),
                (P + r"operator==\(", self.h_eq), (P + r"operator!=\(", self.h_ne), (P + r"path::compare\(std::filesystem::__cxx11::path const&\)", self.h_compare),
                (r"^std::__cxx11::basic_string<.*>::compare\(std::__cxx11::basic_string", self.h_compare),
                (P + r"path::(path|operator=)\(std::filesystem::__cxx11::path", self.h_copy_true),
                (P + r"path::(native|c_str)\(\)", self.h_view), (P + r"path::(string)\(\)", self.h_copy_ret), (P + r"path::~path", lambda I, st, i, a: True),
                (r"^std::__cxx11::basic_string<.*>::basic_string<std::allocator<char>\s*>\(char const\*", self.h_cstr),
                (r"^std::__cxx11::basic_string<.*>::basic_string\(std::__cxx11::basic_string", self.h_copy),
                (r"^strcmp$", self.h_strcmp), (LOG, opaque)]

    def h_copy_true(self, I, st, i, a):
        self.h_copy(I, st, i, a)
        return True

    def h_copy_ret(self, I, st, i, a):
        st.objs[("ident", a[0])] = self.ident(st, a[1])
        return True

    def h_strcmp(self, I, st, i, a):
        t = []
        for x in a[:2]:
            r, o = split(x)
            s = self.mod.cstr(r.a[0] + ("+%d" % o if o else "")) if r.k == "glob" else None
            t.append(s)
        if None not in t:
            return C(0 if t[0] == t[1] else 1, 32)
        e = self.equal(I, st, a[0], a[1])
        return mk("sel", 32, e, C(0, 32), C(1, 32)) if not isc(e) else C(0 if e.a[0] else 1, 32)


def vdiff(name, eq):
    """difference between two parts, known from their own analysis: 0 when they are equal"""
    def h(I, st, i, a):
        t = st.objs.get(("differs",) + tuple(a[:2]))
        st.objs.setdefault(("asked",), set())
        st.objs[("asked",)] = st.objs[("asked",)] | {tuple(a[:2])}
        if t is None:
            t = mk("diff of", 32, *a[:2])
            st.setiv(t, slo=0, shi=1 << 20, ulo=0, uhi=1 << 20)
        if eq is None:
            return t
        r = I.mkeq(st, t, C(0, 32))
        return r if eq else I.neg(r)
    return (name, h)


VD = [vdiff(r"^wreport::Var::diff\(", None), vdiff(r"^wreport::Var::operator==\(", True), vdiff(r"^wreport::Var::operator!=\(", False)]


# ------------------------------------------------------------------ subsets

def subsets(rep, R):
    mod = codec.load([SD], noinline=NOIN)
    f = mod.find(SD)
    fo = {n: o for o, sz, n, t in mod.fields("wreport::Subset")}
    if "tables" not in fo:
        raise ToolError("Subset has no member tables")
    to = {n: o for o, sz, n, t in mod.fields("wreport::Tables")}
    vsz = codec.vec_sizes(mod)["wreport::Var"]
    a, b = obj("first"), obj("second")
    rule = R["sub"]
    for n in range(4):
        for m in range(4):
            for diffs in [()] + [(k,) for k in range(min(n, m))] + ([(0, 1)] if min(n, m) > 1 else []):
                for path in ("pointer", "same", "other"):
                    if (n != m or diffs) and path == "other":
                        continue
                    ids = Idents(mod, None)
                    vec = lambda o, k: add(mk("vdata", 64, o), C(k * vsz, 64))

                    def init(I, st):
                        bt = []
                        for o in (a, b):
                            t = I.load(st, add(o, C(fo["tables"], 64)), "ptr", 8)
                            st.assume(mk("eq0", 1, t), False)
                            x = I.load(st, add(t, C(to["btable"], 64)), "ptr", 8)
                            st.assume(mk("eq0", 1, x), False)
                            bt.append(x)
                        if path == "pointer":
                            t = I.load(st, add(a, C(fo["tables"], 64)), "ptr", 8)
                            I.store(st, add(b, C(fo["tables"], 64)), t, 8)
                        for o, k in ((a, n), (b, m)):
                            st.assume(I.mkeq(st, mk("vsize", 64, o, 0), C(k, 64)), True)
                        for k in range(min(n, m)):
                            t = mk("diff of", 32, vec(a, k), vec(b, k))
                            st.setiv(t, slo=0, shi=1 << 20, ulo=0, uhi=1 << 20)
                            st.objs[("differs", vec(a, k), vec(b, k))] = t if k in diffs else C(0, 32)
                            if k in diffs:
                                st.assume(I.mkeq(st, t, C(0, 32)), False)
                        if path != "pointer":
                            st.objs[("tables",)] = tuple(bt)
                    I = Interp(mod, f, hooks=VD + ids.hooks() + ids.S.hooks() + ids.S.vhooks(codec.vec_sizes(mod)), unroll=20, fork_exits=True)
                    ps = I.run(args={0: a, 1: b}, init=init)
                    desc = "%d and %d variables, %s, tables %s" % (n, m, "variables %s differ" % list(diffs) if diffs else "equal variables", path)
                    seen = False
                    for p in ps:
                        if p.end != "ret":
                            rep.bad(rule, f.where, "%s: %s %s" % (desc, p.end, p.what or ""))
                            continue
                        same = [v for c, v in p.st.known.items() if c.k == "same text"]
                        # traces of the other kind of tables
                        if path == "same" and False in same or path == "other" and True in same:
                            continue
                        if path == "other" and not same:
                            rep.bad(rule, f.where, "%s: the tables are not compared" % desc)
                            continue
                        seen = True
                        want = n == m and not diffs and path != "other"
                        res = p.st.decide(I.mkeq(p.st, p.ret, C(0, p.ret.w)))
                        rep.check(res is want, rule, f.where, "%s: the number of differences is %s" % (desc, p.ret), what=desc)
                    if not seen:
                        rep.bad(rule, f.where, "%s: no outcome" % desc)


# ------------------------------------------------------------------ bulletins

BASE = ["master_table_number", "data_category", "data_subcategory", "data_subcategory_local", "originating_centre", "originating_subcentre",
        "update_sequence_number", "rep_year", "rep_month", "rep_day", "rep_hour", "rep_minute", "rep_second"]
OWN = {"Bufr": ["edition_number", "master_table_version_number", "master_table_version_number_local"],
       "Crex": ["edition_number", "master_table_version_number", "master_table_version_number_bufr", "master_table_version_number_local", "has_check_digit"]}


def bulletins(rep, R):
    D = r"^wreport::(Bulletin|BufrBulletin|CrexBulletin)::(diff|diff_details|encoding_name)\("
    mod = codec.load([D], noinline=NOIN + [SD, D])
    f = mod.find(r"^wreport::Bulletin::diff\(")
    B = {}
    for k in ("Bufr", "Crex"):
        cls = "wreport::%sBulletin" % k
        B[k] = {n: (o, sz) for o, sz, n, t in mod.fields(cls)}
        for n in BASE + OWN[k] + ["tables", "datadesc", "subsets"]:
            if n not in B[k]:
                raise ToolError("%s has no member %s" % (cls, n))
    to = {n: o for o, sz, n, t in mod.fields("wreport::Tables")}
    sizes = codec.vec_sizes(mod)
    ssz = sizes["wreport::Subset"]
    x, y = obj("first"), obj("second")
    sdh = vdiff(SD, None)

    def h_cast(I, st, i, a):
        vt = I.load(st, a[0], "ptr", 8)
        g = split(vt)[0]
        if g.k != "glob" or a[2].k != "glob":
            return NotImplemented
        return a[0] if g.a[0][4:] == a[2].a[0][4:] else C(0, 64)

    def go(kx, ky, diff, nd=2, ns=2, nd2=None, ns2=None):
        """diff: names of what differs; everything else is equal"""
        ids = Idents(mod, None)
        tk = "same"
        for d in diff:
            if d.startswith("tables"):
                tk = d

        def init(I, st):
            for o, k in ((x, kx), (y, ky)):
                st.assume(mk("eq0", 1, o), False)
                I.store(st, o, add(mk("glob", 64, "_ZTVN7wreport12%sBulletinE" % k), C(16, 64)), 8)
            fx, fy = B[kx], B[ky]
            for n in BASE + sorted(set(OWN[kx]) & set(OWN[ky])):
                (ox, sz), (oy, _) = fx[n], fy[n]
                vx = I.load(st, add(x, C(ox, 64)), "i%d" % (8 * sz), sz)
                if n in diff:
                    vy = I.load(st, add(y, C(oy, 64)), "i%d" % (8 * sz), sz)
                    if n == "has_check_digit":
                        for v in (vx, vy):
                            st.setiv(v, ulo=0, uhi=1, slo=0, shi=1)
                    st.assume(I.mkeq(st, vx, vy), False)
                else:
                    I.store(st, add(y, C(oy, 64)), vx, sz)
            for t in ("btable", "dtable"):
                px, py = (add(o, C(b["tables"][0] + to[t], 64)) for o, b in ((x, fx), (y, fy)))
                vx = I.load(st, px, "ptr", 8)
                if "tables %s null" % t in diff:
                    st.assume(mk("eq0", 1, vx), False)
                    I.store(st, py, C(0, 64), 8)
                elif "tables %s unset" % t in diff:
                    vy = I.load(st, py, "ptr", 8)
                    st.assume(mk("eq0", 1, vy), False)
                    I.store(st, px, C(0, 64), 8)
                elif "tables %s" % t in diff:
                    vy = I.load(st, py, "ptr", 8)
                    st.assume(mk("eq0", 1, vx), False)
                    st.assume(mk("eq0", 1, vy), False)
                else:
                    I.store(st, py, vx, 8)
            if kx == ky == "Bufr":
                o = fx["optional_section"][0]
                ax, ay = add(x, C(o, 64)), add(y, C(o, 64))
                lx, ly = (mk("strlen", 64, q, 0) for q in (ax, ay))
                for l in (lx, ly):
                    st.setiv(l, slo=0, shi=1 << 24, ulo=0, uhi=1 << 24)
                if "optional_section" in diff:
                    st.assume(ids.equal(I, st, ax, ay), False)
                elif "optional_section length" in diff:
                    st.assume(ids.equal(I, st, ax, ay), False)
                    st.assume(I.mkeq(st, lx, ly), False)
                else:
                    st.objs[("ident", ay)] = ids.ident(st, ax)
                    st.objs[("str", ay)] = ((), lx)
            vx, vy = (add(o, C(b["datadesc"][0], 64)) for o, b in ((x, fx), (y, fy)))
            n2 = nd if nd2 is None else nd2
            st.assume(I.mkeq(st, mk("vsize", 64, vx, 0), C(nd, 64)), True)
            st.assume(I.mkeq(st, mk("vsize", 64, vy, 0), C(n2, 64)), True)
            for k in range(min(nd, n2)):
                ax, ay = (add(mk("vdata", 64, v), C(2 * k, 64)) for v in (vx, vy))
                e = I.load(st, ax, "i16", 2)
                if "datadesc %d" % k in diff:
                    st.assume(I.mkeq(st, e, I.load(st, ay, "i16", 2)), False)
                else:
                    I.store(st, ay, e, 2)
            vx, vy = (add(o, C(b["subsets"][0], 64)) for o, b in ((x, fx), (y, fy)))
            n2 = ns if ns2 is None else ns2
            st.assume(I.mkeq(st, mk("vsize", 64, vx, 0), C(ns, 64)), True)
            st.assume(I.mkeq(st, mk("vsize", 64, vy, 0), C(n2, 64)), True)
            for k in range(min(ns, n2)):
                ax, ay = (add(mk("vdata", 64, v), C(ssz * k, 64)) for v in (vx, vy))
                t = mk("diff of", 32, ax, ay)
                st.setiv(t, slo=0, shi=1 << 20, ulo=0, uhi=1 << 20)
                st.objs[("differs", ax, ay)] = t if "subset %d" % k in diff else C(0, 32)
                if "subset %d" % k in diff:
                    st.assume(I.mkeq(st, t, C(0, 32)), False)
        I = Interp(mod, f, hooks=[sdh, (r"^__dynamic_cast$", h_cast)] + ids.hooks() + ids.S.hooks() + ids.S.vhooks(sizes), unroll=20, fork_exits=True, into=D)
        ps = I.run(args={0: x, 1: y}, init=init)
        res = set()
        want = None
        for p in ps:
            if p.end != "ret":
                res.add("%s %s" % (p.end, p.what or ""))
                continue
            same = [v for c, v in p.st.known.items() if c.k == "same text" and c.a[0].k == "virtual"]
            if any(d in ("tables btable", "tables dtable") for d in diff) and True in same:
                continue
            z = p.st.decide(I.mkeq(p.st, p.ret, C(0, 32)))
            res.add({True: "no differences", False: "differences", None: "possibly no differences"}[z])
        return res

    runs = 0
    for k in ("Bufr", "Crex"):
        for nd, ns in ((0, 0), (1, 0), (0, 1), (2, 2)):
            r = go(k, k, (), nd, ns)
            runs += 1
            rep.check(r == {"no differences"}, R["same"], f.where, "two equal %s bulletins with %d descriptors and %d subsets: %s" % (k.upper(), nd, ns, ", ".join(sorted(r)) or "no outcome"), what="%s %d %d" % (k, nd, ns))
        parts = BASE + OWN[k] + ["tables %s%s" % (t, w) for t in ("btable", "dtable") for w in ("", " null", " unset")] + ["datadesc 0", "datadesc 1", "subset 0", "subset 1"]
        if k == "Bufr":
            parts += ["optional_section", "optional_section length"]
        for p in parts:
            r = go(k, k, (p,))
            runs += 1
            rep.check(r == {"differences"}, R["one"], f.where, "%s bulletins that differ only in %s: %s" % (k.upper(), p, ", ".join(sorted(r)) or "no outcome"), what="%s %s" % (k, p))
        for p, q in itertools.combinations(parts, 2):
            if p.startswith("tables") and q.startswith("tables") or p.startswith("opt") and q.startswith("opt"):
                continue
            r = go(k, k, (p, q))
            runs += 1
            rep.check(r == {"differences"}, R["one"], f.where, "%s bulletins that differ in %s and %s: %s" % (k.upper(), p, q, ", ".join(sorted(r)) or "no outcome"), what="%s %s %s" % (k, p, q))
        for nd, nd2, ns, ns2 in ((0, 1, 1, 1), (2, 1, 1, 1), (1, 2, 0, 0), (1, 1, 0, 1), (1, 1, 2, 1), (0, 0, 1, 2)):
            r = go(k, k, (), nd, ns, nd2, ns2)
            runs += 1
            rep.check(r == {"differences"}, R["one"], f.where, "%s bulletins with %d and %d descriptors, %d and %d subsets: %s" % (k.upper(), nd, nd2, ns, ns2, ", ".join(sorted(r)) or "no outcome"), what="%s sizes" % k)
    for kx, ky in (("Bufr", "Crex"), ("Crex", "Bufr")):
        r = go(kx, ky, ())
        runs += 1
        rep.check(r == {"differences"}, R["one"], f.where, "a %s and a %s bulletin: %s" % (kx.upper(), ky.upper(), ", ".join(sorted(r)) or "no outcome"), what="%s %s" % (kx, ky))
    rep.count("bulletin comparisons", runs)


# ------------------------------------------------------------------ clear

SKIP = {"tables": "checked as a whole"}


def clear(rep, R):
    C_ = r"^wreport::(BufrBulletin|CrexBulletin)::(clear|BufrBulletin|CrexBulletin)\("
    mod = codec.load([C_], noinline=codec.STRNO + [r"^wreport::(Tables|Subset|Var)::", r"^std::vector<.*>::(clear|resize|erase)\(", r"^std::vector<.*>::operator="])
    for k in ("Bufr", "Crex"):
        cls = "wreport::%sBulletin" % k
        ctor = mod.find(r"^wreport::%sBulletin::%sBulletin\(\)" % (k, k))
        clr = mod.find(r"^wreport::%sBulletin::clear\(" % k)
        out = []
        this = obj("bulletin")
        for f in (ctor, clr):
            S = Sink()

            def h_vclear(I, st, i, a):
                if "resize(" in (i.callee or "") and not (isc(a[1]) and a[1].a[0] == 0):
                    return NotImplemented
                st.objs[("emptied", a[0])] = True
                return True

            def h_tclear(I, st, i, a):
                st.objs[("emptied", a[0])] = True
                return True

            def init(I, st):
                st.assume(mk("eq0", 1, this), False)
            I = Interp(mod, f, hooks=[(r"^std::vector<.*>::(clear|resize)\(", h_vclear), (r"^wreport::Tables::(clear|Tables)\(", h_tclear)] + S.hooks(), unroll=20)
            ps = [p for p in I.run(args={0: this}, init=init)]
            if not ps:
                raise ToolError("no outcome of %s" % f.dem)
            out.append((f, I, S, ps))
        flds = [(o, sz, n, t) for o, sz, n, t in mod.fields(cls) if not n.startswith("_vptr")]
        for o, sz, n, t in flds:
            a = add(this, C(o, 64))
            vals = []
            for f, I, S, ps in out:
                r = set()
                for p in ps:
                    if p.end == "loop":
                        continue
                    if p.end != "ret":
                        r.add("%s %s" % (p.end, p.what))
                        continue
                    if "basic_string" in t or t in ("std::string", "string"):
                        s = p.st.objs.get(("str", a))
                        r.add("empty" if s is not None and isc(s[1]) and s[1].a[0] == 0 else "unchanged")
                    elif "vector" in t:
                        b, e = (I.load(p.st, add(a, C(q, 64)), "ptr", 8) for q in (0, 8))
                        r.add("empty" if p.st.objs.get(("emptied", a)) or b is e or p.st.decide(I.mkeq(p.st, b, e)) is True else "unchanged")
                    elif t.endswith("Tables"):
                        r.add("empty" if p.st.objs.get(("emptied", a)) else "unchanged")
                    else:
                        w = 1 if sz not in (1, 2, 4, 8) else sz
                        for q in range(0, sz, w):
                            v = I.load(p.st, add(a, C(q, 64)), "i%d" % (8 * w), w)
                            r.add(("value", q, v))
                vals.append(r)
            want, got = vals
            rep.check(want == got and not any("unchanged" == v or isinstance(v, tuple) and not isc(v[2]) for v in got | want), R["clear"], out[1][0].where,
                      "%s::clear leaves %s as %s, a new bulletin has %s" % (cls, n, show_set(got), show_set(want)), what="%s %s" % (k, n))


def show_set(s):
    return ", ".join(sorted({str(x[2]) if isinstance(x, tuple) else x for x in s})) or "nothing"
