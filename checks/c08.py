"""C08: the attributes of a variable are a map from code to value, kept sorted, owned once."""
import itertools
from wra import codec
from wra.absint import *
from wra.seq import obj
from wra.var import *
from wra.build import ToolError

NOIN = codec.STRNO + [r"^wreport::convert_units\(", r"Var::(print|print_without_attrs|diff|format|~Var)\("]


def run(rep):
    n = 4 if rep.tier == "thorough" else 3
    rep.explanation = (
        "The attribute operations of Var are abstractly interpreted on every attribute list of up to %d elements with symbolic increasing codes, "
        "for every position of the code asked for relative to the codes in the list (recursion inlined, loops unrolled). The list that "
        "each operation leaves, the objects it deletes and the objects it returns are compared with a map keyed by code." % n)
    mod = codec.load([r"^wreport::Var::(seta|unseta|enqa|clear_attrs|setattrs|next_attr)\("], noinline=NOIN, rec=n + 1)
    M = VarModel(mod)
    R = {"set": "setting an attribute adds it in code order, or replaces the one with the same code", "get": "an attribute that is there is found, and only that",
         "del": "removing an attribute removes that one only", "own": "what is removed is deleted exactly once, and nothing else is",
         "copy": "all attributes are replaced with copies of those of the other variable"}
    for k, m in (("set", 20), ("get", 10), ("del", 10), ("own", 30), ("copy", 4)):
        rep.rule(R[k], m)
    A = Attrs(rep, R, mod, M)
    for k in range(n + 1):
        for pos in range(2 * k + 1):
            A.seta(k, pos, False)
            A.seta(k, pos, True)
            A.unseta(k, pos)
            A.enqa(k, pos)
        A.clear(k)
        A.next(k)
        for j in range(n):
            A.setattrs(k, j)
    rep.count("functions", len(mod.fns))
    rep.count("abstract lists", A.runs)


class Attrs:
    def __init__(self, rep, R, mod, M):
        self.rep, self.R, self.mod, self.M = rep, R, mod, M
        self.runs = 0

    def link(self, I, st, var, lst):
        """give var the attribute list lst"""
        M = self.M
        prev = var
        for a in lst:
            self.number(I, st, a)
            I.store(st, M.field(prev, "m_attrs"), a, 8)
            prev = a
        I.store(st, M.field(prev, "m_attrs"), C(0, 64), 8)

    def number(self, I, st, var):
        """var is a numeric variable with a value"""
        st.assume(mk("eq0", 1, var), False)
        self.M.set_type(I, st, var, "Integer")
        I.store(st, self.M.field(var, "m_isset"), C(1, 8), 1)

    def copied(self, I, st, x, src):
        """x is a new variable with the definition and value of src"""
        M = self.M
        return (x.k == "new" and M.get(I, st, x, "m_info") is M.info(src) and M.isset(I, st, x) is True and
                M.ival(I, st, x) is mk("ld", 32, M.field(src, "m_value"), 0))

    def order(self, I, st, codes):
        for a, b in itertools.combinations(codes, 2):
            st.assume(I.icmp(st, "ult", a, b), True)
            st.assume(I.mkeq(st, a, b), False)

    def code(self, v):
        return self.M.inf(v, "code")

    def names(self, k, tag="a"):
        return [obj("%s%d" % (tag, i + 1)) for i in range(k)]

    def chain(self, I, st, var, maxn=12):
        r = []
        p = self.M.get(I, st, var, "m_attrs")
        while True:
            if isc(p):
                return r if p.a[0] == 0 else None
            if st.decide(mk("eq0", 1, p)) is True:
                return r
            r.append(p)
            if len(r) > maxn:
                return None
            p = self.M.get(I, st, p, "m_attrs")

    def run(self, pat, args, init):
        f = self.mod.find(pat)
        self.runs += 1
        M = self.M

        def h_dtor(I, st, i, a):
            # the destructor deletes the attribute list as well
            st.ev.append(Ev("dtor", i, [a[0]] + (self.chain(I, st, a[0]) or []), None, st.loops))
            return True

        I = Interp(self.mod, f, hooks=[(r"Var::~Var\(", h_dtor)], unroll=16, fork_exits=True)
        ps = I.run(args=dict(enumerate(args)), init=init)
        if not ps:
            self.rep.bad(self.R["set"], f.where, "no outcome")
        return f, I, ps

    def deleted(self, p):
        r = []
        for e in p.ev:
            if e.kind == "dtor":
                r += e.a
        return r

    def place(self, I, st, code, codes, pos):
        """position 2i: before the i-th code (or after the last), 2i+1: equal to the i-th code"""
        for i, c in enumerate(codes):
            rel = "eq" if pos == 2 * i + 1 else "lt" if pos < 2 * i + 1 else "gt"
            st.assume(I.mkeq(st, code, c), rel == "eq")
            st.assume(I.icmp(st, "ult", code, c), rel == "lt")
            st.assume(I.icmp(st, "ult", c, code), rel == "gt")

    def desc(self, k, pos):
        return "list of %d, code %s" % (k, "of attribute %d" % (pos // 2 + 1) if pos % 2 else "between attributes %d and %d" % (pos // 2, pos // 2 + 1))

    def expected(self, lst, new, pos):
        i = pos // 2
        return lst[:i] + ([new] if new is not None else []) + lst[i + (1 if pos % 2 else 0):]

    def seta(self, k, pos, by_ref):
        M, R, rep = self.M, self.R, self.rep
        this, lst, new = obj("var"), self.names(k), obj("new")
        codes = [self.code(a) for a in lst]
        junk = obj("attr of new")
        holder = obj("unique_ptr")

        def init(I, st):
            self.link(I, st, this, lst)
            self.order(I, st, codes)
            self.number(I, st, new)
            self.link(I, st, new, [junk])
            self.place(I, st, self.code(new), codes, pos)
            if not by_ref:
                I.store(st, holder, new, 8)
        if by_ref:
            pats = [r"^wreport::Var::seta\(wreport::Var const&\)", r"^wreport::Var::seta\(wreport::Var&&\)"]
        else:
            pats = [r"^wreport::Var::seta\(std::unique_ptr<.*&&\)"]
        for pat in pats:
            f, I, ps = self.run(pat, [this, new if by_ref else holder], init)
            want = self.expected(lst, new, pos)
            gone = [lst[pos // 2]] if pos % 2 else []
            for p in ps:
                d = "%s, %s" % (f.short.split("::")[-1], self.desc(k, pos))
                if p.end != "ret":
                    rep.bad(R["set"], f.where, "%s: ends with %s %s" % (d, p.end, p.what))
                    continue
                got = self.chain(I, p.st, this)
                dl = self.deleted(p)
                if by_ref:
                    # a copy of the attribute stands for it
                    cp = [x for x in got or [] if self.copied(I, p.st, x, new)]
                    got2 = None if got is None else [new if x in cp else x for x in got]
                    rep.check(got2 == want, R["set"], f.where, "%s: the list becomes %s instead of %s" % (d, sh(got2), sh(want)), what=d)
                    if "&&" in pat:
                        rep.check(M.isset(I, p.st, new) is False, R["own"], f.where, "%s: the attribute that was moved is still set" % d, what=d)
                    rep.check(not (set(dl) & set([new])) and sorted(map(str, [x for x in dl if x in lst])) == sorted(map(str, gone)), R["own"], f.where,
                              "%s: deletes %s instead of %s" % (d, sh(dl), sh(gone)), what=d)
                else:
                    rep.check(got == want, R["set"], f.where, "%s: the list becomes %s instead of %s" % (d, sh(got), sh(want)), what=d)
                    own = I.load(p.st, holder, "ptr", 8)
                    rep.check(isc(own) and own.a[0] == 0, R["own"], f.where, "%s: the unique_ptr still owns the attribute" % d, what=d)
                    want_d = sorted(map(str, gone + [junk]))
                    rep.check(sorted(map(str, dl)) == want_d, R["own"], f.where, "%s: deletes %s instead of %s" % (d, sh(dl), want_d), what=d)

    def unseta(self, k, pos):
        M, R, rep = self.M, self.R, self.rep
        this, lst = obj("var"), self.names(k)
        codes = [self.code(a) for a in lst]
        code = mk("arg", 16, -1, "code")

        def init(I, st):
            self.link(I, st, this, lst)
            self.order(I, st, codes)
            self.place(I, st, code, codes, pos)
        f, I, ps = self.run(r"^wreport::Var::unseta\(", [this, code], init)
        want = self.expected(lst, None, pos)
        gone = [lst[pos // 2]] if pos % 2 else []
        for p in ps:
            d = "unseta, " + self.desc(k, pos)
            got = self.chain(I, p.st, this)
            rep.check(p.end == "ret" and got == want, R["del"], f.where, "%s: the list becomes %s instead of %s" % (d, sh(got), sh(want)), what=d)
            dl = self.deleted(p)
            rep.check(dl == gone, R["own"], f.where, "%s: deletes %s instead of %s" % (d, sh(dl), sh(gone)), what=d)

    def enqa(self, k, pos):
        M, R, rep = self.M, self.R, self.rep
        this, lst = obj("var"), self.names(k)
        codes = [self.code(a) for a in lst]
        code = mk("arg", 16, -1, "code")

        def init(I, st):
            self.link(I, st, this, lst)
            self.order(I, st, codes)
            self.place(I, st, code, codes, pos)
        f, I, ps = self.run(r"^wreport::Var::enqa\(", [this, code], init)
        want = lst[pos // 2] if pos % 2 else C(0, 64)
        for p in ps:
            d = "enqa, " + self.desc(k, pos)
            ok = p.end == "ret" and (p.ret is want or (isc(want) and p.st.decide(mk("eq0", 1, p.ret)) is True))
            rep.check(ok, R["get"], f.where, "%s: returns %s instead of %s" % (d, p.ret, want), what=d)

    def next(self, k):
        this, lst = obj("var"), self.names(k)
        f, I, ps = self.run(r"^wreport::Var::next_attr\(", [this], lambda I, st: self.link(I, st, this, lst))
        want = lst[0] if lst else C(0, 64)
        for p in ps:
            self.rep.check(p.end == "ret" and p.ret is want, self.R["get"], f.where, "next_attr on a list of %d returns %s" % (k, p.ret), what="next_attr")

    def clear(self, k):
        this, lst = obj("var"), self.names(k)
        f, I, ps = self.run(r"^wreport::Var::clear_attrs\(", [this], lambda I, st: self.link(I, st, this, lst))
        for p in ps:
            got = self.chain(I, p.st, this)
            self.rep.check(p.end == "ret" and got == [], self.R["del"], f.where, "clear_attrs leaves %s" % sh(got), what="clear_attrs")
            dl = self.deleted(p)
            self.rep.check(sorted(map(str, dl)) == sorted(map(str, lst)), self.R["own"], f.where, "clear_attrs deletes %s of %s" % (sh(dl), sh(lst)), what="clear_attrs")

    def setattrs(self, k, j):
        M, R, rep = self.M, self.R, self.rep
        this, lst, src, sl = obj("var"), self.names(k), obj("src"), self.names(j, "s")

        def init(I, st):
            self.link(I, st, this, lst)
            self.link(I, st, src, sl)
        f, I, ps = self.run(r"^wreport::Var::setattrs\(", [this, src], init)
        for p in ps:
            d = "setattrs, %d attributes replaced with %d" % (k, j)
            if p.end != "ret":
                rep.bad(R["copy"], f.where, "%s: ends with %s %s" % (d, p.end, p.what))
                continue
            got = self.chain(I, p.st, this)
            ok = got is not None and len(got) == j and len(set(got)) == j
            if ok:
                for x, s in zip(got, sl):
                    ok &= self.copied(I, p.st, x, s)
            rep.check(ok, R["copy"], f.where, "%s: the list becomes %s" % (d, sh(got)), what=d)
            rep.check(self.chain(I, p.st, src) == sl, R["copy"], f.where, "%s: the attributes of the source change" % d, what=d)
            dl = self.deleted(p)
            rep.check(sorted(map(str, dl)) == sorted(map(str, lst)), R["own"], f.where, "%s: deletes %s" % (d, sh(dl)), what=d)


def sh(l):
    return "an unknown list" if l is None else "[%s]" % ", ".join(str(x) for x in l)
