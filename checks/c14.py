"""Choice of tables: the closest acceptable one"""
import itertools
import re
from wra import codec, text
from wra.absint import *
from wra.build import ToolError
from wra.dds import Vecs
from wra.seq import obj

BID, CID = "wreport::BufrTableID", "wreport::CrexTableID"
MTV, MTVB, LOC, CE, SC, MT, ED = "master_table_version_number", "master_table_version_number_bufr", "master_table_version_number_local", "originating_centre", "originating_subcentre", "master_table_number", "edition_number"
NUM = {n: k for k, n in enumerate((MTV, MTVB, LOC, CE, SC, MT, ED))}
SAY = {MTV: "version", MTVB: "BUFR version", LOC: "local version", CE: "centre", SC: "subcentre", MT: "master table", ED: "edition"}


def load():
    return codec.load([r"^wreport::(Bufr|Crex)TableID::(operator<|is_acceptable|closest)"], noinline=[])


# -- values of terms
def evaluate(t, env):
    k = t.k
    if k == "c":
        return uval(t)
    m = (1 << t.w) - 1 if isinstance(t.w, int) else None
    if t in env:
        return env[t]
    if k == "arg":
        raise ToolError("value of %s needed" % show(t))
    if k == "lin":
        return (t.a[0] + sum(c * evaluate(x, env) for x, c in t.a[1])) & m
    if k in ("zext", "trunc"):
        return evaluate(t.a[0], env) & m
    if k == "sext":
        x = t.a[0]
        return signed(evaluate(x, env), x.w) & m
    if k == "eq0":
        return int(evaluate(t.a[0], env) == 0)
    if k == "not":
        return 1 - evaluate(t.a[0], env)
    if k == "ult":
        return int(evaluate(t.a[0], env) < evaluate(t.a[1], env))
    if k == "slt":
        return int(signed(evaluate(t.a[0], env), t.a[0].w) < signed(evaluate(t.a[1], env), t.a[1].w))
    if k in ("and", "or", "xor"):
        vs = [evaluate(x, env) for x in t.a]
        r = vs[0]
        for v in vs[1:]:
            r = r & v if k == "and" else r | v if k == "or" else r ^ v
        return r
    if k in ("select", "ite"):
        return evaluate(t.a[1] if evaluate(t.a[0], env) else t.a[2], env)
    if k in ("umin", "umax"):
        return (min if k == "umin" else max)(evaluate(x, env) for x in t.a)
    if k in ("smin", "smax"):
        return (min if k == "smin" else max)(signed(evaluate(x, env), t.w) for x in t.a) & m
    if k == "lshr":
        return evaluate(t.a[0], env) >> evaluate(t.a[1], env)
    if k == "shl":
        return (evaluate(t.a[0], env) << evaluate(t.a[1], env)) & m
    raise ToolError("comparison of identifications by %s" % show(t)[:80])


def symbols(t, out=None):
    out = set() if out is None else out
    if t.k == "arg":
        out.add(t)
    for x in t.a:
        if isinstance(x, T):
            symbols(x, out)
        elif t.k == "lin" and isinstance(x, tuple):
            for y in x:
                symbols(y[0], out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    symbols(y, out)
    return out


def consts(t, out):
    if t.k == "c":
        out.add(uval(t))
    if t.k == "lin":
        out.add(t.a[0])
        out.add(-t.a[0])
        for x, c in t.a[1]:
            consts(x, out)
        return
    for x in t.a:
        if isinstance(x, T):
            consts(x, out)


def literals(c, v):
    """conjunctions of atomic conditions that make c be v"""
    if c.k == "not":
        return literals(c.a[0], not v)
    if c.w == 1 and c.k in ("and", "or") and all(isinstance(x, T) for x in c.a):
        if (c.k == "and") == v:
            r = [[]]
            for x in c.a:
                r = [a + b for a in r for b in literals(x, v)]
            return r
        # the first that decides
        r = []
        for k, x in enumerate(c.a):
            pre = [[]]
            for y in c.a[:k]:
                pre = [a + b for a in pre for b in literals(y, not v)]
            r += [a + b for a in pre for b in literals(x, v)]
        return r
    if c.k in ("select", "ite") and c.w == 1:
        return [a + b for a in literals(c.a[0], True) for b in literals(c.a[1], v)] + [a + b for a in literals(c.a[0], False) for b in literals(c.a[2], v)]
    if c.k == "c":
        return [[]] if bool(uval(c)) == v else []
    return [[(c, v)]]


class Cases:
    """what a function of identifications returns, case by case: a list of (literals, value)"""

    def __init__(self, mod, fn, types, boolean=False):
        self.fn = fn
        k0 = 0
        names = ("wanted", "first", "second") if len(types) == 3 else ("wanted", "candidate")
        self.sym = {}
        ptrs = [mk("arg", 64, k, fn.args[k].get("n") or "arg%d" % k) for k in range(len(types))]

        def init(I, st):
            for j, (p, ty) in enumerate(zip(ptrs, types)):
                st.assume(mk("eq0", 1, p), False)
                for n, (o, sz) in codec.field_offsets(mod, ty).items():
                    s = mk("arg", 8 * sz, 500 + 10 * j + NUM[n], "%s of the %s" % (SAY[n], names[j]))
                    self.sym[j, n] = s
                    I.store(st, add(p, C(o, 64)), s, sz)
        I = Interp(mod, fn, hooks=[], unroll=8, fork_exits=True)
        self.cases = []
        for p in I.run(init=init):
            if p.end != "ret":
                raise ToolError("%s ends with %s" % (fn.where, p.what or p.end))
            conj = [[]]
            for c, v in p.st.known.items():
                if not any(x in self.sym.values() for x in symbols(c)):
                    continue
                conj = [a + b for a in conj for b in literals(c, v)]
            # intervals of the fields themselves
            for x, r in p.st.iv.items():
                if x in self.sym.values():
                    pass
            for a in conj:
                self.split(a, p.ret, boolean)

    def split(self, lits, ret, boolean):
        if ret.k in ("select", "ite"):
            for v, x in ((True, ret.a[1]), (False, ret.a[2])):
                for l in literals(ret.a[0], v):
                    self.split(lits + l, x, boolean)
        elif isc(ret):
            self.cases.append((lits, uval(ret) & 1 if boolean else ret.a[0]))
        elif boolean:
            x = ret.a[0] if ret.k in ("zext", "trunc") else ret
            for v in (True, False):
                for l in literals(x, v):
                    self.cases.append((lits + l, int(v)))
        elif ret.k in ("zext", "sext") and ret.a[0].w == 1:
            for v in (True, False):
                for l in literals(ret.a[0], v):
                    self.cases.append((lits + l, (1 if ret.k == "zext" else -1) if v else 0))
        elif ret.k in ("zext", "sext"):
            self.split(lits, ret.a[0], boolean)
        elif ret.k == "lin" and len(ret.a[1]) <= 2 and all(x.w != 1 and x.k in ("zext", "sext") and x.a[0].w == 1 for x, c in ret.a[1]):
            for vs in itertools.product((True, False), repeat=len(ret.a[1])):
                ls, n = [lits], ret.a[0]
                for v, (x, c) in zip(vs, ret.a[1]):
                    ls = [a + b for a in ls for b in literals(x.a[0], v)]
                    n += c * ((1 if x.k == "zext" else -1) if v else 0)
                for l in ls:
                    self.cases.append((l, n))
        else:
            raise ToolError("%s returns %s" % (self.fn.where, show(ret)[:120]))


class Space:
    """the values a group of symbols can take, up to their order and that of the constants they are compared with"""

    def __init__(self, lits, extra=(), ks=(0,)):
        self.lits = lits
        self.groups = []
        items = [(symbols(c), [(c, v)]) for c, v in lits] + [(set(x), []) for x in extra]
        for s, l in items:
            s, l = set(s), list(l)
            rest = []
            for g in self.groups:
                if g[0] & s:
                    s |= g[0]
                    l = g[1] + l
                else:
                    rest.append(g)
            self.groups = rest + [(s, l)]
        self.vals = []
        for s, l in self.groups:
            self.vals.append((s, self.solve(s, l, ks)))

    def solve(self, s, l, ks):
        s = sorted(s, key=repr)
        cs = set(ks)
        for c, v in l:
            consts(c, cs)
        out = []
        if len(s) > 6:
            raise ToolError("a comparison of %d fields" % len(s))
        top = (1 << max(x.w for x in s)) - 1
        base = set()
        for c in cs:
            for d in (-1, 0, 1):
                base.add(c + d)
        for k in range(1, len(s) + 1):
            base.add(1 + k)
            base.add(40 + k)
        base.add(top)
        base.add(top - 1)
        base = sorted(x for x in base if 0 <= x <= top)
        if len(base) ** len(s) > 3000000:
            base = sorted({0, 1, 2, 3, top} | {c for c in cs if 0 <= c <= top})
        seen = set()
        for vs in itertools.product(base, repeat=len(s)):
            # one of each order
            env = {x: v & ((1 << x.w) - 1) for x, v in zip(s, vs)}
            pts = sorted(set(vs) | {c for c in cs if 0 <= c <= top} | {top})
            key = (tuple(pts.index(v) for v in vs), tuple(p in cs for p in pts)) if not any(c.k == "never" for c, v in l) else vs
            if key in seen:
                continue
            seen.add(key)
            if all(bool(evaluate(c, env)) == v for c, v in l):
                out.append(env)
        return out

    def feasible(self):
        return all(v for s, v in self.vals)

    def of(self, *xs):
        """the values of symbols that belong together"""
        gs = [v for s, v in self.vals if s & set(xs)]
        if len(gs) == 1:
            return gs[0]
        r = [{}]
        for g in gs:
            r = [dict(a, **b) for a in r for b in g]
        return r


def sign(x):
    return (x > 0) - (x < 0)


def centre(wanted, cand):
    return 3 if cand == wanted else 2 if cand == 0 else 1 if cand == 0xffff else 0


def local(w, a, b):
    if w == 0:
        return 0
    ka, kb = ((0, x) if x >= w else (1, -x) for x in (a, b))
    return sign((ka > kb) - (ka < kb))


def closest(rep, mod, q, f, s):
    """the closest of two acceptable tables"""
    fn = mod.find(r"^%s::closest_match\(%s const&, %s const&\) const" % (q, f, s))
    cs = Cases(mod, fn, (q, f, s))
    y = cs.sym
    rule = "the closest table is chosen"
    kind = "%s for %s" % ("between " + " and ".join("BUFR" if x is BID else "CREX" for x in (f, s)), "BUFR" if q is BID else "CREX")
    levels = []

    def level(name, need, cmp):
        levels.append((name, need, cmp))
    v1 = y[1, MTV]
    v2 = y[2, MTVB if f is BID and s is CID else MTV]
    level("version", (v1, v2), lambda e: sign(e[v1] - e[v2]))
    if f is CID and s is CID:
        level("BUFR version", (y[1, MTVB], y[2, MTVB]), lambda e: sign(e[y[1, MTVB]] - e[y[2, MTVB]]))
    c = [y[j, CE] for j in range(3)]

    def cce(e):
        a, b = centre(e[c[0]], e[c[1]]), centre(e[c[0]], e[c[2]])
        return -1 if a > b else 1 if a < b else "same" if a != 3 else 0
    level("centre", tuple(c), cce)
    l = [y[j, LOC] for j in range(3)]
    level("local version", tuple(l), lambda e: local(e[l[0]], e[l[1]], e[l[2]]))
    u = [y[j, SC] for j in range(3)]
    level("subcentre", tuple(u), lambda e: -1 if e[u[1]] == e[u[0]] != e[u[2]] else 1 if e[u[2]] == e[u[0]] != e[u[1]] else 0)
    for lits, ret in cs.cases:
        sp = Space(lits, [n for _, n, _ in levels])
        if not sp.feasible():
            continue
        rep.count("cases", 1)
        # outcomes of the reference, level by level
        def walk(k, path):
            if k == len(levels):
                return {(0, path)}
            name, need, cmp = levels[k]
            out = set()
            res = {}
            for e in sp.of(*need):
                res.setdefault(cmp(e), e)
            for r, e in res.items():
                here = path + ((name, tuple(e[x] for x in need)),)
                if r == "same":
                    out.add((0, here))
                elif r:
                    out.add((r, here))
                else:
                    out |= walk(k + 1, here)
            return out
        for r, path in sorted(walk(0, ()), key=repr):
            rep.check(sign(ret) == r, rule, fn.where, "%s: the %s is chosen where the %s is closer: %s" % (
                kind, {-1: "first", 0: "first, as if they were the same,", 1: "second"}[sign(ret)], {-1: "first", 0: "first, being as good,", 1: "second"}[r],
                "; ".join("%s %s" % (n, "/".join(map(str, v))) for n, v in path)))


def acceptable(rep, mod, q, f):
    fn = mod.find(r"^%s::is_acceptable_replacement\(%s const&\) const" % (q, f))
    cs = Cases(mod, fn, (q, f), boolean=True)
    y = cs.sym
    rule = "a table is acceptable"
    kind = "a %s table for %s" % ("BUFR" if f is BID else "CREX", "BUFR" if q is BID else "CREX")
    conds = []
    if q is BID and f is CID:
        conds = None
    else:
        conds.append(("master table", (y[0, MT], y[1, MT]), lambda e: e[y[0, MT]] == e[y[1, MT]]))
        if f is CID:
            conds.append(("edition", (y[0, ED], y[1, ED]), lambda e: e[y[0, ED]] == e[y[1, ED]]))
        if q is f:
            conds.append(("version", (y[0, MTV], y[1, MTV]), lambda e: e[y[0, MTV]] <= e[y[1, MTV]]))
            if f is CID:
                conds.append(("BUFR version", (y[0, MTVB], y[1, MTVB]), lambda e: e[y[0, MTVB]] <= e[y[1, MTVB]]))
        else:
            conds.append(("version", (y[0, MTVB], y[1, MTV]), lambda e: e[y[0, MTVB]] <= e[y[1, MTV]]))
    for lits, ret in cs.cases:
        sp = Space(lits, [n for _, n, _ in conds or ()])
        if not sp.feasible():
            continue
        rep.count("cases", 1)
        if conds is None:
            rep.check(not ret, rule, fn.where, "%s is accepted" % kind)
            continue
        if ret:
            for name, need, ok in conds:
                bad = [e for e in sp.of(*need) if not ok(e)]
                rep.check(not bad, rule, fn.where, "%s of another %s is accepted: %s" % (kind, name, bad and "%d wanted, %d found" % tuple(bad[0][x] for x in need)))
        else:
            some = [[e for e in sp.of(*need) if ok(e)] for name, need, ok in conds]
            rep.check(not all(some), rule, fn.where, "%s is refused: %s" % (kind, all(some) and ", ".join("%s %d wanted, %d found" % ((n,) + tuple(es[0][x] for x in need)) for (n, need, _), es in zip(conds, some))))


def order(rep, mod, q):
    """identifications are keys of the cache: the order tells all of them apart"""
    fn = mod.find(r"^%s::operator<\(" % q)
    cs = Cases(mod, fn, (q, q), boolean=True)
    y = cs.sym
    rule = "identifications are ordered"
    names = sorted({n for _, n in y}, key=lambda n: NUM[n])
    kind = "BUFR" if q is BID else "CREX"

    def sub(lits, m):
        """the conditions on other identifications"""
        d = {y[0, n]: ident(m[0], n) for n in names}
        d.update({y[1, n]: ident(m[1], n) for n in names})
        return [(rename(c, d), v) for c, v in lits]

    def ident(k, n):
        return mk("arg", y[0, n].w, 900 + 10 * k + NUM[n], "%s of %s" % (SAY[n], "abc"[k]))
    T_ = [l for l, v in cs.cases if v]
    F_ = [l for l, v in cs.cases if not v]
    for x in T_:
        for z in T_:
            sp = Space(sub(x, (0, 1)) + sub(z, (1, 0)))
            rep.check(not sp.feasible(), rule, fn.where, "%s: two identifications are each less than the other: %s" % (kind, example(sp)))
    for x in F_:
        for z in F_:
            l = sub(x, (0, 1)) + sub(z, (1, 0))
            sp = Space(l, [(ident(0, n), ident(1, n)) for n in names])
            if not sp.feasible():
                continue
            for n in names:
                bad = [e for e in sp.of(ident(0, n), ident(1, n)) if e[ident(0, n)] != e[ident(1, n)]]
                rep.check(not bad, rule, fn.where, "%s identifications that differ only by the %s are taken for the same" % (kind, SAY[n]))
    for x in T_:
        for z in T_:
            xy = sub(x, (0, 1)) + sub(z, (1, 2))
            if not Space(xy).feasible():
                continue
            for f in F_:
                sp = Space(xy + sub(f, (0, 2)))
                rep.check(not sp.feasible(), rule, fn.where, "%s: the order is not transitive: %s" % (kind, example(sp)))
    rep.count("cases", len(cs.cases))


def rename(t, d):
    if t in d:
        return d[t]
    if t.k == "lin":
        r = C(t.a[0], t.w)
        for x, c in t.a[1]:
            r = add(r, scale(rename(x, d), c))
        return r
    if not any(isinstance(x, T) for x in t.a):
        return t
    return mk(t.k, t.w, *[rename(x, d) if isinstance(x, T) else x for x in t.a])


def example(sp):
    if not sp.feasible():
        return ""
    return ", ".join("%s %d" % (x.a[1], v) for s, g in sp.vals for x, v in sorted(g[0].items(), key=repr))


# -- searching
def load2():
    return codec.load([r"^wreport::tabledir::Index::find", r"tabledir::\(anonymous namespace\)::[A-Za-z]*Query::", r"^wreport::tabledir::(Dir|Tabledirs)::", r"^wreport::(Bufr|Crex)Bulletin::load_tables", r"^wreport::Tables::load_"],
                      noinline=[r"TableID::(closest|is_acc)", r"^std::map<", r"^std::vector<", r"[&*] std::vector<", r"^void std::vector<", r"std::filesystem", r"^wreport::sys::", r"Tabledirs::(get|find)", r"Index::(find|Index)",
                                r"Tables::load", r"::load_(bufr|crex)\(", r"tabledir::(Table|BufrTable|CrexTable)::[A-Za-z]+\(", r"^wreport::notes::", r"^strlen$"] + codec.STRNO)


TI = {"_ZTIN7wreport8tabledir9BufrTableE": "B", "_ZTIN7wreport8tabledir9CrexTableE": "C"}


def tobj(k):
    return obj("table %d" % k)


def search(rep, mod, what):
    """the best of the acceptable tables of all directories, the first of those that are as good"""
    fn = mod.find(r"^wreport::tabledir::Index::find_%s\(" % what)
    rule = "the best of all tables is found"
    V = Vecs(codec.vec_sizes(mod))
    this = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
    idp = mk("arg", 64, 1, fn.args[1].get("n") or "arg1")
    io = codec.field_offsets(mod, "wreport::tabledir::Index")
    do = codec.field_offsets(mod, "wreport::tabledir::Dir")
    dsz = mod.types["wreport::tabledir::Dir"]["size"]
    to = {c: codec.field_offsets(mod, "wreport::tabledir::%sTable" % n)["id"][0] for c, n in (("B", "Bufr"), ("C", "Crex"))}
    isz = (mod.types[BID if what == "bufr" else CID]["size"] + 7) // 8 * 8
    fields = codec.field_offsets(mod, BID if what == "bufr" else CID)
    NODE, END, SLOT, CACHED = obj("cached entry"), obj("end of the cache"), obj("slot of the cache"), obj("cached table")
    syms = {n: mk("arg", 8 * sz, 600 + NUM[n], "wanted %s" % SAY[n]) for n, (o, sz) in fields.items()}

    def wanted(I, st, p):
        have = {n: I.load(st, add(p, C(o, 64)), "i%d" % (8 * sz), sz) for n, (o, sz) in fields.items()}
        if all(have[n] is syms[n] for n in fields):
            return True
        if any(isc(v) or any(t in syms.values() and t is not syms[n] for t in atoms(v)) for n, v in have.items()):
            return False
        # copied as a whole
        def whole(q):
            return [I.load(st, add(q, C(o, 64)), "i%d" % (8 * w), w) for o, w in [(o, 8) for o in range(0, isz - 7, 8)] + [(o, 2) for o in range(isz - isz % 8, isz - 1, 2)] + ([(isz - 1, 1)] if isz % 2 else [])]
        return whole(p) == whole(idp)
    shapes = ((), ((),), ((0, 1), (2,)), ((), (0, 1, 2)), ((0,), (), (1,)), ((0,),))
    for shape in shapes:
        n = sum(map(len, shape))
        for kinds in itertools.product("BC" if n > 1 else "BCR", repeat=n):
            for ranks in itertools.product((None, 0, 1, 2)[:2 + (n > 1) + (n > 2 and what == "crex" or n > 2)], repeat=n):
                if any(r is not None and k == "R" for k, r in zip(kinds, ranks)):
                    continue
                if what == "bufr" and any(r is not None and k == "C" for k, r in zip(kinds, ranks)):
                    continue        # a CREX table is never acceptable
                one(rep, mod, fn, rule, what, shape, kinds, ranks, V, this, idp, io, do, dsz, to, isz, NODE, END, SLOT, CACHED, syms, fields, wanted)


def one(rep, mod, fn, rule, what, shape, kinds, ranks, V, this, idp, io, do, dsz, to, isz, NODE, END, SLOT, CACHED, syms, fields, wanted):
    n = len(kinds)

    def which(p):
        for k in range(n):
            d = sub(p, tobj(k))
            if isc(d):
                return k if uval(d) == to.get(kinds[k], -1) else None
        return None

    def acc(I, st, i, a):
        k = which(a[1])
        if k is None:
            raise ToolError("acceptable what? at %s" % i.loc)
        if not wanted(I, st, a[0]):
            st.objs["other id"] = i.loc
        return C(ranks[k] is not None, 1)

    def close(I, st, i, a):
        x, y = which(a[1]), which(a[2])
        if x is None or y is None:
            raise ToolError("closest what? at %s" % i.loc)
        if not wanted(I, st, a[0]):
            st.objs["other id"] = i.loc
        if ranks[x] is None or ranks[y] is None:
            st.objs["unacceptable"] = i.loc
            return C(0, 32)
        return C(sign(ranks[x] - ranks[y]), 32)

    def cast(I, st, i, a):
        k = next((k for k in range(n) if a[0] is tobj(k)), None)
        t = TI.get(a[2].a[0]) if a[2].k == "glob" else None
        if k is None or t is None:
            raise ToolError("dynamic cast at %s" % i.loc)
        return tobj(k) if kinds[k] == t else C(0, 64)

    def find(I, st, i, a):
        good = wanted(I, st, a[1])
        def yes(I, s):
            s.objs["found"] = good
            return NODE

        def no(I, s):
            s.objs["found"] = None
            return END
        return ("fork", [yes, no])

    def slot(I, st, i, a):
        if not wanted(I, st, a[1]):
            st.objs["wrong key"] = i.loc
        return SLOT

    def insert(I, st, i, a):
        if len(a) not in (2, 3):
            raise ToolError("cached in another way at %s" % i.loc)
        if not wanted(I, st, a[1]):
            st.objs["wrong key"] = i.loc
        I.store(st, SLOT, I.load(st, a[2] if len(a) == 3 else add(a[1], C(isz, 64)), "ptr", 8), 8)
        return mk("insertvalue", "agg", mk("insertvalue", "agg", mk("undef", "agg"), NODE, (0,)), C(1, 8), (1,))
    M_ = r"std::map<.*>::"
    I = Interp(mod, fn, hooks=V.hooks() + [(r"is_acceptable_replacement", acc), (r"closest_match", close), (r"^__dynamic_cast$", cast), (M_ + r"find\(", find), (M_ + r"c?end\(\)", lambda I, st, i, a: END),
                                           (M_ + r"(operator\[\]|at)\(", slot), (M_ + r"(insert|emplace|try_emplace|insert_or_assign)", insert), (r"^wreport::notes::", lambda I, st, i, a: True),
                                           (r"c_str\(\)|::data\(\)", lambda I, st, i, a: obj("text"))],
               unroll=12, fork_exits=True, into=r"tabledir::\(anonymous namespace\)::")
    I.ptr |= {NODE, END, SLOT, CACHED} | {tobj(k) for k in range(n)}

    def init(I, st):
        for x in [NODE, END, SLOT, CACHED, this, idp] + [tobj(k) for k in range(n)]:
            st.assume(mk("eq0", 1, x), False)
        st.assume(mk("eq0", 1, sub(NODE, END)), False)
        I.store(st, add(NODE, C(32 + isz, 64)), CACHED, 8)
        I.store(st, SLOT, C(0, 64), 8)
        for nm, (o, sz) in fields.items():
            I.store(st, add(idp, C(o, 64)), syms[nm], sz)
        dv = add(this, C(io["dirs"][0], 64))
        V.setn(I, st, dv, len(shape), dsz)
        for j, ts in enumerate(shape):
            tv = add(add(V.data_of(dv), C(dsz * j, 64)), C(do["tables"][0], 64))
            V.setn(I, st, tv, len(ts), 8)
            for m, k in enumerate(ts):
                I.store(st, add(V.data_of(tv), C(8 * m, 64)), tobj(k), 8)
    best = {}
    for k in range(n):
        if ranks[k] is not None and (kinds[k] not in best or ranks[k] < ranks[best[kinds[k]]]):
            best[kinds[k]] = k
    exp = best.get("B", best.get("C"))
    if "B" in best and "C" in best and ranks[best["C"]] < ranks[best["B"]]:
        exp = best["C"]
    say = "tables %s in %d directories" % (", ".join("%s %s" % ({"B": "BUFR", "C": "CREX", "R": "other"}[k], "not acceptable" if r is None else "of rank %d" % r) for k, r in zip(kinds, ranks)) or "none", len(shape))
    seen = set()
    for p in I.run(init=init):
        st = p.st
        if p.end != "ret":
            rep.bad(rule, fn.where, "%s: ends with %s" % (say, p.what or p.end))
            continue
        if "found" not in st.objs:
            raise ToolError("cache not looked up in %s" % fn.where)
        if st.objs["found"] is not None:
            seen.add("cached")
            rep.check(st.objs["found"] and p.ret is CACHED, "searches are remembered", fn.where, "a table found before is not returned")
            continue
        seen.add("new")
        got = next((k for k in range(n) if p.ret is tobj(k)), None)
        rep.check("unacceptable" not in st.objs, rule, fn.where, "%s: a table that is not acceptable is considered" % say)
        rep.check("other id" not in st.objs, rule, fn.where, "%s: tables are compared with another identification at %s" % (say, st.objs.get("other id")))
        rep.check(got == exp and (exp is not None or isc(p.ret) and uval(p.ret) == 0), rule, fn.where, "%s: %s is found, %s is the best" % (say, "none" if got is None else "number %d" % (got + 1), "none" if exp is None else "number %d" % (exp + 1)))
        if exp is not None:
            rep.check("wrong key" not in st.objs, "searches are remembered", fn.where, "remembered for another identification at %s" % st.objs.get("wrong key"))
            x = I.load(st, SLOT, "ptr", 8)
            rep.check(x is p.ret or isc(x) and uval(x) == 0, "searches are remembered", fn.where, "another table is remembered than the one returned")
    rep.count("searches", 1)


# -- names of files
NAMES = (("B000203.txt", "C", {MT: (1, 2), ED: (3, 2), MTV: (5, 2)}, {MT: 2, ED: 2, MTV: 2}),
         ("B000000000001100.txt", "B", {SC: (6, 3), CE: (9, 3), MTV: (12, 2), LOC: (14, 2)}, None),
         ("B0000000000085014000.txt", "B", {SC: (6, 4), CE: (10, 4), MTV: (14, 3), LOC: (17, 3)}, None))


def names(rep, mod):
    fn = mod.find(r"^wreport::tabledir::Dir::refresh\(")
    rule = "tables are known by the names of their files"
    this = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
    do = codec.field_offsets(mod, "wreport::tabledir::Dir")
    dn = {n: o for o, sz, n, t in mod.fields("dirent")}["d_name"]
    DE = obj("directory entry")

    def go(chars, fresh=True):
        V = Vecs(codec.vec_sizes(mod))
        S = text.Strs()
        made = []

        def ne(I, st, i, a):
            k = st.objs.get("at", 0)
            return C(1 if k == 0 else 0, 1)

        def nxt(I, st, i, a):
            st.objs["at"] = st.objs.get("at", 0) + 1
            return a[0]

        def ctor(I, st, i, a):
            m = re.search(r"tabledir::(Table|BufrTable|CrexTable)::", i.callee).group(1)
            ids = None
            if m != "Table":
                f = codec.field_offsets(mod, BID if m == "BufrTable" else CID)
                ids = tuple((n, I.load(st, add(a[1], C(o, 64)), "i%d" % (8 * sz), sz)) for n, (o, sz) in sorted(f.items()))
            fnm = a[-1]
            try:
                bs = S.get(I, st, fnm)
            except Exception:
                bs = None
            st.objs["made"] = st.objs.get("made", ()) + ((m, a[0], ids, tuple(bs) if bs is not None else None),)
            return True

        def push(I, st, i, a):
            st.objs["pushed"] = st.objs.get("pushed", ()) + (I.load(st, a[1], "ptr", 8),)
            return True

        def fstat(I, st, i, a):
            return True
        I = Interp(mod, fn, hooks=[(r"Path::iterator::operator!=", ne), (r"Path::iterator::operator==", lambda I, st, i, a: C(0 if st.objs.get("at", 0) == 0 else 1, 1)), (r"Path::iterator::operator\+\+", nxt),
                                   (r"Path::iterator::operator\*", lambda I, st, i, a: DE), (r"Path::iterator::operator->", lambda I, st, i, a: DE), (r"wreport::sys::", lambda I, st, i, a: True),
                                   (r"filesystem::exists", lambda I, st, i, a: C(1, 1)), (r"tabledir::(Table|BufrTable|CrexTable)::\w+\(", ctor), (r"std::vector<wreport::tabledir::Table\*.*>::(push_back|emplace_back)", push),
                                   (r"std::filesystem|path::", lambda I, st, i, a: True), (r"sscanf$", text.h_sscanf)] + S.hooks() + text.hooks(), unroll=40, fork_exits=True)
        I.ptr |= {DE}

        def init(I, st):
            st.assume(mk("eq0", 1, DE), False)
            text.put(I, st, add(DE, C(dn, 64)), chars(st) + [C(0, 8)])
            I.store(st, add(this, C(do["mtime"][0], 64)), C(0, 64), 8)
        return I, I.run(init=init)

    def dig(st, k):
        v = mk("arg", 64, 800 + k, "character %d of the name" % (k + 1))
        st.setiv(v, slo=0, shi=9, ulo=0, uhi=9)
        return text.digit(st, v, 0, 1)

    def digits(name):
        def f(st):
            return [dig(st, k) if c.isdigit() and not fixed(k) else C(ord(c), 8) for k, c in enumerate(name)]
        return f
    for name, kind, at, _ in NAMES:
        lo = min(s for s, w in at.values())
        def fixed(k):
            return not any(s <= k < s + w for s, w in at.values())
        I, ps = go(digits(name))
        n = 0
        for p in ps:
            m = p.st.objs.get("made", ())
            if p.end != "ret" or p.st.objs.get("at", 0) != 1:
                continue
            n += 1
            if not rep.check(len(m) == 1 and m[0][0] == {"B": "BufrTable", "C": "CrexTable"}[kind] and p.st.objs.get("pushed") == (m[0][1],), rule, fn.where, "a file named like %s gives %s" % (name, [x[0] for x in m] or "no table")):
                continue
            got = dict(m[0][2])
            f = codec.field_offsets(mod, BID if kind == "B" else CID)
            for nm, (o, sz) in f.items():
                if nm in at:
                    s, w = at[nm]
                    exp = text.number(I, p.st, [dig(p.st, k) for k in range(s, s + w)])
                    exp = I.resize(p.st, "trunc", exp, 8 * sz)
                else:
                    exp = C(0, 8 * sz)
                rep.check(got[nm] is exp or isc(I.mkeq(p.st, got[nm], exp)) and uval(I.mkeq(p.st, got[nm], exp)), rule, fn.where, "%s of the table in a file named like %s: %s, expected %s" % (SAY[nm], name, show(got[nm])[:90], "characters %d to %d" % (at[nm][0] + 1, sum(at[nm])) if nm in at else "0"))
            if m[0][3] is not None:
                rep.check(len(m[0][3]) == len(name), rule, fn.where, "the file of the table is not the one that was found")
        rep.check(n > 0, rule, fn.where, "no table from a file named like %s" % name)
    def fixed(k):
        return True
    for name, exp in (("D0000000000085014000.txt", ()), ("dballe.txt", ("Table",)), ("B000203.tx", ()), (".txt", ()), ("a.txt", ("Table",)), ("B00203.txt", ()), ("README", ()), ("B0000000000085014000.txt~", ())):
        I, ps = go(digits(name))
        for p in ps:
            if p.end == "ret" and p.st.objs.get("at", 0) == 1:
                m = tuple(x[0] for x in p.st.objs.get("made", ()))
                rep.check(m == exp, rule, fn.where, "a file named %s gives %s" % (name, ", ".join(m) or "no table"))


def asked(rep, mod):
    """the identification asked for is that of the message, and the tables loaded those that were found"""
    rule = "the tables of a message"
    for what, Q in (("Bufr", BID), ("Crex", CID)):
        fn = mod.find(r"^wreport::%sBulletin::load_tables\(" % what)
        this = mk("arg", 64, 0, fn.args[0].get("n") or "arg0")
        mf = codec.field_offsets(mod, "wreport::%sBulletin" % what)
        qf = codec.field_offsets(mod, Q)
        seen = []

        def ask(I, st, i, a):
            seen.append((a[0], {n: I.load(st, add(a[1], C(o, 64)), "i%d" % (8 * sz), sz) for n, (o, sz) in qf.items()}))
            return True

        def init(I, st):
            for n, (o, sz) in mf.items():
                if n in NUM:
                    I.store(st, add(this, C(o, 64)), mk("arg", 8 * sz, 700 + NUM[n], "%s of the message" % SAY[n]), sz)
        I = Interp(mod, fn, hooks=[(r"Tables::load_", ask)], unroll=4)
        I.run(init=init)
        rep.check(len(seen) == 1, rule, fn.where, "tables are loaded %d times" % len(seen))
        for t, q in seen:
            rep.check(t is add(this, C(mf["tables"][0], 64)), rule, fn.where, "other tables are loaded")
            for n, v in q.items():
                rep.check(v.k == "arg" and v.a[0] == 700 + NUM[n], rule, fn.where, "the tables of a %s message are looked for by %s where its %s is meant" % (what.upper(), show(v), SAY[n]))
        low = what.lower()
        fn = mod.find(r"^wreport::Tables::load_%s\(" % low)
        this, idp = (mk("arg", 64, k, fn.args[k].get("n") or "arg%d" % k) for k in (0, 1))
        to = codec.field_offsets(mod, "wreport::tabledir::Table")
        tf = codec.field_offsets(mod, "wreport::Tables")
        TB, LB, LD = obj("table found"), obj("B table"), obj("D table")

        def findt(I, st, i, a):
            if a[-1] is not idp or ("find_" + low) not in i.callee:
                st.objs["other"] = True
            def no(I, s):
                s.objs["none"] = True
                return C(0, 64)
            return ("fork", [lambda I, s: TB, no])

        def copy(I, st, i, a):
            st.objs[("copy of", a[0])] = a[1]
            return True

        def src(st, x):
            while ("copy of", x) in st.objs:
                x = st.objs[("copy of", x)]
            return x

        def loadt(name, r):
            def f(I, st, i, a):
                st.objs["loaded"] = st.objs.get("loaded", ()) + ((name, src(st, a[0]), ("load_" + low) in i.callee),)
                return r
            return f
        I = Interp(mod, fn, hooks=[(r"Tabledirs::get", lambda I, st, i, a: obj("directories")), (r"Tabledirs::find", findt), (r"Vartable::load_", loadt("B", LB)), (r"DTable::load_", loadt("D", LD)),
                                   (r"~basic_string|~path", lambda I, st, i, a: True), (r"basic_string\(|path::path|path::operator|path::string|path::native", copy)], unroll=4, fork_exits=True)
        I.ptr |= {TB, LB, LD}

        def init2(I, st):
            for x in (TB, LB, LD):
                st.assume(mk("eq0", 1, x), False)
        n = 0
        for p in I.run(init=init2):
            st = p.st
            rep.check("other" not in st.objs, rule, fn.where, "another identification is looked for")
            if "none" in st.objs:
                rep.check(p.end == "throw" and "error_notfound" in p.what, rule, fn.where, "no table is found and it is not reported as an error")
                continue
            if p.end != "ret":
                continue
            n += 1
            ld = dict((k, (s, r)) for k, s, r in st.objs.get("loaded", ()))
            for k, f, r, dst in (("B", "btable_pathname", LB, "btable"), ("D", "dtable_pathname", LD, "dtable")):
                rep.check(k in ld and ld[k][0] is add(TB, C(to[f][0], 64)) and ld[k][1], rule, fn.where, "the %s table loaded is not the one of the table that was found" % k)
                rep.check(I.load(st, add(this, C(tf[dst][0], 64)), "ptr", 8) is r, rule, fn.where, "the %s table loaded is not used" % k)
        rep.check(n > 0, rule, fn.where, "tables are never loaded")


def run(rep):
    mod = load()
    for r, n in (("the closest table is chosen", 40), ("a table is acceptable", 8), ("identifications are ordered", 60), ("the best of all tables is found", 100), ("searches are remembered", 50),
                 ("tables are known by the names of their files", 15), ("the tables of a message", 20)):
        rep.rule(r, n)
    for q, f, s in ((BID, BID, BID), (CID, BID, BID), (CID, CID, CID), (CID, BID, CID)):
        closest(rep, mod, q, f, s)
    for q in (BID, CID):
        for f in (BID, CID):
            acceptable(rep, mod, q, f)
    for q in (BID, CID):
        order(rep, mod, q)
    mod = load2()
    search(rep, mod, "bufr")
    search(rep, mod, "crex")
    names(rep, mod)
    asked(rep, mod)
    rep.explanation = ("the comparisons of identifications are interpreted abstractly on symbolic identifications; each case found is checked, for every order of the fields it compares, against the documented preferences; "
                       "searches are interpreted on directories of up to 3 tables of every kind and rank, names of files on symbolic digits")
    rep.assumptions += ["comparisons of fields depend only on their order and on the constants they are compared with (checked: anything else is not accepted)", "searches treat all tables alike (directories of 0 to 3 tables)"]
