"""Abstract runs of the data descriptor interpreter on descriptor programs.

Everything the interpreter does itself (loops over descriptors, replication, expansion, operator state, choice of definitions) is followed in
its code; what derived classes do (define_*) is recorded as an event with its operands.  Table B entries are symbolic."""
import re
from . import codec
from .absint import *
from .sink import Sink
from .seq import obj
from .var import VarModel
from .build import ToolError

IT = "wreport::bulletin::Interpreter"
INTO = r"^wreport::bulletin::(Interpreter|Bitmaps?)::(?!define_)"
LEAVES = ["define_delayed_replication_factor", "define_bitmap_delayed_replication_factor", "define_associated_field_significance", "define_c03_refval_override",
          "define_variable_with_associated_field", "define_variable", "define_substituted_value", "define_attribute", "define_raw_character_data", "define_bitmap"]
MAP = r"^std::map<unsigned short, (unsigned )?int,"


def F(f, x, y):
    return f << 14 | x << 8 | y


def name(c):
    return "%s%02d%03d" % ("BRCD"[c >> 14], c >> 8 & 63, c & 255)


def load():
    return codec.load([r"^wreport::bulletin::(Interpreter|Bitmap|Bitmaps)::"],
                      noinline=codec.STRNO + [r"^wreport::notes::", r"^std::(stack|deque|map)<", r"^wreport::(Vartable|DTable|Tables|Var)::", r"^wreport::bulletin::Interpreter::",
                                              r"^wreport::bulletin::Bitmaps?::", r"^str(n)?cmp$"])


class Vecs:
    """vectors of known size: elements live in an object of their own, and the three pointers are kept up to date"""
    V = r"^std::vector<.*>::"

    def __init__(self, sizes):
        self.S = Sink()
        self.S.sizes = sizes

    def hooks(self):
        V = self.V
        return [(V + r"size\(\) const", self.size), (V + r"empty\(\) const", self.empty), (V + r"(begin|cbegin|data|front)\(\)( const)?$", self.begin),
                (V + r"(end|cend)\(\)( const)?$", self.end), (V + r"(operator\[\]|at)\(unsigned long\)", self.index), (V + r"(push_back|emplace_back)", self.push),
                (V + r"reserve\(", lambda I, st, i, a: True), (V + r"back\(\)", self.back), (V + r"clear\(\)", self.clear)]

    def n(self, st, v):
        return st.objs.get(("cvec", v), 0)

    def data_of(self, v):
        return obj("elements of %r" % (v,))

    def data(self, st, v):
        d = self.data_of(v)
        st.assume(mk("eq0", 1, d), False)
        return d

    def setn(self, I, st, v, n, es):
        st.objs[("cvec", v)] = n
        d = self.data(st, v)
        for k, x in ((0, d), (8, add(d, C(n * es, 64))), (16, add(d, C(n * es, 64)))):
            I.store(st, add(v, C(k, 64)), x, 8)

    def size(self, I, st, i, a):
        return C(self.n(st, a[0]), 64)

    def empty(self, I, st, i, a):
        return C(0 if self.n(st, a[0]) else 1, 1)

    def begin(self, I, st, i, a):
        d = self.data(st, a[0])
        I.ptr.add(d)
        return d

    def end(self, I, st, i, a):
        return add(self.data(st, a[0]), C(self.n(st, a[0]) * self.S.elsize(i.callee), 64))

    def index(self, I, st, i, a):
        return add(self.data(st, a[0]), scale(a[1], self.S.elsize(i.callee)))

    def back(self, I, st, i, a):
        return add(self.data(st, a[0]), C((self.n(st, a[0]) - 1) * self.S.elsize(i.callee), 64))

    def clear(self, I, st, i, a):
        self.setn(I, st, a[0], 0, self.S.elsize(i.callee))
        return True

    def push(self, I, st, i, a):
        es, n = self.S.elsize(i.callee), self.n(st, a[0])
        if es not in (1, 2, 4, 8):
            return NotImplemented
        I.store(st, add(self.data(st, a[0]), C(n * es, 64)), I.load(st, a[1], "i%d" % (8 * es), es), es)
        self.setn(I, st, a[0], n + 1, es)
        return True


class Machine:
    def __init__(self, mod, cls="_ZTVN7wreport8bulletin11InterpreterE"):
        self.mod, self.cls = mod, cls
        self.fo = {n: (o, sz) for o, sz, n, t in mod.fields(IT)}
        for n in ("tables", "opcode_stack", "bitmaps", "associated_field"):
            if n not in self.fo:
                raise ToolError("Interpreter has no member %s" % n)
        self.af = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::bulletin::AssociatedField")}
        self.bo = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::bulletin::Bitmaps")}
        self.b1 = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::bulletin::Bitmap")}
        self.to = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::Tables")}
        self.M = VarModel(mod)
        self.this = obj("interpreter")
        self.tables, self.bt, self.dt = obj("tables"), obj("btable"), obj("dtable")
        self.runs, self.vsize = 0, mod.types["wreport::Var"]["size"]
        self.V = Vecs(dict(codec.vec_sizes(mod), **{"unsigned int": 4, "unsigned short": 2}))
        self.define = mod.find(r"^wreport::bulletin::Bitmaps::define\(wreport::Var const&, wreport::Subset const&\)")

    def at(self, n):
        return add(self.this, C(self.fo[n][0], 64))

    def info(self, code):
        return mk("info", 64, code if isinstance(code, T) else C(code, 16))

    def inf(self, info, n):
        o, sz = self.M.io[n]
        return mk("ld", 8 * sz, add(info, C(o, 64)), 0)

    # -- models
    def h_virtual(self, I, st, i, a):
        cv, args = a[0], a[1:]
        if cv.k == "glob":
            leaf = next((l for l in LEAVES if re.search(r"\d+%sE" % l, cv.a[0])), None)
            if leaf:
                return self.leaf(I, st, i, leaf, args)
            return NotImplemented
        if self.bt in args[:2]:
            k = args.index(self.bt)
            if i.ty == "ptr" and len(args) == 2:
                r = self.info(args[1])
                I.ptr.add(r)
                st.assume(mk("eq0", 1, r), False)
                return r
            if i.ty == "ptr" and len(args) == 5:
                r = mk("altered", 64, *args[1:])
                I.ptr.add(r)
                st.assume(mk("eq0", 1, r), False)
                return r
            if i.ty == "i1" and len(args) == 2:
                if isc(args[1]):
                    return C(1 if self.known is None or uval(args[1]) in self.known else 0, 1)
                return mk("contains", 1, args[1])
            return NotImplemented
        if self.dt in args[:2] and isc(args[-1]):
            c = uval(args[-1])
            if c not in self.dtable:
                return NotImplemented
            b = self.dtable[c]
            arr = obj("D%05d" % c)
            return mk("insertvalue", "agg", mk("insertvalue", "agg", mk("undef", "agg"), arr, (0,)), add(arr, C(2 * len(b), 64)), (1,))
        return NotImplemented

    def leaf(self, I, st, i, leaf, args):
        o = args[1:]
        af = [I.load(st, add(self.at("associated_field"), C(self.af[n][0], 64)), "i%d" % (8 * self.af[n][1]), self.af[n][1]) for n in ("bit_count", "significance")]
        bits = I.load(st, self.at("c03_refval_override_bits"), "i32", 4) if "c03_refval_override_bits" in self.fo else None
        st.ev.append(Ev("leaf", i, list(o), None, st.loops, snap=(leaf, af, bits)))
        if leaf in ("define_delayed_replication_factor", "define_bitmap_delayed_replication_factor"):
            n = st.objs.get(("nfactor",), 0)
            st.objs[("nfactor",)] = n + 1
            return C(self.factors[n] if n < len(self.factors) else 1, 32)
        if leaf == "define_associated_field_significance":
            return mk("significance", 32)
        if leaf == "define_c03_refval_override":
            self.map_put(I, st, self.at("c03_refval_overrides"), o[0], mk("refval", 32, o[0]))
        if leaf == "define_bitmap":
            # what every derived class does: the bitmap is defined on the values so far
            n = st.objs.get(("nbitmap",), 0)
            st.objs[("nbitmap",)] = n + 1
            bm = self.present[n] if n < len(self.present) else "+"
            return ("into", self.define, [self.at("bitmaps"), self.bitmap(I, st, n, bm), self.subset(I, st, self.values)])
        return True

    def bitmap(self, I, st, n, bm):
        """an abstract bitmap variable"""
        v, inf, d = obj("bitmapvar%d" % n), obj("bitmapinfo%d" % n), obj("bitmapstr%d" % n)
        for o in (v, inf, d):
            st.assume(mk("eq0", 1, o), False)
        I.store(st, add(v, C(self.M.vo["m_info"][0], 64)), inf, 8)
        I.store(st, add(inf, C(self.M.io["len"][0], 64)), C(len(bm), 32), 4)
        for k, ch in enumerate(bm):
            I.store(st, add(d, C(k, 64)), C(ord(ch), 8), 1)
        I.store(st, add(d, C(len(bm), 64)), C(0, 8), 1)
        return v

    def subset(self, I, st, codes):
        s = obj("subset")
        st.assume(mk("eq0", 1, s), False)
        self.V.setn(I, st, s, len(codes), self.vsize)
        d = self.V.data(st, s)
        for k, c in enumerate(codes):
            i_ = obj("subsetinfo%d" % k)
            I.store(st, add(d, C(self.vsize * k + self.M.vo["m_info"][0], 64)), i_, 8)
            I.store(st, add(i_, C(self.M.io["code"][0], 64)), C(c, 16), 2)
        return s

    def h_vinfo(self, I, st, i, a):
        return I.load(st, add(a[0], C(self.M.vo["m_info"][0], 64)), "ptr", 8)

    def h_vcode(self, I, st, i, a):
        return I.load(st, add(self.h_vinfo(I, st, i, a), C(self.M.io["code"][0], 64)), "i16", 2)

    def h_enqc(self, I, st, i, a):
        r, o = split(a[0])
        if r.k == "arg" and str(r.a[1]).startswith("bitmapvar"):
            return obj("bitmapstr" + str(r.a[1])[9:])
        c = st.objs.get(("copy", a[0]))
        return c if c is not None else NotImplemented

    def h_copy(self, I, st, i, a):
        v = self.h_enqc(I, st, i, [a[1]])
        if v is not NotImplemented:
            st.objs[("copy", a[0])] = v
            I.store(st, add(a[0], C(self.M.vo["m_info"][0], 64)), I.load(st, add(a[1], C(self.M.vo["m_info"][0], 64)), "ptr", 8), 8)
        return True

    def stack(self, st):
        return st.objs.get(("stack",), 0)

    def slot(self, k):
        return mk("stk", 64, k)

    def h_push(self, I, st, i, a):
        n = self.stack(st)
        if len(a) < 2:
            return NotImplemented
        x = self.slot(n)
        for k in (0, 8):
            I.store(st, add(x, C(k, 64)), I.load(st, add(a[1], C(k, 64)), "ptr", 8), 8)
        st.objs[("stack",)] = n + 1
        return True

    def h_top(self, I, st, i, a):
        I.ptr.add(self.slot(self.stack(st) - 1))
        return self.slot(self.stack(st) - 1)

    def h_pop(self, I, st, i, a):
        st.objs[("stack",)] = self.stack(st) - 1
        return True

    def h_empty(self, I, st, i, a):
        return C(1 if self.stack(st) == 0 else 0, 1)

    def map_get(self, st, m):
        return st.objs.get(("map", m), ())

    def map_put(self, I, st, m, k, v):
        d = dict(self.map_get(st, m))
        n = mk("node", 64, m, k)
        st.assume(mk("eq0", 1, n), False)
        st.assume(I.mkeq(st, n, mk("mapend", 64, m)), False)
        d[k] = n
        st.objs[("map", m)] = tuple(d.items())
        I.store(st, add(n, C(32, 64)), k, 2)
        I.store(st, add(n, C(36, 64)), v, 4)
        return n

    def h_map(self, I, st, i, a):
        fn = re.search(r">::(\w+|operator\[\])\(", i.callee).group(1)
        d = dict(self.map_get(st, a[0]))
        if fn == "empty":
            return C(0 if d else 1, 1)
        if fn == "size":
            return C(len(d), 64)
        end = mk("mapend", 64, a[0])
        if fn in ("end", "cend"):
            return end
        if fn == "clear":
            st.objs[("map", a[0])] = ()
            return True
        if fn in ("find", "count", "contains", "operator[]", "at", "erase"):
            k = I.load(st, a[1], "i16", 2)
            n = d.get(k)
            if n is None and not all(isc(x) for x in list(d) + [k]):
                return NotImplemented
            if fn == "find":
                return n if n is not None else end
            if fn == "count":
                return C(1 if n is not None else 0, 64)
            if fn == "contains":
                return C(1 if n is not None else 0, 1)
            if fn == "erase":
                d.pop(k, None)
                st.objs[("map", a[0])] = tuple(d.items())
                return C(1 if n is not None else 0, 64)
            if n is None:
                n = self.map_put(I, st, a[0], k, C(0, 32))
            return add(n, C(36, 64))
        return NotImplemented

    def h_unknown(self, I, st, i, a):
        return mk("unknown", 64, *a[1:])

    def h_strcmp(self, I, st, i, a):
        """units of the definitions"""
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            r, o = split(x)
            g, go = split(y)
            if r.k == "info" and o == self.M.io["unit"][0] and g.k == "glob":
                s = self.mod.cstr(g.a[0] + ("+%d" % go if go else ""))
                u = self.units.get(uval(r.a[0]) if isc(r.a[0]) else None, "K")
                if len(a) > 2 and isc(a[2]):
                    s, u = s[:a[2].a[0]], u[:a[2].a[0]]
                return C(0 if s == u else 1, 32)
        return NotImplemented

    def run(self, prog, dtable=None, factors=(), types=None, units=None, present=(), widths=None, setup=None, values=(), known=None):
        """prog: descriptors (numbers or 16 bit terms)"""
        self.dtable, self.factors, self.present, self.units, self.values = dtable or {}, list(factors), list(present), units or {}, list(values)
        self.known = known
        self.runs += 1
        S = Sink()
        hooks = [(r"<indirect>", self.h_virtual), (r"^std::stack<wreport::Opcodes.*::(push|emplace)", self.h_push), (r"^std::stack<wreport::Opcodes.*::top\(", self.h_top),
                 (r"^std::stack<wreport::Opcodes.*::pop\(", self.h_pop), (r"^std::stack<wreport::Opcodes.*::empty\(", self.h_empty),
                 (MAP, self.h_map), (r"^wreport::Tables::get_unknown\(", self.h_unknown), (r"^strn?cmp$", self.h_strcmp),
                 (r"^wreport::notes::", lambda I, st, i, a: True), (r"^wreport::Var::~Var\(", lambda I, st, i, a: True),
                 (r"^wreport::Var::info\(", self.h_vinfo), (r"^wreport::Var::code\(", self.h_vcode),
                 (r"^wreport::Var::enqc\(", self.h_enqc), (r"^wreport::Var::Var\(wreport::Var const&\)", self.h_copy)]
        hooks += self.V.hooks() + S.hooks()
        f = self.mod.find(r"^wreport::bulletin::Interpreter::run\(")
        this = self.this

        def init(I, st):
            for o in (this, self.tables, self.bt, self.dt):
                st.assume(mk("eq0", 1, o), False)
            I.store(st, this, add(mk("glob", 64, self.cls), C(16, 64)), 8)
            I.store(st, self.at("tables"), self.tables, 8)
            I.store(st, add(self.tables, C(self.to["btable"][0], 64)), self.bt, 8)
            I.store(st, add(self.tables, C(self.to["dtable"][0], 64)), self.dt, 8)
            for n in ("c_scale_change", "c_width_change", "c_scale_ref_width_increase", "c_string_len_override", "c03_refval_override_bits"):
                if n in self.fo:
                    I.store(st, self.at(n), C(0, 32), 4)
            for n in ("bit_count",):
                I.store(st, add(self.at("associated_field"), C(self.af[n][0], 64)), C(0, 32), 4)
            I.store(st, add(self.at("associated_field"), C(self.af["significance"][0], 64)), C(63, 32), 4)
            for n, (o, sz) in self.bo.items():
                I.store(st, add(self.at("bitmaps"), C(o, 64)), C(0, 8 * sz), sz)
            for arr, l in [(obj("program"), prog)] + [(obj("D%05d" % c), l) for c, l in self.dtable.items()]:
                st.assume(mk("eq0", 1, arr), False)
                for k, c in enumerate(l):
                    I.store(st, add(arr, C(2 * k, 64)), c if isinstance(c, T) else C(c, 16), 2)
            self_slot = self.slot(0)
            I.store(st, self_slot, obj("program"), 8)
            I.store(st, add(self_slot, C(8, 64)), add(obj("program"), C(2 * len(prog), 64)), 8)
            st.objs[("stack",)] = 1
            for c, ty in (types or {}).items():
                t = self.inf(self.info(c), "type")
                st.assume(I.mkeq(st, t, C(self.M.types[ty], 32)), True)
            codes = {c for c in list(prog) + [x for l in self.dtable.values() for x in l] if isinstance(c, int)}
            for c in codes:
                if c >> 14 == 0:
                    i_ = self.info(c)
                    if not types or c not in types:
                        st.assume(I.mkeq(st, self.inf(i_, "type"), C(self.M.types["Integer"], 32)), True)
                    I.store(st, add(i_, C(self.M.io["code"][0], 64)), C(c, 16), 2)
            for c, w in (widths or {}).items():
                I.store(st, add(self.info(c), C(self.M.io["bit_len"][0], 64)), C(w, 32), 4)
            if setup:
                setup(I, st)
        I = Interp(self.mod, f, hooks=hooks, unroll=600, fork_exits=True, canon_bits=True, into=INTO, icall_pure=True, max_paths=20000)
        return I, I.run(args={0: this}, init=init)
