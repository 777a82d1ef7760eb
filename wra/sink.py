"""Model of std::string as an output buffer: what is appended to it, in which order."""
import re
from .absint import mk, C, add, sub, isc, uval, split, T, aslin, mklin

STR = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::"


def mulc(t, k):
    from .absint import scale
    return scale(t, k)


class Sink:
    """Tracks the std::string objects written by a function.

    Per trace: st.objs[("str", addr)] = (items, size) with items a tuple of
      ("b", term8)            one byte
      ("buf", ptr, len)       len bytes copied from ptr
      ("str", addr)           the contents of another string
      ("?", what)             unknown contents
    """

    def __init__(self):
        self.delta = {}     # (header, addr) -> bytes appended by every iteration
        self.esize = {}

    def learn(self, paths):
        """per-iteration growth of every string, from the traces that came back to a loop header"""
        d = {}
        for p in paths:
            if p.end != "loop":
                continue
            rec = p.st.objs.get(("loopin", p.what), {})
            for addr, (sz0, n) in rec.items():
                now = p.st.objs.get(("str", addr))
                if now:
                    g = sub(now[1], n)
                    d.setdefault((p.what, addr), set()).add(g)
        self.delta = {k: next(iter(v)) if len(v) == 1 else None for k, v in d.items()}

    def on_loop_exit(self, I, st, h):
        rec = st.objs.get(("loopin", h), {})
        for addr, (sz0, n) in rec.items():
            g = self.delta.get((h, addr))
            if g is None or not isc(g):
                continue
            k = ("str", addr)
            it, sz = st.objs[k]
            if g.a[0] == 0:
                t = C(0, 64)
            else:
                t = I.trips(st, h)
                if t is None:
                    continue
            full = add(sz0, mulc(t, g.a[0]))
            new = add(sub(sz, n), full)
            items = tuple(x if not (x[0] == "loop" and x[2] is n) else ("loop", h, full, sz0, t, g.a[0]) for x in it)
            st.objs[k] = (items, new)

    def hooks(self):
        H = [
            (r"append\(char const\*, unsigned long\)", self.h_append_n),
            (r"append\(char const\*\)", self.h_append_cstr),
            (r"append\(unsigned long, char\)", self.h_append_fill),
            (r"append\(std::__cxx11::basic_string", self.h_append_str),
            (r"push_back\(char\)", self.h_push),
            (r"operator\+=\(char\)", self.h_push),
            (r"operator\+=\(char const\*\)", self.h_append_cstr),
            (r"operator\+=\(std::__cxx11::basic_string", self.h_append_str),
            (r"(size|length)\(\) const", self.h_size),
            (r"empty\(\) const", self.h_empty),
            (r"(data|c_str|begin|cbegin)\(\)( const)?$", self.h_data),
            (r"(end|cend)\(\)( const)?$", self.h_end),
            (r"operator\[\]\(unsigned long\)", self.h_index),
            (r"at\(unsigned long\)", self.h_index),
            (r"reserve\(", self.h_nop),
            (r"shrink_to_fit\(", self.h_nop),
            (r"resize\(unsigned long(, char)?\)", self.h_resize),
            (r"basic_string\(\)$", self.h_ctor),
            (r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$", self.h_ctor_n),
            (r"basic_string\(std::__cxx11::basic_string<.*>(&&| const&)\)$", self.h_assign),
            (r"operator=\(std::__cxx11::basic_string<.*>(&&| const&)\)$", self.h_assign),
            (r"assign\(char const\*, unsigned long\)$", self.h_ctor_n),
            (r"~basic_string\(\)$", self.h_nop),
            (r"clear\(\)", self.h_ctor),
            (r"replace\(unsigned long, unsigned long, char const\*, unsigned long\)", self.h_replace),
            (r"(operator=|assign|basic_string)\(char const\*(, std::allocator<char> const&)?\)$", self.h_assign_cstr),
            (r"(operator=|assign|insert|replace|erase|pop_back|append|basic_string|swap|operator\+=)", self.h_unknown),
        ]
        return [(STR + p, h) for p, h in H]

    # -- std::vector as (data pointer, element count)
    VEC = r"^std::vector<(.*), std::allocator<.*>\s*>::"

    def vhooks(self, sizes):
        """sizes: element type name -> byte size"""
        self.sizes = sizes
        V = r"^std::vector<.*>::"
        return [(V + r"(size)\(\) const", self.v_size), (V + r"empty\(\) const", self.v_empty),
                (V + r"(begin|cbegin|data|front)\(\)( const)?$", self.v_begin), (V + r"(end|cend)\(\)( const)?$", self.v_end),
                (V + r"(operator\[\]|at)\(unsigned long\)", self.v_index),
                (V + r"(push_back|emplace_back)", self.v_push),
                (V + r"reserve\(", self.h_nop),
                (V + r"back\(\)", self.v_back)]

    def elsize(self, name):
        m = re.match(self.VEC, name)
        t = m.group(1) if m else ""
        # the first template argument
        depth, k = 0, 0
        body = name[name.index("std::vector<") + len("std::vector<"):]
        for k, c in enumerate(body):
            if c == "<":
                depth += 1
            elif c == ">":
                depth -= 1
            elif c == "," and depth == 0:
                break
        t = body[:k]
        if t.endswith("*") or t.startswith("std::unique_ptr<") and ", std::default_delete<" in t:
            return 8
        return self.sizes.get(t)

    def vn(self, st, a):
        t = mk("vsize", 64, a, 0)
        if t not in st.iv:
            st.setiv(t, slo=0, shi=getattr(self, "vmax", 1 << 40), ulo=0, uhi=getattr(self, "vmax", 1 << 40))
        return t

    def v_size(self, I, st, i, a):
        return self.vn(st, a[0])

    def v_empty(self, I, st, i, a):
        return I.mkeq(st, self.vn(st, a[0]), C(0, 64))

    def v_begin(self, I, st, i, a):
        t = mk("vdata", 64, a[0])
        I.ptr.add(t)
        return t

    def v_end(self, I, st, i, a):
        es = self.elsize(i.callee)
        if es is None:
            return NotImplemented
        return add(mk("vdata", 64, a[0]), mulc(self.vn(st, a[0]), es))

    def v_index(self, I, st, i, a):
        es = self.elsize(i.callee)
        if es is None:
            return NotImplemented
        return add(mk("vdata", 64, a[0]), mulc(a[1], es))

    def v_push(self, I, st, i, a):
        es = self.elsize(i.callee)
        if es not in (1, 2, 4, 8):
            return NotImplemented
        from .absint import Ev
        v = I.load(st, a[1], "i%d" % (8 * es), es)
        st.ev.append(Ev("push", i, [a[0], v], None, st.loops))
        return True

    def v_back(self, I, st, i, a):
        es = self.elsize(i.callee)
        if es is None:
            return NotImplemented
        return add(mk("vdata", 64, a[0]), add(mulc(self.vn(st, a[0]), es), C(-es, 64)))

    def get(self, st, addr):
        k = ("str", addr)
        v = st.objs.get(k)
        if v is None:
            v = ((), mk("strlen", 64, addr, 0))
            st.objs[k] = v
        return v

    def put(self, st, addr, items, size):
        st.objs[("str", addr)] = (items, size)

    def emit(self, st, addr, items, n):
        it, sz = self.get(st, addr)
        self.put(st, addr, it + tuple(items), add(sz, n))

    def h_append_n(self, I, st, i, a):
        n = a[2]
        if isc(n) and n.a[0] <= 256:
            self.emit(st, a[0], [("b", I.load(st, add(a[1], C(k, 64)), "i8", 1), i) for k in range(n.a[0])], n)
        else:
            self.emit(st, a[0], [("buf", a[1], n, i)], n)
        return a[0]

    def h_append_cstr(self, I, st, i, a):
        root, off = split(a[1])
        if root.k == "glob":
            s = I.mod.cstr(root.a[0] + ("+%d" % off if off else ""))
            if s is not None:
                self.emit(st, a[0], [("b", C(ord(c), 8), i) for c in s], C(len(s), 64))
                return a[0]
        n = mk("cstrlen", 64, a[1], st.seq)
        self.emit(st, a[0], [("buf", a[1], n, i)], n)
        return a[0]

    def h_assign_cstr(self, I, st, i, a):
        self.put(st, a[0], (), C(0, 64))
        return self.h_append_cstr(I, st, i, a)

    def h_unknown(self, I, st, i, a):
        n = I.fresh(64, "strlen")
        lim = getattr(self, "gmax", 1 << 40)
        st.setiv(n, slo=0, shi=lim, ulo=0, uhi=lim)
        self.put(st, a[0], (("?", i.callee, n, i),), n)
        return a[0]

    def h_append_fill(self, I, st, i, a):
        if isc(a[1]) and a[1].a[0] <= 256:
            self.emit(st, a[0], [("b", a[2], i)] * a[1].a[0], a[1])
        else:
            self.emit(st, a[0], [("fill", a[2], a[1], i)], a[1])
        return a[0]

    def h_append_str(self, I, st, i, a):
        if len(a) != 2:
            return NotImplemented
        it, sz = self.get(st, a[1])
        self.emit(st, a[0], [("str", a[1], sz, i)], sz)
        return a[0]

    def h_push(self, I, st, i, a):
        self.emit(st, a[0], [("b", a[1], i)], C(1, 64))
        return a[0]

    def h_size(self, I, st, i, a):
        return self.get(st, a[0])[1]

    def h_empty(self, I, st, i, a):
        return I.mkeq(st, self.get(st, a[0])[1], C(0, 64))

    def h_data(self, I, st, i, a):
        t = mk("strdata", 64, a[0])
        I.ptr.add(t)
        return t

    def h_end(self, I, st, i, a):
        return add(mk("strdata", 64, a[0]), self.get(st, a[0])[1])

    def h_index(self, I, st, i, a):
        return add(mk("strdata", 64, a[0]), a[1])

    def h_nop(self, I, st, i, a):
        return True

    def h_resize(self, I, st, i, a):
        it, sz = self.get(st, a[0])
        d = sub(a[1], sz)
        self.put(st, a[0], it + (("?", "resize", d, i),), a[1])
        return True

    def h_ctor(self, I, st, i, a):
        self.put(st, a[0], (), C(0, 64))
        return True

    def h_ctor_n(self, I, st, i, a):
        self.put(st, a[0], (), C(0, 64))
        return self.h_append_n(I, st, i, a)

    def h_assign(self, I, st, i, a):
        it, sz = self.get(st, a[1])
        if not it and sz.k == "strlen":
            it = (("str", a[1], sz, i),)
        self.put(st, a[0], it, sz)
        return a[0]

    def h_replace(self, I, st, i, a):
        # same-length in place replacement
        if isc(a[2]) and a[2] is a[4]:
            base = add(mk("strdata", 64, a[0]), a[1])
            n = a[2].a[0]
            from .absint import Ev
            vals = [I.load(st, add(a[3], C(k, 64)), "i8", 1) for k in range(n)]
            for k, v in enumerate(vals):
                I.store(st, add(base, C(k, 64)), v, 1)
                st.ev.append(Ev("store", i, [add(base, C(k, 64)), v], None, st.loops))
            return a[0]
        return NotImplemented

    # -- effects of unknown code
    def on_havoc(self, I, st, base):
        for k in list(st.objs):
            if isinstance(k, tuple) and k[0] == "str":
                r, _ = split(k[1])
                if r is base:
                    it, sz = st.objs[k]
                    n = I.fresh(64, "strlen")
                    st.objs[k] = (it + (("?", "call", n, None),), n)

    def on_loop(self, I, st, header):
        """generic iteration: whatever the loop may append is unknown on entry"""
        rec = {}
        for k in list(st.objs):
            if isinstance(k, tuple) and k[0] == "str":
                it, sz = st.objs[k]
                g = I.fresh(64, "grown.loop%d" % header)
                lim = getattr(self, "gmax", 1 << 40)
                st.setiv(g, slo=0, shi=lim, ulo=0, uhi=lim)
                n = add(sz, g)
                rec[k[1]] = (sz, n)
                st.objs[k] = (it + (("loop", header, n),), n)
        st.objs[("loopin", header)] = rec
