"""Variables as abstract objects: which definition they have, what was last put in them, which attributes they were given.

Calls to the public interface of Var are given their meaning (established by C06, C07, C08, C20) instead of being inlined."""
import re
from .absint import *
from .build import ToolError

NOIN = [r"^wreport::Var::", r"^wreport::_Varinfo::(encode|decode)_", r"^wreport::Subset::"]
V = r"^wreport::Var::"


class Val:
    """value of a variable: kind is unset, d, i, c, s, ? (not known) or a copy of an unknown variable"""
    __slots__ = ("info", "kind", "v", "attrs")

    def __init__(self, info, kind="unset", v=None, attrs=()):
        self.info, self.kind, self.v, self.attrs = info, kind, v, attrs

    def __repr__(self):
        return "%s%s%s" % (self.kind, "(%s)" % (self.v,) if self.v is not None else "", " with %d attributes" % len(self.attrs) if self.attrs else "")

    def __eq__(self, o):
        return (self.info, self.kind, self.v, self.attrs) == (o.info, o.kind, o.v, o.attrs)

    def __hash__(self):
        return hash((self.info, self.kind, self.v))


def get(st, a):
    r = st.objs.get(("var", a))
    if r is None:
        # a variable that was there before
        r = Val(mk("varinfo", 64, a), "?", a)
        st.objs[("var", a)] = r
    return r


def put(st, a, v):
    st.objs[("var", a)] = v


def text(st, a):
    """what a char pointer points to now"""
    return st.objs.get(("text", a)) or ("mem", a)


def hooks():
    H = []

    def h(pat):
        def deco(f):
            f.loop_effect = forget
            H.append((V + pat, f))
            return f
        return deco

    def forget(I, st):
        for k in list(st.objs):
            if isinstance(k, tuple) and k[0] == "var":
                st.objs[k] = Val(st.objs[k].info, "?", "after some iterations")

    VI = r"wreport::_Varinfo const\*"

    @h(r"Var\(%s\)" % VI)
    def _(I, st, i, a):
        put(st, a[0], Val(a[1]))
        return True

    @h(r"Var\(%s, (double|int)\)" % VI)
    def _(I, st, i, a):
        put(st, a[0], Val(a[1], "d" if a[2].w == "d" else "i", a[2]))
        return True

    @h(r"Var\(%s, char const\*\)" % VI)
    def _(I, st, i, a):
        put(st, a[0], Val(a[1], "c", text(st, a[2])))
        return True

    @h(r"Var\(%s, std::__cxx11::basic_string<.*> const&\)" % VI)
    def _(I, st, i, a):
        put(st, a[0], Val(a[1], "s", st.objs.get(("str", a[2]), a[2])))
        return True

    @h(r"(Var|operator=)\(wreport::Var const&\)")
    def _(I, st, i, a):
        put(st, a[0], get(st, a[1]))
        return a[0]

    @h(r"(Var|operator=)\(wreport::Var&&\)")
    def _(I, st, i, a):
        v = get(st, a[1])
        put(st, a[0], v)
        put(st, a[1], Val(v.info))
        return a[0]

    @h(r"~Var\(\)")
    def _(I, st, i, a):
        return True

    @h(r"(setd|seti)\(")
    def _(I, st, i, a):
        v = get(st, a[0])
        put(st, a[0], Val(v.info, "d" if a[1].w == "d" else "i", a[1], v.attrs))
        return True

    @h(r"setc\(char const\*\)")
    def _(I, st, i, a):
        v = get(st, a[0])
        put(st, a[0], Val(v.info, "c", text(st, a[1]), v.attrs))
        return True

    @h(r"sets\(")
    def _(I, st, i, a):
        v = get(st, a[0])
        put(st, a[0], Val(v.info, "s", st.objs.get(("str", a[1]), a[1]), v.attrs))
        return True

    @h(r"unset\(\)")
    def _(I, st, i, a):
        v = get(st, a[0])
        put(st, a[0], Val(v.info, "unset", None, v.attrs))
        return True

    @h(r"isset\(\)")
    def _(I, st, i, a):
        v = get(st, a[0])
        if v.kind == "unset":
            return C(0, 1)
        if v.kind in ("d", "i", "c", "s"):
            return C(1, 1)
        return mk("isset", 1, v.v if isinstance(v.v, T) else a[0])

    @h(r"info\(\)")
    def _(I, st, i, a):
        return get(st, a[0]).info

    @h(r"code\(\)")
    def _(I, st, i, a):
        return I.load(st, get(st, a[0]).info, "i16", 2)

    @h(r"(enqi|enqd|enqc)\(\)")
    def _(I, st, i, a):
        v = get(st, a[0])
        if v.kind == "d" and width(i.ty) == "d" or v.kind == "i" and width(i.ty) == 32:
            return v.v
        r = mk("enq", width(i.ty), v.v if isinstance(v.v, T) else a[0])
        if i.ty == "ptr":
            I.ptr.add(r)
        return r

    @h(r"seta\(wreport::Var(&&| const&)\)")
    def _(I, st, i, a):
        v, x = get(st, a[0]), get(st, a[1])
        put(st, a[0], Val(v.info, v.kind, v.v, v.attrs + (x,)))
        return True

    @h(r"seta\(std::unique_ptr<wreport::Var")
    def _(I, st, i, a):
        v = get(st, a[0])
        x = I.load(st, a[1], "ptr", 8)
        put(st, a[0], Val(v.info, v.kind, v.v, v.attrs + (get(st, x),)))
        return True
    return H + [(r"^wreport::_Varinfo::decode_binary\(", lambda I, st, i, a: mk("decbin", "d", a[0], a[1])),
                (r"^wreport::_Varinfo::encode_binary\(", lambda I, st, i, a: mk("encbin", 32, a[0], a[1])),
                (r"^wreport::_Varinfo::decode_decimal\(", lambda I, st, i, a: mk("decdec", "d", a[0], a[1])),
                (r"^wreport::_Varinfo::encode_decimal\(", lambda I, st, i, a: mk("encdec", 32, a[0], a[1]))]


def subset_hooks():
    """what is stored in which subset"""
    def st_var(I, st, i, a):
        v = get(st, a[1])
        st.ev.append(Ev("stored", i, [a[0]], v, st.loops))
        st.objs[("stored", a[0])] = st.objs.get(("stored", a[0]), ()) + (v,)
        if i.callee.endswith("&&)"):
            put(st, a[1], Val(v.info))
        return True

    def st_undef(I, st, i, a):
        st.ev.append(Ev("stored", i, [a[0]], Val(a[1]), st.loops))
        return True

    def st_double(I, st, i, a):
        info = mk("lookup", 64, a[0], a[1])
        st.ev.append(Ev("stored", i, [a[0]], Val(info, "?", a[2]), st.loops))
        return True
    S = r"^wreport::Subset::"
    return [(S + r"store_variable\(wreport::Var( const&|&&)\)", st_var), (S + r"store_variable_undef\(wreport::_Varinfo", st_undef)]


def fn_hooks():
    """std::function callbacks that take (index, variable)"""
    def h(I, st, i, a):
        st.ev.append(Ev("given", i, [a[1]], get(st, a[2]), st.loops))
        return True
    return [(r"^std::function<void \(unsigned int, wreport::Var&&\)>::operator\(\)\(", h)]
