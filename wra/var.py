"""What the analyses know about wreport::Var and _Varinfo objects."""
from .absint import *
from .build import ToolError

SIL, CLA, HOO = ("_ZN7wreport7options24var_silent_domain_errorsE", "_ZN7wreport7options23var_clamp_domain_errorsE",
                 "_ZN7wreport7options22var_hook_domain_errorsE")


class VarModel:
    def __init__(self, mod):
        self.mod = mod
        self.vo = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::Var")}
        self.io = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::_Varinfo")}
        for n in ("m_info", "m_isset", "m_value", "m_attrs"):
            if n not in self.vo:
                raise ToolError("Var has no member %s" % n)
        for n in ("type", "imin", "imax", "dmin", "dmax", "scale", "len", "bit_ref", "bit_len", "code"):
            if n not in self.io:
                raise ToolError("_Varinfo has no member %s" % n)
        e = mod.enums.get("wreport::Vartype")
        if not e:
            raise ToolError("no enumeration Vartype")
        self.types = e

    def field(self, var, n):
        return add(var, C(self.vo[n][0], 64))

    def info(self, var):
        return mk("ld", 64, self.field(var, "m_info"), 0)

    def info_addr(self, var, n, info=None):
        return add(info or self.info(var), C(self.io[n][0], 64))

    def inf(self, var, n, info=None):
        """initial content of a Varinfo field"""
        o, sz = self.io[n]
        return mk("ld", "d" if n in ("dmin", "dmax") else 8 * sz, self.info_addr(var, n, info), 0)

    def set_type(self, I, st, var, name, info=None):
        st.assume(I.mkeq(st, self.inf(var, "type", info), C(self.types[name], 32)), True)

    def any_type(self, I, st, var, info=None):
        t = self.inf(var, "type", info)
        vs = sorted(self.types.values())
        st.setiv(t, slo=vs[0], shi=vs[-1], ulo=vs[0], uhi=vs[-1])

    def get(self, I, st, var, n):
        o, sz = self.vo[n]
        return I.load(st, self.field(var, n), "i%d" % (8 * sz) if n != "m_info" else "ptr", sz)

    def isset(self, I, st, var):
        v = self.get(I, st, var, "m_isset")
        r = st.rng(v) if isinstance(v.w, int) else (0, 1, 0, 1)
        if r[2] == r[3]:
            return bool(r[2])
        d = st.decide(I.mkeq(st, v, C(0, v.w)))
        if d is None:
            b = I.resize(st, "trunc", v, 1)
            d = st.decide(b)
            return d
        return not d

    def ival(self, I, st, var):
        """what m_value.i holds"""
        return I.load(st, self.field(var, "m_value"), "i32", 4)
