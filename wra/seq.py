"""Sequences of calls on abstract objects: the state a call leaves is the state the next one starts from."""
import re
from .absint import *
from .sink import Sink
from .build import ToolError


def obj(name):
    """an abstract object (its address)"""
    return mk("arg", 64, -1, name)


def carry(st0, st):
    """start from what st0 knows; locals of the previous call are gone"""
    for r, d in st0.mem.items():
        if not any(x.k == "alloca" for x in atoms(r)):
            st.mem[r] = dict(d)
    for k in ("epoch", "known", "iv", "fiv", "ne", "copies", "fr"):
        setattr(st, k, dict(getattr(st0, k)))
    st.seq = st0.seq
    for k, v in st0.objs.items():
        if isinstance(k, tuple) and k[0] == "str" and not any(x.k == "alloca" for x in atoms(k[1])):
            st.objs[k] = v


class Seq:
    def __init__(self, mod, hooks=(), unroll=80, vsizes=None, **kw):
        self.mod, self.extra, self.unroll, self.kw = mod, list(hooks), unroll, kw
        self.sink = Sink()
        self.vsizes = vsizes or {}
        self.calls = 0

    def fn(self, pat):
        if hasattr(pat, "ins"):
            return pat
        return self.mod.find(pat)

    def call(self, pat, args, st0=None, init=None):
        """args: list of terms (None: unknown); returns the abstract traces"""
        f = self.fn(pat)
        S = self.sink
        am = {i: a for i, a in enumerate(args) if a is not None}

        def start(I, st):
            if st0 is not None:
                carry(st0, st)
            if init:
                init(I, st)

        hooks = self.extra + S.hooks() + S.vhooks(self.vsizes)
        kw = dict(canon_bits=True, unroll=self.unroll, on_loop=S.on_loop, on_havoc=S.on_havoc, on_loop_exit=S.on_loop_exit)
        kw.update(self.kw)
        self.I = I = Interp(self.mod, f, hooks=hooks, **kw)
        self.calls += 1
        return I.run(args=am, init=start)

    def call1(self, pat, args, st0=None, init=None, why=""):
        """the only returning trace"""
        ps = self.call(pat, args, st0, init)
        rs = [p for p in ps if p.end == "ret"]
        if len(rs) != 1:
            raise ToolError("%d returning traces where one was expected: %s" % (len(rs), self.fn(pat).where))
        return rs[0]
