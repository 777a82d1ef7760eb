"""In-memory form of the IR dumped by irdump, with CFG utilities."""
import re


class Ins:
    __slots__ = ("id", "op", "ty", "a", "d", "blk", "fn")

    def __init__(self, d, blk, fn):
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d.get("ty")
        self.a = d.get("a", [])
        self.d = d
        self.blk = blk
        self.fn = fn

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def callee(self):
        return self.d.get("fd")

    @property
    def loc(self):
        l = self.d.get("l")
        if not l:
            # borrow the closest location in the block
            for o in self.blk.ins:
                if o.d.get("l"):
                    l = o.d["l"]
                    break
        return fmt_loc(l)

    def __repr__(self):
        return "<%%%d %s %s>" % (self.id, self.op, " ".join(self.a))


def short(path):
    return path.replace("/repo/", "")


def fmt_loc(l):
    if not l:
        return "?"
    inner = l[0].rsplit(":", 2)
    s = "%s:%s" % (short(inner[0]), inner[1])
    if inner[2]:
        s += " in %s" % inner[2]
    if len(l) > 1:
        outer = l[-1].rsplit(":", 2)
        s += " (via %s:%s in %s)" % (short(outer[0]), outer[1], outer[2])
    return s


class Blk:
    __slots__ = ("id", "ins", "succ", "pred", "fn", "name")

    def __init__(self, id, fn):
        self.id = id
        self.ins = []
        self.succ = []
        self.pred = []
        self.fn = fn
        self.name = None

    @property
    def term(self):
        return self.ins[-1]

    def __repr__(self):
        return "B%d" % self.id


class Fn:
    def __init__(self, d):
        self.name = d["name"]
        self.dem = d["dem"]
        self.args = d["args"]
        self.ret = d["ret"]
        self.file = short(d.get("file", "?"))
        self.line = d.get("line")
        self.d = d
        self.blocks = []
        self.ins = {}
        for bd in d["blocks"]:
            b = Blk(bd["id"], self)
            b.name = bd.get("n")
            for idd in bd["i"]:
                i = Ins(idd, b, self)
                b.ins.append(i)
                self.ins[i.id] = i
            self.blocks.append(b)
        for b in self.blocks:
            t = b.term
            if t.op == "br":
                b.succ = list(t.d["t"])
            elif t.op == "switch":
                b.succ = [t.d["def"]] + [c[1] for c in t.d["cases"]]
            elif t.op == "invoke":
                b.succ = [t.d["normal"], t.d["unwind"]]
            else:
                b.succ = []
        for b in self.blocks:
            for s in set(b.succ):
                self.blocks[s].pred.append(b.id)
        self._dom = None
        self._loops = None
        self._uses = None

    def __repr__(self):
        return "Fn(%s)" % self.dem

    @property
    def short(self):
        return strip_args(self.dem)

    @property
    def where(self):
        return "%s:%s %s" % (self.file, self.line, self.short)

    def all(self, *ops):
        for b in self.blocks:
            for i in b.ins:
                if not ops or i.op in ops:
                    yield i

    def calls(self, pat=None):
        r = re.compile(pat) if isinstance(pat, str) else pat
        for i in self.all("call", "invoke"):
            if r is None or (i.callee and r.search(i.callee)):
                yield i

    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.all():
                ops = list(i.a)
                if i.op == "phi":
                    ops = [x[0] for x in i.d["inc"]]
                if i.d.get("callee"):
                    ops.append(i.d["callee"])
                for o in ops:
                    if o and o[0] in "%$":
                        u.setdefault(o, []).append(i)
            self._uses = u
        return self._uses

    # -- dominators (iterative, on reachable blocks)
    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.blocks[0].succ))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    def idom(self):
        if self._dom is not None:
            return self._dom
        order = self.rpo()
        idx = {b: i for i, b in enumerate(order)}
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.blocks[b].pred if p in dom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = dom[x]
                        while idx[y] > idx[x]:
                            y = dom[y]
                    n = x
                if dom.get(b) != n:
                    dom[b] = n
                    ch = True
        self._dom = dom
        return dom

    def dominates(self, a, b):
        dom = self.idom()
        if b not in dom:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = dom[b]

    def loops(self):
        """header -> set of blocks (natural loops, merged by header)"""
        if self._loops is None:
            res = {}
            dom = self.idom()
            for b in self.blocks:
                if b.id not in dom:
                    continue
                for s in b.succ:
                    if self.dominates(s, b.id):
                        body = res.setdefault(s, {s})
                        st = [b.id]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in self.blocks[x].pred if p in dom)
            self._loops = res
        return self._loops


def strip_args(dem):
    """'ns::f(int) const' -> 'ns::f'"""
    depth = 0
    i = dem.find("operator()")
    start = i + len("operator()") if i >= 0 else 0
    for k in range(start, len(dem)):
        c = dem[k]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth <= 0:
            if dem.startswith("(anonymous namespace)", k):
                continue
            if dem.startswith("({lambda", k):
                continue
            # skip '(anonymous namespace)' text
            if k > 0 and dem[k - 1] == ":" :
                continue
            return dem[:k]
    return dem


class Mod:
    def __init__(self, d):
        self.d = d
        self.fns = {k: Fn(v) for k, v in d["functions"].items()}
        self.globals = d.get("globals", {})
        self.types = d.get("types", {})
        self.enums = d.get("enums", {})
        self.capped = d.get("capped", [])
        self.aliases = d.get("aliases", {})

    def find(self, pat, one=True, file=None):
        r = re.compile(pat)
        res = [f for f in self.fns.values() if r.search(f.dem) and (file is None or file in f.file) and ("lambda" in pat or ("'lambda" not in f.dem and "::$_" not in f.dem))]
        if one:
            if len(res) != 1:
                from .build import ToolError
                raise ToolError("anchor %r matches %d functions: %s" % (pat, len(res), [f.dem for f in res][:6]))
            return res[0]
        return res

    # -- field naming
    def callees(self):
        return {i.callee for f in self.fns.values() for i in f.calls() if i.callee}

    def struct(self, llname):
        """DI type record for an LLVM struct type name such as %class.wreport::Var"""
        n = llname.lstrip("%").strip('"')
        for p in ("class.", "struct.", "union."):
            if n.startswith(p):
                n = n[len(p):]
        n = re.sub(r"\.base$", "", n)
        t = self.types.get(n)
        if t is None:
            n2 = re.sub(r"\.\d+$", "", n)
            t = self.types.get(n2)
            if t is not None:
                return n2, t
        return n, t

    def fields(self, tyname, base=0, prefix=""):
        """flattened list of (offset, bytes, dotted name, type) for a DI type name"""
        t = self.types.get(tyname)
        res = []
        if not t:
            return res
        for f in t["fields"]:
            off = base + f["off"]
            if f["base"]:
                res.extend(self.fields(f["ty"], off, prefix))
            else:
                nm = prefix + f["n"]
                res.append((off, f["bits"] // 8, nm, f["ty"]))
        return res

    def field_at(self, tyname, off):
        best = None
        for o, sz, n, ty in self.fields(tyname):
            if o <= off < o + max(sz, 1):
                best = (o, sz, n, ty)
        return best

    def cstr(self, gname):
        """C string held by a constant global"""
        base, _, off = gname.lstrip("@").partition("+")
        g = self.globals.get(base)
        if not g:
            return None
        i = g.get("init")
        if isinstance(i, dict) and "str" in i:
            s = i["str"][int(off or 0):]
            return s.split("\0", 1)[0]
        if i == "zero":
            return ""
        return None
