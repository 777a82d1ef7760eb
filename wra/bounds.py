"""Reads of a message stay inside the message, whatever the message says.

Every function that touches the input classes is interpreted on its own, from a state in which nothing is known about the input but that its cursor
lies inside it.  A function whose reads cannot be justified that way is the business of its callers: it is followed, in each of them, from the state
at the call.  What no caller justifies up to the public entry points is a read that can leave the message."""
import re
from . import lin
from .absint import *
from .build import ToolError
from .sink import STR
from .ir import strip_args

SMAX = 1 << 40


class Kind:
    """an input class: where it keeps the message, its length, and (optional) its cursor; slack: bytes that can be read after the message"""

    def __init__(self, mod, cls, cur, slack):
        self.cls, self.slack = cls, slack
        f = {n: (o, sz) for o, sz, n, t in mod.fields(cls)}
        for n in ("data", "data_len") + ((cur,) if cur else ()):
            if n not in f:
                raise ToolError("%s has no member %s" % (cls, n))
        self.data, self.len = f["data"][0], f["data_len"][0]
        self.cur = f[cur][0] if cur else None
        self.f = f
        self.size = mod.types[cls]["size"]


def sdata(s):
    return mk("strdata", 64, s)


def ssize(st, s):
    t = mk("strsize", 64, s)
    if t not in st.iv:
        st.setiv(t, slo=0, shi=SMAX, ulo=0, uhi=SMAX)
    return t


def msg_of(t):
    """the message a pointer points into, and the offset"""
    if not isinstance(t, T) or t.w != 64:
        return None
    c, d = aslin(t)
    m = [x for x, k in d.items() if x.k == "strdata" and k == 1]
    if len(m) != 1:
        return None
    d = dict(d)
    del d[m[0]]
    return m[0], mklin(64, c, d)


def typed(fn, kinds):
    """(argument number, Kind) for the parameters that are inputs"""
    r = []
    names = {re.sub(r"^%(class|struct)\.", "", n): k for n, k in kinds.items()}
    k0 = 1 if fn.args and fn.args[0].get("sret") else 0
    cls = strip_args(fn.dem).rsplit("::", 1)[0]
    has_this = len(fn.args) > k0 and fn.args[k0].get("n") == "this"
    if has_this and cls in names:
        r.append((k0, names[cls]))
    ps = split_params(fn.dem) or []
    off = len(fn.args) - len(ps)
    for j, p in enumerate(ps):
        q = re.sub(r"( const)?[&*]+$", "", p)
        if q in names and p[-1] in "&*" and off + j >= 0:
            r.append((off + j, names[q]))
    return r


def refers(mod, i, kinds):
    """the load of a member that is a reference or pointer to an input"""
    if i.ty != "ptr" or i.a[0][0] != "%":
        return None
    g = i.fn.ins.get(int(i.a[0][1:])) if hasattr(i.fn, "ins") else None
    if g is None or g.op != "getelementptr" or "off" not in g.d:
        return None
    n, t = mod.struct(g.get("src") or "")
    if not t:
        return None
    f = next((ty for o, sz, nm, ty in mod.fields(n) if o == g.d["off"]), None)
    if f and f[-1] in "&*":
        q = re.sub(r"( const)?[&*]+$", "", f)
        for nm, k in kinds.items():
            if re.sub(r"^%(class|struct)\.", "", nm) == q:
                return k
    return None


def limited(mod, i):
    """widths in definitions are small numbers"""
    if i.a[0][0] != "%" or i.ty != "i32":
        return None
    g = i.fn.ins.get(int(i.a[0][1:]))
    if g is None or g.op != "getelementptr" or "off" not in g.d or "_Varinfo" not in (g.get("src") or ""):
        return None
    n, t = mod.struct(g.get("src"))
    f = next((nm for o, sz, nm, ty in mod.fields(n) if o == g.d["off"]), None)
    return 65535 if f in ("len", "bit_len") else None


def touches(mod, fn, kinds):
    if typed(fn, kinds):
        return True
    for b in fn.blocks:
        for i in b.ins:
            if i.op == "getelementptr" and (i.get("src") in kinds or any(p[0] == "f" and p[1] in kinds for p in i.d.get("path", ()))):
                return True
            if i.op == "load" and refers(mod, i, kinds) is not None:
                return True
    return False


class B(Interp):
    kinds = {}          # type name in the IR -> Kind
    FRAME = Interp.FRAME + ("upto", "kept")
    need = ()           # functions followed in their callers
    blind = ()          # functions that do not touch the inputs

    def __init__(self, *a, **kw):
        Interp.__init__(self, *a, **kw)
        self.checks = []
        self.in_enter = 0

    def entering(self, sub):
        sub.checks = self.checks
        sub.kinds, sub.need, sub.blind = self.kinds, self.need, self.blind

    # -- the state of the inputs
    def inputs(self, st):
        return [k for k in st.objs if isinstance(k, tuple) and k[0] == "input"]

    def position(self, st, base, kd):
        if kd.cur is None:
            return
        k = self.fresh(64, "position")
        n = ssize(st, base)
        st.setiv(k, slo=0, shi=SMAX, ulo=0, uhi=SMAX)
        st.known[mk("slt", 1, n, k)] = False
        self.store(st, add(base, C(kd.cur, 64)), add(self.load(st, add(base, C(kd.data, 64)), "ptr", 8), k), 8)

    def establish(self, st, base, kd):
        self.store(st, add(base, C(kd.data, 64)), sdata(base), 8)
        self.store(st, add(base, C(kd.len, 64)), ssize(st, base), 8)
        self.position(st, base, kd)

    def see(self, st, base, kd):
        if ("input", base) in st.objs:
            return
        st.objs[("input", base)] = kd
        if base.k == "alloca" or ("built", base) in st.objs:
            return          # constructed here
        self.establish(st, base, kd)

    def run(self, args=None, init=None):
        def ini(I, st):
            if init:
                init(I, st)
            ctor = re.search(r"(\w+)::\1$", strip_args(self.fn.dem))
            for k, kd in typed(self.fn, self.kinds):
                if k == 0 and ctor:
                    st.objs[("built", self.args[k])] = True
                self.see(st, self.args[k], kd)
        return Interp.run(self, args, ini)

    def simple(self, st, i):
        if i.op == "getelementptr":
            t = i.get("src")
            kd = self.kinds.get(t)
            if kd is not None:
                base = self.val(st, i.a[0], "ptr")
                self.see(st, base, kd)
            else:
                # embedded in another object
                off = 0
                for p in i.d.get("path", ()):
                    if p[0] != "f":
                        break
                    if p[1] in self.kinds:
                        self.see(st, add(self.val(st, i.a[0], "ptr"), C(off, 64)), self.kinds[p[1]])
                        break
                    off += p[3]
        elif i.op == "load":
            addr = self.val(st, i.a[0], "ptr")
            self.reads(st, i, addr, C(SIZE.get(i.ty, 8), 64))
            Interp.simple(self, st, i)
            lim = limited(self.mod, i)
            if lim is not None:
                st.setiv(st.env[i.id], slo=0, shi=lim, ulo=0, uhi=lim)
            kd = refers(self.mod, i, self.kinds)
            if kd is not None:
                self.see(st, st.env[i.id], kd)
            return
        Interp.simple(self, st, i)

    # -- obligations
    def slack(self, st, m):
        for k in self.inputs(st):
            v = st.mem.get(split(k[1])[0], {}).get(split(k[1])[1] + st.objs[k].data)
            if v and v[0] is m:
                return st.objs[k].slack
        return 0

    def oblige(self, st, i, what, goals):
        """goals: (smaller, larger) pairs of terms"""
        ok = True
        extra = self.extra(st)
        for a, b in goals:
            side = []
            ea, eb = lin.exact(st, a, side), lin.exact(st, b, side)
            if ea is None or eb is None or not lin.entails(st, ea, eb, side=side, extra=extra):
                ok = False
                break
        self.checks.append((ok, i, what, tuple(goals)))
        if not ok:
            # what follows is judged as if it had been right
            for a, b in goals:
                st.known.setdefault(mk("slt", 1, b, a), False)
        return ok

    def extra(self, st):
        """a character that is not NUL is not the terminator"""
        r = []
        for c, v in list(st.known.items()):
            if c.k != "eq0":
                continue
            k, d = aslin(c.a[0])
            if len(d) != 1:
                continue
            (x, co), = d.items()
            while x.k in ("zext", "sext"):
                x = x.a[0]
            n = None
            if x.k == "ld" and x.w == 8 and (v and k or not v and k == 0):
                m, n = msg_of(x.a[0]), 1
            elif x.k == "call" and x.a[0] == "strncmp" and v and k == 0:
                m = msg_of(x.a[1][0])
                t = self.mod.cstr(x.a[1][1].a[0]) if x.a[1][1].k == "glob" else None
                n = min(len(t), uval(x.a[1][2])) if t is not None and isc(x.a[1][2]) else None
            if n is None or m is None or not self.slack(st, m[0]):
                continue
            e, z = lin.exact(st, add(m[1], C(n, 64)), []), lin.exact(st, ssize(st, m[0].a[0]), [])
            if e is not None and z is not None:
                r.append(lin.leq(e, z))
        return r

    def reads(self, st, i, addr, n, what="read", cstring=False):
        m = msg_of(addr)
        if m is None:
            return
        m, off = m
        size = ssize(st, m.a[0])
        sl = self.slack(st, m)
        end = add(off, n) if not cstring or not sl else add(off, C(1, 64))
        self.oblige(st, i, what, [(C(0, 64), off), (end, add(size, C(sl, 64)))])

    def inside(self, st, i, what):
        """the cursors lie inside their messages"""
        for key in self.inputs(st):
            kd = st.objs[key]
            if kd.cur is None:
                continue
            base = key[1]
            d = self.load(st, add(base, C(kd.data, 64)), "ptr", 8)
            c = self.load(st, add(base, C(kd.cur, 64)), "ptr", 8)
            m = msg_of(c)
            md = msg_of(d)
            if m is None or md is None or m[0] is not md[0]:
                if c.k == "ld":
                    continue        # never looked at
                self.checks.append((False, i, what + ": the cursor does not point into the message", ()))
                continue
            self.oblige(st, i, what + ": cursor inside the message", [(C(0, 64), m[1]), (m[1], ssize(st, m[0].a[0]))])

    # -- pointers into the message are compared by offset
    def icmp(self, st, pred, a, b):
        if a.w == 64 and b.w == 64:
            x, y = msg_of(a), msg_of(b)
            if x and y and x[0] is y[0]:
                return Interp.icmp(self, st, pred.replace("u", "s") if pred[0] == "u" else pred, x[1], y[1])
        return Interp.icmp(self, st, pred, a, b)

    def intrinsic(self, st, i, name, args):
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.reads(st, i, args[1], args[2], "copy")
        return Interp.intrinsic(self, st, i, name, args)

    # -- calls
    def call_havoc(self, st, i, body=None):
        name = i.callee
        touched = name is None or name.startswith("wreport::") or "std::function<" in name or "~" in name and "wreport" in name
        if name is not None and (self.is_pure(name) or i.get("noreturn") or name.startswith("llvm.") or re.search(r"::parse_error\(|::throwf\(", name)):
            touched = False
        if body is not None and touched and name is not None and any(p.search(name) and getattr(h, "quiet", False) for p, h in self.hooks):
            touched = False
        if touched and body is None:
            self.inside(st, i, "call of %s" % ((name or "a virtual function").split("(")[0]))
        keep = {k: st.objs[k] for k in self.inputs(st)}
        if name is not None and not name.startswith("llvm.mem") and self.mod.aliases.get(i.get("fn"), i.get("fn")) in self.blind:
            # does not know about the inputs
            save = {}
            for k, kd in keep.items():
                root, o = split(k[1])
                save[k] = {p: e for p, e in st.mem.get(root, {}).items() if o <= p < o + kd.size}
            Interp.call_havoc(self, st, i, body)
            for k, d in save.items():
                root = split(k[1])[0]
                if d:
                    st.mem.setdefault(root, {}).update(d)
            return
        ptrs = {k: st.mem.get(split(k[1])[0], {}).get(split(k[1])[1] + kd.data) for k, kd in keep.items()}
        lens = {k: st.mem.get(split(k[1])[0], {}).get(split(k[1])[1] + kd.len) for k, kd in keep.items()}
        if touched:
            for k in keep:
                for b in base_atoms(k[1]):
                    self.havoc(st, b)
        Interp.call_havoc(self, st, i, body)
        for k, kd in keep.items():
            root, o = split(k[1])
            if ptrs[k] and o + kd.data not in st.mem.get(root, {}):
                # the message itself does not change
                self.store(st, add(k[1], C(kd.data, 64)), ptrs[k][0], 8)
                if lens[k]:
                    self.store(st, add(k[1], C(kd.len, 64)), lens[k][0], 8)
                self.position(st, k[1], kd)

    def finish(self, end, st, ins, ret=None, what=None):
        if end in ("ret", "loop") and self.depth == 0 or end == "loop":
            self.inside(st, ins, "end of %s" % ("a loop iteration" if end == "loop" else "the function"))
        Interp.finish(self, end, st, ins, ret, what)

    # -- loops: pointers into the message stay in it
    def enter_loop(self, st, header):
        before = {(r, o): v for r, d in st.mem.items() for o, (v, s) in d.items() if s == 8 and msg_of(v)}
        Interp.enter_loop(self, st, header)
        inp = {}
        for k in self.inputs(st):
            kd = st.objs[k]
            if kd.cur is not None:
                root, o = split(k[1])
                inp[(root, o + kd.cur)] = (k[1], kd)
        kept = []
        for (r, o), v in before.items():
            now = st.mem.get(r, {}).get(o)
            if now is None or now[0] is v or msg_of(now[0]):
                continue
            if now[0].k == "fresh" and not msg_of(now[0]):
                if (r, o) in inp:
                    self.position(st, *inp[(r, o)])
                else:
                    self.store(st, add(r, C(o, 64)), self.inner(st, msg_of(v)[0]), 8)
                    kept.append(add(r, C(o, 64)))
        st.objs[("kept", header)] = tuple(kept)

    def inner(self, st, m):
        k = self.fresh(64, "position")
        st.setiv(k, slo=0, shi=SMAX, ulo=0, uhi=SMAX)
        st.known[mk("slt", 1, ssize(st, m.a[0]), k)] = False
        return add(m, k)

    def bounds_of(self, st, bid, p):
        """what the loop compares an integer with: candidate upper bounds"""
        body = self.loop_of[bid]
        r = []
        for b in body:
            for i in self.fn.blocks[b].ins:
                if i.op != "icmp":
                    continue
                for k in (0, 1):
                    off = self.offset_of(i.a[k], p)
                    if off is None:
                        continue
                    x = self.steady(st, i.a[1 - k], p.ty, body)
                    if x is None:
                        continue
                    if off:
                        x = self.binop(st, "sub", x, C(off, x.w))
                    if x not in r:
                        r.append(x)
        return r

    def offset_of(self, o, p):
        """c when an operand is the counter plus a constant c"""
        if o == "%%%d" % p.id:
            return 0
        d = self.fn.ins.get(int(o[1:])) if o[0] == "%" and o[1:].isdigit() else None
        if d is not None and d.op == "add" and d.ty == p.ty:
            for a, b in (d.a, d.a[::-1]):
                if a == "%%%d" % p.id and b[0] == "#":
                    return int(b[1:])
        return None

    def steady(self, st, o, ty, body, depth=0):
        """the value of an operand that a loop does not change"""
        if o[0] == "%":
            d = self.fn.ins.get(int(o[1:]))
            if d is None or depth > 4:
                return None
            if any(d in self.fn.blocks[x].ins for x in body):
                if d.op in ("add", "sub", "mul"):
                    a, b = (self.steady(st, x, d.ty, body, depth + 1) for x in d.a)
                    return self.binop(st, d.op, a, b) if a is not None and b is not None else None
                if d.op in ("zext", "sext", "trunc"):
                    a = self.steady(st, d.a[0], d.get("oty"), body, depth + 1)
                    return self.resize(st, d.op, a, width(d.ty)) if a is not None else None
                return None
            if int(o[1:]) not in st.env:
                return None
        try:
            return self.val(st, o, ty)
        except (KeyError, ToolError):
            return None

    def upto(self, st, a, b):
        side = []
        ea, eb = lin.exact(st, a, side), lin.exact(st, b, side)
        return ea is not None and eb is not None and lin.entails(st, ea, eb, side=side)

    def loop_phi(self, st, bid, p, v0):
        if v0 is not None and p.ty in ("i32", "i64"):
            v = None
            for x in self.bounds_of(st, bid, p):
                if ("upto", bid, p.id, x) in self.vary or not self.upto(st, v0, x) or not self.upto(st, C(0, v0.w), v0):
                    continue
                if v is None:
                    v = self.fresh(width(p.ty), "loop%d.%s" % (bid, p.get("n") or p.id))
                    st.setiv(v, slo=0, ulo=0)
                st.known[mk("slt", 1, x, v)] = False
                if isc(x):
                    st.setiv(v, shi=x.a[0], uhi=x.a[0])
                st.objs[("upto", bid, p.id, x)] = True
            if v is not None:
                return v
        if v0 is not None and p.ty == "ptr":
            m = msg_of(v0)
            if m is not None:
                return self.inner(st, m[0])
        return None

    def back_edge(self, st, bid, prev):
        for k in [k for k in st.objs if isinstance(k, tuple) and k[0] == "upto" and k[1] == bid]:
            for o, pb in self.fn.ins[k[2]].d["inc"]:
                if pb == prev:
                    v = self.val(st, o, self.fn.ins[k[2]].ty)
                    if not self.upto(st, v, k[3]) or not self.upto(st, C(0, v.w), v):
                        self.vary.add(k)
                        raise Restart(None)
        goals = []
        for a in st.objs.get(("kept", bid), ()):
            goals.append(self.load(st, a, "ptr", 8))
        for p in self.fn.blocks[bid].ins:
            if p.op != "phi":
                break
            if p.ty == "ptr" and msg_of(st.env.get(p.id) or C(0, 64)):
                for o, pb in p.d["inc"]:
                    if pb == prev:
                        goals.append(self.val(st, o, p.ty))
        for v in goals:
            m = msg_of(v)
            if m is None:
                self.checks.append((False, self.fn.blocks[bid].ins[0], "a pointer into the message becomes another one in a loop", ()))
                continue
            self.oblige(st, self.fn.blocks[bid].ins[0], "pointer inside the message after an iteration", [(C(0, 64), m[1]), (m[1], ssize(st, m[0].a[0]))])


# -- library functions that take pointers into the message
def library(B_):
    def sd(I, st, i, a):
        return sdata(a[0]) if a[0].k == "arg" else NotImplemented

    def ss(I, st, i, a):
        return ssize(st, a[0]) if a[0].k == "arg" else NotImplemented

    def n3(k):
        def h(I, st, i, a):
            for p in (a[0], a[1]):
                I.reads(st, i, p, a[2], "read by " + k, cstring=k == "strncmp")
            st.seq += 1
            return mk("call", 32, k, tuple(a), st.seq)
        return h

    def sctor(I, st, i, a):
        """characters taken from a pointer and a length, or up to the terminator"""
        for j, x in enumerate(a):
            if j and msg_of(x):
                if j + 1 < len(a) and i.get("aty")[j + 1] == "i64":
                    I.reads(st, i, x, a[j + 1], "read by std::string")
                else:
                    I.reads(st, i, x, C(1 << 20, 64), "read by std::string", cstring=True)
        return NotImplemented

    def strto(I, st, i, a):
        I.reads(st, i, a[0], C(1 << 20, 64), "read by " + i.callee, cstring=True)
        st.seq += 1
        return mk("call", width(i.ty), i.callee, tuple(a), st.seq)

    def fmt(I, st, i, a):
        """formatted output: only strings with a precision, or in a terminated message"""
        name = i.callee
        first = next((k for k, x in enumerate(a) if x.k == "glob"), None)
        f = I.mod.cstr(a[first].a[0]) if first is not None else None
        for j, x in enumerate(a):
            if msg_of(x) and (first is None or j > first):
                specs = re.findall(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", f or "")
                ops = []
                for w, p, c in specs:
                    if c == "%":
                        continue
                    if w == "*": ops.append(("*", None))
                    if p == "*": ops.append(("*", None))
                    ops.append((c, p))
                o = ops[j - first - 1] if j - first - 1 < len(ops) else ("?", None)
                if o[0] == "p":
                    continue
                n = C(int(o[1]), 64) if o[1] and o[1].isdigit() else None
                if o[1] == "*" and j:
                    n = I.resize(st, "zext", a[j - 1], 64) if a[j - 1].w == 32 else None
                I.reads(st, i, x, n if n is not None else C(1 << 20, 64), "formatted output", cstring=True)
        return NotImplemented

    def follow(I, st, i, a):
        if re.search(r"::(parse_error|throwf)\(", i.callee):
            return NotImplemented
        nm = I.mod.aliases.get(i.get("fn"), i.get("fn"))
        if nm in I.need or any(msg_of(x) for x in a):
            g = I.mod.fns.get(nm)
            if g is not None and g.blocks:
                return ("into", g, a)
            if any(msg_of(x) for x in a) and i.callee.startswith("wreport::"):
                raise ToolError("no code for %s" % i.callee)
        return NotImplemented

    def other(I, st, i, a):
        if any(msg_of(x) for x in a) and not i.callee.startswith("llvm."):
            for x in a:
                if msg_of(x):
                    I.reads(st, i, x, C(1 << 30, 64), "passed to %s" % i.callee)
        return NotImplemented

    return [(STR + r"(data|c_str)\(\)( const)?$", sd), (STR + r"(size|length)\(\) const$", ss), (r"^memcmp$", n3("memcmp")), (r"^strn(case)?cmp$", n3("strncmp")),
            (STR, sctor), (r"^(__isoc23_)?(strto(l|ul|ll|ull|d)|atoi|atol)$", strto), (r"::(parse_error|throwf)\(|^f?printf$|^v?s?n?printf$", fmt), (r"^wreport::", follow),
            (r"^(?!std::|wreport::|llvm\.|printf|fprintf|__cxa|operator)", other)]
