"""Abstract BUFR messages: what BufrBulletin::encode appends, path by path."""
from . import build, ir
from .absint import *
from .sink import Sink
from .build import ToolError

POST = ("function(sroa,early-cse,sccp,instsimplify,simplifycfg,loop-simplify,lcssa,sroa,early-cse,"
        "instsimplify,simplifycfg,adce)")
STRNO = [r"^std::__cxx11::basic_string<", r"^std::vector<.*>::(size|empty|begin|end|cbegin|cend|data|front|back|operator\[\]|at|push_back|reserve)\(", r"^std::vector<.*>::emplace_back",
         r"^std::(__cxx11::)?to_string(\[abi:cxx11\])?\("]
ESIZES = {"unsigned short": 2, "unsigned char": 1, "char": 1}

B = "wreport::BufrBulletin"


def vec_sizes(mod):
    d = dict(ESIZES)
    for n, t in mod.types.items():
        d[n] = t["size"]
    return d


def load(roots, noinline=(), post=POST, parts=("lib",), **kw):
    bc, files = build.bitcode(parts)
    cfg = {"roots": list(roots), "noinline": ["parse_error", "throwf"] + list(noinline), "post": post}
    cfg.update(kw)
    m = ir.Mod(build.dump(bc, cfg))
    if m.capped:
        raise ToolError("inlining budget exceeded for %s" % m.capped)
    m.files = files
    return m


def h_memcmp(I, st, i, a):
    """comparison of known bytes"""
    if not isc(a[2]) or a[2].a[0] > 64:
        return NotImplemented
    for k in range(a[2].a[0]):
        x = I.load(st, add(a[0], C(k, 64)), "i8", 1)
        y = I.load(st, add(a[1], C(k, 64)), "i8", 1)
        if not (isc(x) and isc(y)):
            return NotImplemented
        if x is not y:
            return C(-1 if uval(x) < uval(y) else 1, 32)
    return C(0, 32)


class Encoded:
    """one abstract encoded message"""
    def __init__(self, path, items, size, I, S, this):
        self.path, self.items, self.size, self.I, self.S, self.this = path, items, size, I, S, this
        self.st = path.st


def field_offsets(mod, ty=B):
    return {n: (o, sz) for o, sz, n, t in mod.fields(ty)}


def encode_mod():
    return load([r"^wreport::BufrBulletin::encode"],
                noinline=[r"Interpreter::run", r"DDSEncoder::DDSEncoder", r"DDSEncoder::~DDSEncoder"] + STRNO)


def encode_paths(mod, ranges, vmax=1 << 21):
    """run the abstract interpreter on encode(); ranges: field -> (lo, hi)"""
    f = mod.find(r"^wreport::BufrBulletin::encode")
    fo = field_offsets(mod)
    S = Sink()
    S.vmax = vmax
    S.gmax = 1 << 21

    def h_run(I, st, i, a):
        # the data section encoder appends an unknown number of bits through the output object
        for k in list(st.objs):
            if k[0] == "str" and k[1].k in ("arg", "alloca"):
                it, sz = st.objs[k]
                n = I.fresh(64, "data section bytes")
                st.setiv(n, slo=0, shi=1 << 21, ulo=0, uhi=1 << 21)
                st.objs[k] = (it + (("?", "data", n, i),), add(sz, n))
        h_state(I, st)
        return True

    def h_state(I, st):
        for r in list(st.mem):
            if r.k == "alloca" and "BufrOutput" in str(I.fn.ins[r.a[0]].get("aty")):
                for o, sz, nm, ty in mod.fields("wreport::buffers::BufrOutput"):
                    if not ty.endswith("&"):
                        v = I.fresh(8 * sz, nm)
                        if nm == "pbyte_len":
                            st.setiv(v, slo=0, shi=7, ulo=0, uhi=7)
                        I.store(st, add(r, C(o, 64)), v, sz)

    h_run.loop_effect = h_state
    hooks = S.hooks() + S.vhooks(vec_sizes(mod)) + [
        (r"Interpreter::run\(", h_run), (r"DDSEncoder::~?DDSEncoder", lambda I, st, i, a: True)]
    argi = 0 if not f.args[0].get("sret") else 1
    this = mk("arg", 64, argi, f.args[argi]["n"] or "this")

    def init(I, st):
        for name, (lo, hi) in ranges.items():
            if name not in fo:
                raise ToolError("no field %s in %s" % (name, B))
            o, sz = fo[name]
            a = add(this, C(o, 64))
            t = mk("ld", 8 * sz, a, 0)
            st.setiv(t, ulo=lo, uhi=hi)
            if hi < 1 << (8 * sz - 1):
                st.setiv(t, slo=lo, shi=hi)
        # the optional section fits in the 24 bit length of its section
        o, sz = fo["optional_section"]
        t = mk("strlen", 64, add(this, C(o, 64)), 0)
        st.setiv(t, slo=0, shi=(1 << 21), ulo=0, uhi=(1 << 21))

    for rnd in range(3):
        I = Interp(mod, f, hooks=hooks, unroll=70, on_loop=S.on_loop, on_havoc=S.on_havoc,
                   on_loop_exit=S.on_loop_exit, canon_bits=True)
        paths = I.run(init=init)
        old = S.delta
        S.learn(paths)
        if S.delta == old:
            break
    res = []
    sret = mk("arg", 64, 0, f.args[0]["n"])
    for p in paths:
        if p.end == "ret":
            it, sz = p.st.objs[("str", sret)]
            res.append(Encoded(p, it, sz, I, S, this))
    return f, I, S, paths, res


# ------------------------------------------------------------------ messages

class Message:
    """the bytes of one abstract message, addressed by position terms"""

    def __init__(self, enc, sret):
        self.enc, self.I, self.st = enc, enc.I, enc.st
        self.bytes = {}
        self.loops = []
        self.bufs = []
        self.order = []
        pos = C(0, 64)
        for it in enc.items:
            pos = resolved(self.st, pos)
            if it[0] == "b":
                self.bytes[pos] = it[1]
                self.order.append(pos)
                pos = add(pos, C(1, 64))
            elif it[0] == "buf":
                self.bufs.append((pos, it[1], it[2]))
                pos = add(pos, it[2])
            elif it[0] == "loop":
                if len(it) > 3:
                    if it[5]:
                        self.loops.append((it[1], pos, it[4], it[5]))
                    pos = it[2]
                else:
                    pos = it[2]
            elif it[0] in ("?", "str", "fill"):
                pos = add(pos, it[2])
        self.end = resolved(self.st, pos)
        base = mk("strdata", 64, sret)
        for e in enc.path.ev:
            if e.kind == "store" and not e.loops:
                off = sub(e.a[0], base)
                k, d = aslin(off)
                if base in d or any(x.k in ("alloca", "arg", "glob", "new", "ld", "call") and v == 1 for x, v in d.items()):
                    continue
                n = SIZE.get(e.ins.get("oty"), 8)
                b = bits(e.a[1])
                for j in range(n):
                    p = resolved(self.st, add(off, C(j, 64)))
                    self.bytes[p] = frombits(self.I, self.st, b[8 * j:8 * j + 8])

        self.bytes = {p: self.settled(v) for p, v in self.bytes.items()}

    def settled(self, v):
        """a byte in terms of what is known of the bits it depends on"""
        b = bits(v)
        n = []
        for q in b:
            if isinstance(q, tuple):
                y = resolved(self.st, q[0])
                q = bits(y)[q[1]] if y is not q[0] else q
            n.append(q)
        return v if n == b else frombits(self.I, self.st, n)

    def number(self, pos, n):
        """big endian number of n bytes at pos as a 64 bit term, or None"""
        b = []
        for k in range(n):
            x = self.bytes.get(add(pos, C(k, 64)))
            if x is None:
                return None
            b = bits(x) + b
        return resolved(self.st, frombits(self.I, self.st, b + [0] * (64 - len(b))))
