"""Definitions that are made on demand, for bitmaps, character data and local descriptors of unknown meaning"""
import re
from wra import codec, text
from wra.absint import *
from wra.build import ToolError
from wra.seq import obj
from wra.var import VarModel

RULE = "definitions made on demand have the code and size asked for, whatever was asked for before"


class Maps:
    """std::map with keys that are known numbers, texts and pairs of these; entries are kept in the state"""

    def __init__(self, strs, entry_size):
        self.X, self.es = strs, entry_size

    def key_type(self, callee):
        i = callee.index("std::map<") + 9
        return split_targs(callee[i:])[0].replace(" const", "").strip()

    def layout(self, t):
        """[(offset, type)], size, alignment"""
        n = {"unsigned short": 2, "short": 2, "unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8, "unsigned char": 1, "bool": 1, "unsigned long long": 8}.get(t)
        if n:
            return [(0, n)], n, n
        if t.startswith("std::__cxx11::basic_string<char"):
            return [(0, "s")], 32, 8
        m = re.match(r"std::pair<", t)
        if m:
            out, off, al = [], 0, 1
            for x in split_targs(t[m.end():])[:2]:
                l, s, a = self.layout(x.replace(" const", "").strip())
                off = -(-off // a) * a
                out += [(off + o, k) for o, k in l]
                off, al = off + s, max(al, a)
            return out, -(-off // al) * al, al
        raise ToolError("keys of type %s" % t)

    def key(self, I, st, t, p):
        r = []
        for o, k in self.layout(t)[0]:
            a = add(p, C(o, 64))
            if k == "s":
                b = self.X.get(I, st, a)
                if b is None or not all(isc(x) for x in b):
                    raise ToolError("a key that is not known")
                r.append(bytes(uval(x) for x in b))
            else:
                v = I.load(st, a, "i%d" % (8 * k), k)
                if not isc(v):
                    raise ToolError("a key that is not known: %s" % v)
                r.append(uval(v))
        return tuple(r)

    def off(self, t):
        return -(-self.layout(t)[1] // 8) * 8

    def hooks(self):
        M = r"std::map<.*>::"

        def end(m):
            return obj("end of %r" % (m,))

        def find(I, st, i, a):
            k = self.key(I, st, self.key_type(i.callee), a[1])
            n = st.objs.get(("entry", a[0], k))
            return n if n is not None else end(a[0])

        def bound(I, st, i, a):
            k = self.key(I, st, self.key_type(i.callee), a[1])
            later = sorted(x[2] for x in st.objs if isinstance(x, tuple) and x[0] == "entry" and x[1] is a[0] and (x[2] > k or x[2] == k and "lower" in i.callee))
            return st.objs[("entry", a[0], later[0])] if later else end(a[0])

        def make(I, st, m, k, t):
            n = st.objs.get(("entry", m, k))
            if n is not None:
                return n, False
            n = obj("entry %d of %r" % (len([x for x in st.objs if isinstance(x, tuple) and x[0] == "entry"]), m))
            st.objs[("entry", m, k)] = n
            I.ptr.add(n)
            st.assume(mk("eq0", 1, n), False)
            st.assume(I.mkeq(st, n, end(m)), False)
            for (o, w), v in zip(self.layout(t)[0], k):
                if w == "s":
                    self.X.set(I, st, add(n, C(32 + o, 64)), [C(x, 8) for x in v])
                else:
                    I.store(st, add(n, C(32 + o, 64)), C(v, 8 * w), w)
            return n, True

        def emplace(I, st, i, a):
            if "_hint" in i.callee:
                a = [a[0]] + list(a[2:])
            t = self.key_type(i.callee)
            k = self.key(I, st, t, a[1])
            n, new = make(I, st, a[0], k, t)
            if new:
                # emplace(pair), insert(pair), emplace(key, value), try_emplace(key, arguments)
                src = add(a[1], C(self.off(t), 64)) if len(a) == 2 and "try_emplace" not in i.callee else a[2] if len(a) == 3 else None
                if src is not None:
                    self.copy(I, st, add(n, C(32 + self.off(t), 64)), src)
            if "_hint" in i.callee:
                return n
            return mk("insertvalue", "agg", mk("insertvalue", "agg", mk("undef", "agg"), n, (0,)), C(1 if new else 0, 8), (1,))

        def slot(I, st, i, a):
            t = self.key_type(i.callee)
            k = self.key(I, st, t, a[1])
            n = st.objs.get(("entry", a[0], k))
            if n is None and "::at(" in i.callee:
                raise ToolError("an entry that is not there at %s" % i.loc)
            if n is None:
                n, _ = make(I, st, a[0], k, t)
            return add(n, C(32 + self.off(t), 64))

        def count(I, st, i, a):
            k = self.key(I, st, self.key_type(i.callee), a[1])
            return C(1 if ("entry", a[0], k) in st.objs else 0, width(i.ty))
        return [(M + r"find\(", find), (M + r"c?end\(\)", lambda I, st, i, a: end(a[0])), (M + r"(lower|upper)_bound\(", bound), (M + r"(emplace_hint|emplace|insert|try_emplace|insert_or_assign)(<.*>)?\(", emplace), (M + r"(operator\[\]|at)\(", slot),
                (M + r"(count|contains)\(", count)]

    def copy(self, I, st, dst, src):
        for n, (o, sz) in self.es.items():
            v = I.load(st, add(src, C(o, 64)), "i%d" % (8 * sz), sz)
            I.store(st, add(dst, C(o, 64)), v, sz)


def split_targs(s):
    r, cur, d = [], "", 0
    for ch in s:
        if ch == ">" and d == 0:
            break
        if ch == "," and d == 0:
            r.append(cur.strip())
            cur = ""
            continue
        d += (ch in "<(") - (ch in ">)")
        cur += ch
    return r + [cur.strip()]


def SHOW(x):
    return x if not isinstance(x, bytes) else "'%s'" % x.decode() if len(x) < 20 else "of %d characters" % len(x)


def made_up(rep):
    mod = codec.load([r"^wreport::Tables::get_"], noinline=codec.STRNO + [r"std::map<.*>::(find|lower_bound|upper_bound|c?end|emplace|emplace_hint|insert|try_emplace|insert_or_assign|operator\[\]|at|count|contains)(<.*>)?\(", r"^wreport::_Varinfo::"])
    M = VarModel(mod)
    code = lambda f, x, y: f << 14 | x << 8 | y
    reqs = {"get_bitmap": [(code(2, x, 0), b) for x in (22, 23, 24) for b in (b"+-+", b"++-", b"+-+-", b"", b"+" * 300)],
            "get_unknown": [(code(0, x, y), n) for x, y in ((1, 192), (1, 193), (63, 255)) for n in (1, 8, 9, 255)],
            "get_chardata": [(code(2, 5, y), y) for y in (1, 2, 64, 255)]}
    tables = obj("tables")
    for name, rs in reqs.items():
        f = mod.find(r"^wreport::Tables::%s\(" % name)
        small = {n: M.io[n] for n in ("code", "len", "bit_len", "scale", "bit_ref", "type")}
        X = text.Strs()
        maps = Maps(X, small)

        def h_set(I, st, i, a):
            kind = re.search(r"set_(\w+)\(", i.callee).group(1)
            if kind not in ("string", "binary"):
                raise ToolError("definition made by set_%s at %s" % (kind, i.loc))
            n = a[3]
            put = {"code": a[1], "len": n if kind == "string" else I.binop(st, "udiv", add(n, C(7, 32)), C(8, 32)), "bit_len": scale(n, 8) if kind == "string" else n,
                   "scale": C(0, 32), "bit_ref": C(0, 32), "type": C(M.types["String" if kind == "string" else "Binary"], 32)}
            for k, v in put.items():
                I.store(st, add(a[0], C(M.io[k][0], 64)), v, M.io[k][1])
            return True
        for first in [None] + rs:
            for second in rs:
                given = []
                world = None
                ok = True
                for r in ([first] if first is not None else []) + [second]:
                    bm = obj("bitmap %d" % len(given))

                    def init(I, st):
                        if world is not None:
                            st.mem.update({k: dict(v) for k, v in world.mem.items()})
                            st.objs.update(world.objs)
                            st.known.update(world.known)
                        st.assume(mk("eq0", 1, tables), False)
                        if name == "get_bitmap":
                            X.set(I, st, bm, [C(x, 8) for x in r[1]])
                    I = Interp(mod, f, hooks=[(r"^wreport::_Varinfo::set_\w+\(", h_set), (r"^wreport::_Varinfo::_Varinfo\(", lambda I, st, i, a: True)] + maps.hooks() + X.hooks() + text.hooks(), max_paths=500, unroll=8)
                    ps = I.run(args={0: tables, 1: C(r[0], 16), 2: bm if name == "get_bitmap" else C(r[1], 32)}, init=init)
                    what = "%s of %d%02d%03d %s%s" % (name, r[0] >> 14, r[0] >> 8 & 63, r[0] & 255, SHOW(r[1]), " after %d%02d%03d %s" % (first[0] >> 14, first[0] >> 8 & 63, first[0] & 255, SHOW(first[1])) if given else "")
                    if len(ps) != 1 or ps[0].end != "ret":
                        rep.bad(RULE, f.where, "%s: %s" % (what, ", ".join("%s %s" % (p.end, (p.what or "").split("(")[0]) for p in ps)))
                        ok = False
                        break
                    p = ps[0]
                    given.append((r, p.ret))
                    world = p.st
                    for q, d in given:
                        want = {"code": q[0], "type": M.types["Binary" if name == "get_unknown" else "String"]}
                        n = len(q[1]) if name == "get_bitmap" else q[1]
                        want["bit_len"] = n if name == "get_unknown" else 8 * n
                        want["len"] = -(-n // 8) if name == "get_unknown" else n
                        bad = []
                        for k, v in want.items():
                            o, sz = M.io[k]
                            g = I.load(p.st, add(d, C(o, 64)), "i%d" % (8 * sz), sz)
                            if not (isc(g) and uval(g) == v):
                                bad.append("%s is %s instead of %s" % (k, g, v))
                        rep.check(not bad, RULE, f.where, "%s: the definition of %s: %s" % (what, (q[0], len(q[1]) if name == "get_bitmap" else q[1]), "; ".join(bad)), what=what)
