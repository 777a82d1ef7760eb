"""Data sections: what BufrBulletin::encode writes for a subset of variables, and what Decoder::decode_data makes of it, item by item.

Both are followed from their entry points through the descriptor interpreter, for one program and one layout of variables at a time; the values of
the variables, and the table entries, are symbolic.  What one bit field, number or text looks like as bits is the business of other checks."""
import re
from . import codec, text, vobj
from .absint import *
from .sink import Sink
from .seq import obj
from .vobj import Val
from .dds import Machine, Vecs, F, name
from .build import ToolError

OUT = r"^wreport::buffers::BufrOutput::"
IN = r"^wreport::bufr::Input::"
INTO = (r"^wreport::bulletin::(Interpreter|Bitmaps?|UncompressedEncoder|AssociatedField)::(?!~)|^wreport::\(anonymous namespace\)::(DDSEncoder|Encoder)::(?!~)|"
        r"^wreport::bufr::(DataSectionDecoder|UncompressedDecoderTarget|DecoderTarget|DispatchToSubsets)::(?!~)|^wreport::Bulletin::(obtain_)?subset\(")


class Mismatch(Exception):
    def __init__(self, where, text):
        self.where, self.text = where, text


def load():
    no = codec.STRNO + vobj.NOIN + [r"^wreport::notes::", r"^std::(stack|deque|map)<", r"^wreport::(Vartable|DTable|Tables)::", r"Interpreter::", r"Bitmaps?::", r"^strn?cmp$", r"DDSEncoder::",
                                    r"UncompressedEncoder::", r"BufrOutput::", r"AssociatedField::", r"^wreport::Bulletin::", "DecoderTarget::", r"DataSectionDecoder::", r"bufr::Input::"]
    return codec.load([r"^wreport::BufrBulletin::encode", r"^wreport::bufr::Decoder::decode_data\(", r"^wreport::bulletin::(Interpreter|Bitmap|Bitmaps|UncompressedEncoder|AssociatedField)::",
                       r"anonymous namespace.*::DDSEncoder::", r"^wreport::bufr::(DataSection|Uncompressed|DecoderTarget)", "^wreport::Bulletin::(obtain_)?subset"], noinline=no)


class Section(Machine):
    def __init__(self, mod):
        Machine.__init__(self, mod)
        self.ssize = mod.types["wreport::Subset"]["size"]
        self.bf = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::BufrBulletin")}
        self.df = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::bufr::Decoder")}
        self.sf = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::Subset")}
        self.bul = obj("bulletin")
        self.tables = add(self.bul, C(self.bf["tables"][0], 64))
        self.afobj = 0

    # -- definitions
    def defn(self, x):
        """(code, scale, length, reference) of a definition"""
        if x.k == "info" and isc(x.a[0]):
            return (uval(x.a[0]),) + tuple(self.inf(x, n) for n in ("scale", "bit_len", "bit_ref"))
        if x.k == "altered" and isc(x.a[0]):
            return (uval(x.a[0]),) + x.a[1:]
        return x

    def h_virtual(self, I, st, i, a):
        cv, args = a[0], a[1:]
        if cv.k == "glob" and re.search(r"D[0-2]Ev", cv.a[0]):
            return True                       # destructors
        r = Machine.h_virtual(self, I, st, i, a)
        if isinstance(r, T) and r.k in ("info", "altered") and isc(r.a[0]):
            self.known_info(I, st, r)
        return r

    def leaf(self, I, st, i, leaf, args):
        raise Mismatch(i.loc, "%s is not implemented" % leaf)

    def known_info(self, I, st, r):
        c = uval(r.a[0])
        I.store(st, add(r, C(self.M.io["code"][0], 64)), C(c, 16), 2)
        ty = self.types.get(c, "Integer")
        I.store(st, add(r, C(self.M.io["type"][0], 64)), C(self.M.types[ty], 8 * self.M.io["type"][1]), self.M.io["type"][1])
        if r.k == "altered":
            for n, v in zip(("scale", "bit_len", "bit_ref"), r.a[1:]):
                I.store(st, add(r, C(self.M.io[n][0], 64)), v, self.M.io[n][1])
        elif c in self.widths:
            I.store(st, add(r, C(self.M.io["bit_len"][0], 64)), C(self.widths[c], 32), 4)
        if c in self.brefs and r.k == "info":
            I.store(st, add(r, C(self.M.io["bit_ref"][0], 64)), C(self.brefs[c], 32), 4)

    def h_unknown(self, I, st, i, a):
        r = mk("unknown", 64, *a[1:])
        st.assume(mk("eq0", 1, r), False)
        I.store(st, add(r, C(self.M.io["code"][0], 64)), a[1], 2)
        I.store(st, add(r, C(self.M.io["type"][0], 64)), C(self.M.types["Binary"], 8 * self.M.io["type"][1]), self.M.io["type"][1])
        return r

    def special(self, I, st, what, code, n):
        """definitions made on the fly, for bitmaps and character data"""
        r = mk(what, 64, C(code, 16), C(n, 32))
        st.assume(mk("eq0", 1, r), False)
        I.store(st, add(r, C(self.M.io["code"][0], 64)), C(code, 16), 2)
        I.store(st, add(r, C(self.M.io["len"][0], 64)), C(n, 32), self.M.io["len"][1])
        I.store(st, add(r, C(self.M.io["type"][0], 64)), C(self.M.types["String"], 8 * self.M.io["type"][1]), self.M.io["type"][1])
        return r

    def h_getbitmap(self, I, st, i, a):
        b = st.objs.get(("bstr", a[2]))
        if b is None or not isc(a[1]):
            return NotImplemented
        return self.special(I, st, "bitmapdef", uval(a[1]), len(b))

    def h_getchar(self, I, st, i, a):
        return self.special(I, st, "chardef", uval(a[1]), uval(a[2]))

    # -- variables
    def h_bmvar(self, I, st, i, a):
        b = st.objs.get(("bstr", a[2]))
        if b is None:
            return NotImplemented
        vobj.put(st, a[0], Val(a[1], "bm", b))
        return True

    def h_enq(self, I, st, i, a):
        v = vobj.get(st, a[0])
        if v.kind == "bm":
            d = obj("bitmap " + v.v)
            st.assume(mk("eq0", 1, d), False)
            for k, ch in enumerate(v.v + "\0"):
                I.store(st, add(d, C(k, 64)), C(ord(ch), 8), 1)
            return d
        if v.kind == "raw" or re.search(r"enqc|enq\(char", i.callee):
            return mk("text of", 64, v.v if isinstance(v.v, T) else a[0])
        return NotImplemented

    def h_enqi(self, I, st, i, a):
        v = vobj.get(st, a[0])
        return v.v if v.kind == "i" else NotImplemented

    def h_enqa(self, I, st, i, a):
        if not isc(a[1]):
            return NotImplemented
        v = vobj.get(st, a[0])
        if not self.attrs or v.kind != "?":
            return C(0, 64)
        r = mk("attribute of", 64, v.v, a[1])
        st.assume(mk("eq0", 1, r), False)
        vobj.put(st, r, Val(mk("attrinfo", 64, a[1]), "d", r))
        return r

    def h_getaf(self, I, st, i, a):
        v = vobj.get(st, a[1])
        if not self.attrs:
            return C(0, 64)
        r = mk("associated field of", 64, v.v if isinstance(v.v, T) else a[1])
        st.assume(mk("eq0", 1, r), False)
        vobj.put(st, r, Val(mk("afinfo", 64), "i", mk("afvalue", 32, v.v if isinstance(v.v, T) else a[1])))
        return r

    def h_makeaf(self, I, st, i, a):
        n = st.objs.get(("naf",), 0)
        st.objs[("naf",)] = n + 1
        r = mk("af variable", 64, n)
        st.assume(mk("eq0", 1, r), False)
        bits = I.load(st, add(a[1], C(self.af["bit_count"][0], 64)), "i32", 4)
        vobj.put(st, r, Val(mk("afinfo", 64), "af", (a[2], bits, I.load(st, add(a[1], C(self.af["significance"][0], 64)), "i32", 4))))
        I.store(st, a[0], r, 8)
        return True

    def h_store(self, I, st, i, a):
        n = self.V.n(st, a[0])
        at = add(self.V.data(st, a[0]), C(n * self.vsize, 64))
        vobj.put(st, at, vobj.get(st, a[1]))
        self.V.setn(I, st, a[0], n + 1, self.vsize)
        return True

    def stored(self, st, k):
        s = self.subset_at(k)
        d = self.V.data(st, s)
        return [vobj.get(st, add(d, C(j * self.vsize, 64))) for j in range(self.V.n(st, s))]

    # -- containers
    def h_ctor(self, I, st, i, a):
        if "map<" in i.callee.split("(")[0]:
            st.objs[("map", a[0])] = ()
        elif "stack<wreport::Opcodes" in i.callee and "~" not in i.callee:
            st.objs[("stack",)] = 0
        return True

    # -- the encoder's output
    def h_out(self, I, st, i, a):
        fn = re.search(r"BufrOutput::(\w+)\(", i.callee).group(1)
        sig = i.callee
        if fn == "append_var":
            it = ("var", a[1], vobj.get(st, a[2]))
        elif fn == "append_missing":
            it = ("missing", a[1]) if "_Varinfo" in sig else ("ones", a[1])
        elif fn == "add_bits":
            it = ("bits", a[1], a[2])
        elif fn in ("append_byte", "append_short"):
            it = ("bits", a[1], C(8 if fn == "append_byte" else 16, 32))
        elif fn == "append_string":
            it = ("text", vobj.get(st, a[1]).v if "Var const" in sig else a[1], a[2])
        elif fn == "append_binary":
            it = ("binary", a[1], a[2])
        else:
            it = (fn,)
        st.ev.append(Ev("out", i, list(it), None, st.loops))
        return True

    def h_interp(self, I, st, i, a):
        st.ev.append(Ev("begin", i, [], None, st.loops))
        return NotImplemented

    # -- the decoder's input
    def nextitem(self, st, i):
        n, k = st.objs.get(("pos",), (0, 0))
        if n >= len(self.items):
            raise Mismatch(i.loc, "reads more than what was written")
        return n, k, self.items[n]

    def h_bits(self, I, st, i, a):
        n, k, it = self.nextitem(st, i)
        w = a[1]
        if it[0] == "bits" and k == 0 and it[2] is w:
            st.objs[("pos",)] = (n + 1, 0)
            return it[1]
        if it[0] == "ones" and k == 0 and it[1] is w and isc(w) and uval(w) <= 32:
            st.objs[("pos",)] = (n + 1, 0)
            return C((1 << uval(w)) - 1, 32)
        if it[0] in ("text", "binary") and isc(it[2]) and isc(w) and uval(w) == 8:
            tot = uval(it[2])
            if k + 8 <= tot:
                st.objs[("pos",)] = (n + 1, 0) if k + 8 == tot else (n, k + 8)
                return mk("char of", 32, it[1], k // 8)
        raise Mismatch(i.loc, "reads %s bits where %s was written" % (w, self.show(it)))

    def show(self, it):
        if it[0] == "var":
            return "a variable defined as %s" % (self.defn(it[1]),)
        if it[0] == "missing":
            return "a missing variable defined as %s" % (self.defn(it[1]),)
        if it[0] == "bits":
            return "%s in %s bits" % (it[1], it[2])
        if it[0] == "ones":
            return "a missing value in %s bits" % (it[1],)
        return "%s of %s bits" % (it[0], it[2]) if len(it) > 2 else it[0]

    def h_decode(self, I, st, i, a):
        n, k, it = self.nextitem(st, i)
        v = vobj.get(st, a[1])
        fn = re.search(r"Input::(\w+)\(", i.callee).group(1)
        if it[0] not in ("var", "missing") or self.defn(it[1]) != self.defn(v.info):
            raise Mismatch(i.loc, "reads a variable defined as %s where %s was written" % (self.defn(v.info), self.show(it)))
        d = v.info.a[0]
        ty = "Binary" if v.info.k == "unknown" else self.types.get(uval(d), "Integer")
        want = {"String": "decode_string", "Binary": "decode_binary"}.get(ty, "decode_number")
        if fn != want:
            raise Mismatch(i.loc, "%s reads a variable of type %s" % (fn, ty))
        st.objs[("pos",)] = (n + 1, 0)
        src = it[2] if it[0] == "var" else None
        if src is None:
            # an attribute that is not there, or a variable that is not set
            nv = Val(v.info, "unset")
        else:
            nv = Val(v.info, src.kind, src.v)
        vobj.put(st, a[1], nv)
        return True

    def h_bitmap(self, I, st, i, a):
        n, k, it = self.nextitem(st, i)
        if not isc(a[2]):
            return NotImplemented
        r = ""
        for j in range(uval(a[2])):
            b = self.h_bits(I, st, i, [a[1], C(1, 32)])
            if not isc(b):
                return NotImplemented
            r += "-" if uval(b) else "+"
        st.objs[("bstr", a[0])] = r
        return True

    def subset_at(self, k):
        return add(self.V.data_of(add(self.bul, C(self.bf["subsets"][0], 64))), C(k * self.ssize, 64))

    # -- runs
    def hooks(self, dec):
        ign = lambda I, st, i, a: True
        S = Sink()
        X = text.Strs().hooks() if dec else []
        H = [(r"<indirect>", self.h_virtual), (r"^std::stack<wreport::Opcodes.*::(push|emplace)\(", self.h_push), (r"^std::stack<wreport::Opcodes.*::top\(", self.h_top),
             (r"^std::stack<wreport::Opcodes.*::pop\(", self.h_pop), (r"^std::stack<wreport::Opcodes.*::empty\(", self.h_empty),
             (r"^std::(stack|map|deque)<.*>::~?(stack|map|deque)(<.*>)?\(", self.h_ctor), (r"^std::map<unsigned short, (unsigned )?int,", self.h_map),
             (r"^wreport::Tables::get_unknown\(", self.h_unknown), (r"^wreport::Tables::get_bitmap\(", self.h_getbitmap), (r"^wreport::Tables::get_chardata\(", self.h_getchar),
             (r"^strn?cmp$", self.h_strcmp), (r"^wreport::notes::", ign), (r"::~(Interpreter|UncompressedEncoder|DDSEncoder|DataSectionDecoder|UncompressedDecoderTarget|DecoderTarget|Bitmaps|AssociatedField)\(", ign),
             (r"^wreport::bulletin::Interpreter::Interpreter\(", self.h_interp), (r"^wreport::bulletin::AssociatedField::get_attribute\(", self.h_getaf),
             (r"^wreport::bulletin::AssociatedField::make_attribute\(", self.h_makeaf), (r"^wreport::Var::Var\(wreport::_Varinfo const\*, std::__cxx11::basic_string", self.h_bmvar),
             (r"^wreport::Var::(enqc\(|enq\(char const|enq<char const)", self.h_enq), (r"^wreport::Var::(enqi\(|enq\(int|enq<int>)", self.h_enqi), (r"^wreport::Var::enqa\(", self.h_enqa),
             (r"^wreport::Subset::store_variable\(wreport::Var( const&|&&)\)", self.h_store)]
        if dec:
            H += [(IN + r"get_bits\(", self.h_bits), (IN + r"decode_(number|string|binary)\(wreport::Var&\)", self.h_decode), (IN + r"decode_uncompressed_bitmap(\[|\()", self.h_bitmap),
                  (IN + r"check_available", ign), (r"^memcmp$", lambda I, st, i, a: C(0, 32))]
        else:
            H += [(OUT, self.h_out)]
        return H + vobj.hooks() + self.V.hooks() + X + S.hooks()

    def base(self, I, st, prog, subsets):
        for o in (self.bul, self.bt, self.dt):
            st.assume(mk("eq0", 1, o), False)
        I.store(st, add(self.tables, C(self.to["btable"][0], 64)), self.bt, 8)
        I.store(st, add(self.tables, C(self.to["dtable"][0], 64)), self.dt, 8)
        if "edition_number" in self.bf:
            I.store(st, add(self.bul, C(self.bf["edition_number"][0], 64)), C(4, 8), 1)
        if "optional_section" in self.bf:
            st.objs[("str", add(self.bul, C(self.bf["optional_section"][0], 64)))] = ((), C(0, 64))
        dd = add(self.bul, C(self.bf["datadesc"][0], 64))
        self.V.setn(I, st, dd, len(prog), 2)
        for k, c in enumerate(prog):
            I.store(st, add(self.V.data(st, dd), C(2 * k, 64)), C(c, 16), 2)
        for c, l in self.dtable.items():
            arr = obj("D%05d" % c)
            st.assume(mk("eq0", 1, arr), False)
            for k, x in enumerate(l):
                I.store(st, add(arr, C(2 * k, 64)), C(x, 16), 2)
        sv = add(self.bul, C(self.bf["subsets"][0], 64))
        self.V.setn(I, st, sv, len(subsets), self.ssize)
        self.V.data(st, sv)
        for k, vs in enumerate(subsets):
            s = self.subset_at(k)
            I.store(st, add(s, C(self.sf["tables"][0], 64)), self.tables, 8)
            self.V.setn(I, st, s, len(vs), self.vsize)
            for j, v in enumerate(vs):
                at = add(self.V.data(st, s), C(j * self.vsize, 64))
                v = v(I, st) if callable(v) else v
                vobj.put(st, at, v)

    def params(self, dtable=None, types=None, units=None, widths=None, attrs=True, known=None, brefs=None):
        self.dtable, self.types, self.units, self.widths, self.attrs, self.known, self.brefs = dtable or {}, types or {}, units or {}, widths or {}, attrs, known, brefs or {}

    def encode(self, prog, subsets):
        f = self.mod.find(r"^wreport::BufrBulletin::encode")
        self.runs += 1
        I = Interp(self.mod, f, hooks=self.hooks(False), unroll=600, fork_exits=True, canon_bits=True, into=INTO, icall_pure=True, max_paths=2000)
        n = 1 if f.args[0].get("sret") else 0
        return I, I.run(args={n: self.bul}, init=lambda I, st: self.base(I, st, prog, subsets))

    def items_of(self, p):
        """what was written, for each subset"""
        res = []
        for e in p.ev:
            if e.kind == "begin":
                res.append([])
            elif e.kind == "out" and res:
                if e.a[0] == "flush":
                    break
                res[-1].append(tuple(e.a))
        return res

    def decode(self, prog, nsubsets, items):
        f = self.mod.find(r"^wreport::bufr::Decoder::decode_data\(")
        self.runs += 1
        self.items = items
        d = obj("decoder")

        def init(I, st):
            self.base(I, st, prog, [[]] * nsubsets)
            st.assume(mk("eq0", 1, d), False)
            I.store(st, add(d, C(self.df["out"][0], 64)), self.bul, 8)
            I.store(st, add(d, C(self.df["expected_subsets"][0], 64)), C(nsubsets, 64), 8)
            I.store(st, add(d, C(self.df["verbose_output"][0], 64)), C(0, 64), 8)
            I.store(st, add(self.bul, C(self.bf["compression"][0], 64)), C(0, 8), 1)
        I = Interp(self.mod, f, hooks=self.hooks(True), unroll=600, fork_exits=True, canon_bits=True, into=INTO, icall_pure=True, max_paths=2000)
        return I, I.run(args={0: d}, init=init)
