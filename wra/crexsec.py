"""CREX messages: the text CrexBulletin::encode gives for a bulletin, character by character, and what CrexBulletin::decode makes of it."""
import re
from . import codec, vobj, text
from .absint import *
from .seq import obj
from .vobj import Val
from .dds import Machine, F, name
from .text import Strs, Fixed
from .build import ToolError

INTO = (r"^wreport::(bulletin::(Interpreter|UncompressedEncoder|Bitmaps?|AssociatedField)::(?!~)|bulletin::\(anonymous namespace\)::(?!.*::~)|\(anonymous namespace\)::(?!.*::~)|buffers::Crex(Input|Output)::(?!~|parse_error)|"
        r"Bulletin::(obtain_)?subset\(|varcode_parse\(|CrexBulletin::(encode|decode))")


def load():
    no = codec.STRNO + vobj.NOIN + [r"^wreport::notes::", r"^std::(stack|deque|map)<", r"std::vector<wreport::Subset", r"^wreport::(Vartable|DTable|Tables)::", r"Interpreter::", r"Bitmaps?::", r"^strn?cmp$",
                                    r"UncompressedEncoder::", r"CrexOutput::", r"CrexInput::", r"AssociatedField::", r"^wreport::Bulletin::", r"^wreport::CrexBulletin::", r"varcode_parse", r"anonymous namespace"]
    return codec.load([r"^wreport::CrexBulletin::(encode|decode)", r"^wreport::bulletin::(Interpreter|Bitmaps?|UncompressedEncoder|AssociatedField)::",
                       r"^wreport::(bulletin::)?\(anonymous namespace\)::", r"^wreport::buffers::Crex(Output|Input)::", r"^wreport::Bulletin::(obtain_)?subset", r"^wreport::varcode_parse"], noinline=no)


class Crex(Machine):
    def __init__(self, mod):
        Machine.__init__(self, mod)
        self.S = Strs()
        self.ssize = mod.types["wreport::Subset"]["size"]
        self.bf = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::CrexBulletin")}
        self.sf = {n: (o, sz) for o, sz, n, t in mod.fields("wreport::Subset")}
        self.known = None

    def at(self, bul, n):
        return add(bul, C(self.bf[n][0], 64)) if n in self.bf else add(self.this, C(self.fo[n][0], 64))

    # -- definitions
    def h_virtual(self, I, st, i, a):
        cv, args = a[0], a[1:]
        if cv.k == "glob":
            if re.search(r"D[0-2]Ev", cv.a[0]):
                return True
            if "CrexBulletin11load_tables" in cv.a[0]:
                return self.h_load(I, st, i, args)
            return NotImplemented
        r = Machine.h_virtual(self, I, st, i, a)
        if isinstance(r, T) and r.k in ("info", "altered") and isc(r.a[0]):
            self.known_info(I, st, r)
        return r

    def known_info(self, I, st, r):
        c = uval(r.a[0])
        io = self.M.io
        I.store(st, add(r, C(io["code"][0], 64)), C(c, 16), 2)
        I.store(st, add(r, C(io["type"][0], 64)), C(self.M.types[self.types.get(c, "Integer")], 8 * io["type"][1]), io["type"][1])
        I.store(st, add(r, C(io["len"][0], 64)), C(self.lens.get(c, 3), 32), io["len"][1])

    def h_load(self, I, st, i, a):
        self.base(I, st, a[0])
        return True

    def base(self, I, st, bul):
        t = self.at(bul, "tables")
        I.store(st, add(t, C(self.to["btable"][0], 64)), self.bt, 8)
        I.store(st, add(t, C(self.to["dtable"][0], 64)), self.dt, 8)
        for c, l in self.dtable.items():
            arr = obj("D%05d" % c)
            st.assume(mk("eq0", 1, arr), False)
            for k, x in enumerate(l):
                I.store(st, add(arr, C(2 * k, 64)), C(x, 16), 2)

    # -- variables
    def h_setc(self, I, st, i, a):
        v = vobj.get(st, a[0])
        b = text.cstr(I, st, a[1])
        if b is None:
            return NotImplemented
        vobj.put(st, a[0], Val(v.info, "c", tuple(b)))
        return True

    def h_sets(self, I, st, i, a):
        v = vobj.get(st, a[0])
        b = self.S.get(I, st, a[1])
        if b is None:
            return NotImplemented
        vobj.put(st, a[0], Val(v.info, "c", tuple(b)))
        return True

    def h_enqi(self, I, st, i, a):
        v = vobj.get(st, a[0])
        return v.v if v.kind == "i" else NotImplemented

    def h_enqc(self, I, st, i, a):
        v = vobj.get(st, a[0])
        if v.kind != "c":
            return NotImplemented
        d = obj("text %r" % (v.v,))
        st.assume(mk("eq0", 1, d), False)
        text.put(I, st, d, list(v.v) + [C(0, 8)])
        return d

    def h_store(self, I, st, i, a):
        n = self.V.n(st, a[0])
        vobj.put(st, add(self.V.data(st, a[0]), C(n * self.vsize, 64)), vobj.get(st, a[1]))
        self.V.setn(I, st, a[0], n + 1, self.vsize)
        return True

    def h_newsubset(self, I, st, i, a):
        n = self.V.n(st, a[0])
        s = add(self.V.data(st, a[0]), C(n * self.ssize, 64))
        self.V.setn(I, st, a[0], n + 1, self.ssize)
        self.V.setn(I, st, s, 0, self.vsize)
        return s if i.ty == "ptr" else True

    def h_ctor(self, I, st, i, a):
        if "map<" in i.callee.split("(")[0]:
            st.objs[("map", a[0])] = ()
        elif "stack<wreport::Opcodes" in i.callee and "~" not in i.callee:
            st.objs[("stack",)] = 0
        return True

    def h_create(self, I, st, i, a):
        st.assume(mk("eq0", 1, self.out), False)
        self.V.setn(I, st, self.at(self.out, "subsets"), 0, self.ssize)
        self.V.setn(I, st, self.at(self.out, "datadesc"), 0, 2)
        I.store(st, self.out, add(mk("glob", 64, "_ZTVN7wreport12CrexBulletinE"), C(16, 64)), 8)
        I.store(st, a[0], self.out, 8)
        return True

    def hooks(self):
        ign = lambda I, st, i, a: True
        H = [(r"<indirect>", self.h_virtual), (r"^std::stack<wreport::Opcodes.*::(push|emplace)\(", self.h_push), (r"^std::stack<wreport::Opcodes.*::top\(", self.h_top),
             (r"^std::stack<wreport::Opcodes.*::pop\(", self.h_pop), (r"^std::stack<wreport::Opcodes.*::empty\(", self.h_empty),
             (r"^std::(stack|map|deque)<.*>::~?(stack|map|deque)(<.*>)?\(", self.h_ctor), (r"^std::map<unsigned short, (unsigned )?int,", self.h_map),
             (r"^wreport::notes::", ign), (r"::~\w+\(", ign), (r"^wreport::CrexBulletin::load_tables\(", self.h_load), (r"^wreport::CrexBulletin::create\(", self.h_create),
             (r"^wreport::Var::setc\(", self.h_setc), (r"^wreport::Var::sets\(", self.h_sets), (r"^wreport::Var::(enqc\(|enq\(char const|enq<char const)", self.h_enqc), (r"^wreport::Var::(enqi\(|enq\(int|enq<int>)", self.h_enqi),
             (r"^wreport::Subset::store_variable\(wreport::Var( const&|&&)\)", self.h_store), (r"std::vector<wreport::Subset,.*::(emplace_back|push_back)", self.h_newsubset),
             (r"^wreport::Subset::~?Subset\(", ign)]
        return H + vobj.hooks() + self.V.hooks() + self.S.hooks() + text.hooks()

    def interp(self, f, args, init):
        self.runs += 1
        I = Interp(self.mod, f, hooks=self.hooks(), unroll=20000, fork_exits=True, canon_bits=True, into=INTO, icall_pure=True, max_paths=500)
        return I, I.run(args=args, init=init)

    def params(self, types, lens, dtable=None):
        self.types, self.lens, self.dtable = types, lens, dtable or {}

    def encode(self, head, prog, subsets):
        """head: (field -> function giving its value); returns the traces with their text"""
        f = self.mod.find(r"^wreport::CrexBulletin::encode(\[|\()")
        n = 1 if f.args[0].get("sret") else 0
        bul, res = obj("bulletin"), obj("result")

        def init(I, st):
            for o in (bul, self.bt, self.dt, res):
                st.assume(mk("eq0", 1, o), False)
            self.base(I, st, bul)
            for k, v in head.items():
                o, sz = self.bf[k]
                I.store(st, add(bul, C(o, 64)), v(I, st) if callable(v) else C(v, 8 * sz), sz)
            dd = self.at(bul, "datadesc")
            self.V.setn(I, st, dd, len(prog), 2)
            for k, c in enumerate(prog):
                I.store(st, add(self.V.data(st, dd), C(2 * k, 64)), C(c, 16), 2)
            sv = self.at(bul, "subsets")
            self.V.setn(I, st, sv, len(subsets), self.ssize)
            for k, vs in enumerate(subsets):
                s = add(self.V.data(st, sv), C(k * self.ssize, 64))
                I.store(st, add(s, C(self.sf["tables"][0], 64)), self.at(bul, "tables"), 8)
                self.V.setn(I, st, s, len(vs), self.vsize)
                for j, v in enumerate(vs):
                    vobj.put(st, add(self.V.data(st, s), C(j * self.vsize, 64)), v(I, st))
        I, ps = self.interp(f, {n: bul, 0: res} if n else {0: bul}, init)
        return I, [(p, self.S.get(I, p.st, res) if p.end == "ret" else None) for p in ps]

    def decode(self, st0, bs, which="decode"):
        f = self.mod.find(r"^wreport::CrexBulletin::%s\(" % which)
        n = 1 if f.args[0].get("sret") else 0
        msg, self.out, res = obj("message"), obj("decoded"), obj("res")

        def init(I, st):
            from .seq import carry
            carry(st0, st)
            for o in (msg, self.bt, self.dt, self.out, res):
                st.assume(mk("eq0", 1, o), False)
            self.S.set(I, st, msg, bs)
        return self.interp(f, {0: res, 1: msg}, init)

    def header(self, I, st, n):
        o, sz = self.bf[n]
        return I.load(st, add(self.out, C(o, 64)), "i%d" % (8 * sz), sz)

    def codes(self, I, st):
        dd = self.at(self.out, "datadesc")
        d = self.V.data(st, dd)
        return [I.load(st, add(d, C(2 * k, 64)), "i16", 2) for k in range(self.V.n(st, dd))]

    def stored(self, st):
        sv = self.at(self.out, "subsets")
        res = []
        for k in range(self.V.n(st, sv)):
            s = add(self.V.data(st, sv), C(k * self.ssize, 64))
            res.append([vobj.get(st, add(self.V.data(st, s), C(j * self.vsize, 64))) for j in range(self.V.n(st, s))])
        return res
