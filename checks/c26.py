"""C26: values as text: numbers are written and read as decimal numbers, formatted values keep every digit."""
from wra import codec, text
from wra.absint import *
from wra.var import *
from wra.varrun import *
from wra.build import ToolError

R = {"write": "enqc and enqs of a number give its decimal digits, with a sign when it is negative",
     "read": "setc, sets and the constructors given the decimal digits of a number store that number, when it is in the domain",
     "big": "numbers too big for the domain are reported as out of domain, whatever their length",
     "not": "text that is not a number leaves a numeric variable unset",
     "text": "text and binary values are stored as they are given, cut to the size of the variable, binary ones padded with zeros",
     "format": "format gives the value with as many decimals as the scale of the variable, and all of its digits",
     "hex": "binary values are formatted as two hexadecimal digits per byte, in order",
     "undef": "an unset variable is formatted as the text that was asked for",
     "setf": "setf of a number sets the value the text stands for, as setd does"}
IMAX = (1 << 31) - 1
NUM = ("Integer", "Decimal")


def load():
    mod = codec.load([r"^wreport::Var::"], noinline=NOIN + [COPIES])
    M = VarModel(mod)
    ms = {}
    for m in members(mod, M):
        ms.setdefault(m.name, []).append(m)
    for n in ("enqc", "enqs", "setc", "sets", "format", "setf", "setd", "Var(_Varinfo const*, char const*)", "Var(_Varinfo const*, std::string const&)"):
        if n not in ms:
            raise ToolError("Var has no member %s" % n)
    return mod, M, ms


def text_to_number(rep):
    """numbers given as text, for the checks that are about what is stored"""
    mod, M, ms = load()
    for k, n in (("read", 100), ("big", 20), ("not", 40)):
        rep.rule(R[k], n)
    read(rep, mod, M, ms)


def run(rep):
    rep.explanation = (
        "The members of Var that turn values to text and back are abstractly interpreted for every number of digits a number can have, with the digits left "
        "symbolic: a number is the sum of its digits times powers of ten, and each character written must be the right digit of it. Text is read for every "
        "length, with symbolic digits or with a character that is not a digit at every position. Formatting is followed to the arguments of the C library's "
        "formatted output, and the room given to it is compared with the length of the longest value of that scale.")
    mod, M, ms = load()
    for k, n in (("write", 80), ("read", 100), ("big", 20), ("not", 40), ("text", 60), ("format", 40), ("hex", 4), ("undef", 8), ("setf", 4)):
        rep.rule(R[k], n)
    write(rep, mod, M, ms)
    read(rep, mod, M, ms)
    strings(rep, mod, M, ms)
    formatted(rep, mod, M, ms)
    setf(rep, mod, M, ms)
    rep.count("members", 11)


# ---- decimal numbers

def prefixes(top):
    """(leading digits, free digits after them): a partition of the numbers from 0 to top"""
    s = str(top)
    for n in range(1, len(s)):
        yield ("*" if n > 1 else "*0", n - 1)
    for k in range(len(s)):
        lo = 1 if k == 0 else 0
        for d in range(lo, int(s[k])):
            yield (s[:k] + str(d), len(s) - k - 1)
    yield (s, 0)


class Num:
    """a family of numbers: leading digits, then symbolic ones"""

    def __init__(self, I, st, lead, free, tag="n"):
        ds = []
        if lead[0] == "*":
            x = mk("fresh", 32, "%s.first" % tag, free)
            st.setiv(x, slo=0 if lead == "*0" else 1, shi=9, ulo=0 if lead == "*0" else 1, uhi=9)
            ds.append(x)
        else:
            ds += [C(int(c), 32) for c in lead]
        for k in range(free):
            x = mk("fresh", 32, "%s.digit" % tag, k)
            st.setiv(x, slo=0, shi=9, ulo=0, uhi=9)
            ds.append(x)
        self.ds = ds

    def value(self, w=32, neg=False):
        v = C(0, w)
        for d in self.ds:
            v = add(scale(v, 10), d if w == 32 else C(d.a[0], w) if isc(d) else mk("zext", w, d))
        return scale(v, -1) if neg else v

    def chars(self, I, st):
        """its text, in terms of the digits"""
        return [add(d, C(48, 32)) for d in self.ds]

    def text(self, I, st):
        """its text, as characters to be read"""
        r = []
        for d in self.ds:
            if isc(d):
                r.append(C(uval(d) + 48, 8))
                continue
            c = mk("fresh", 8, "character", *d.a)
            q = st.rng(d)
            st.setiv(c, slo=48 + q[0], shi=48 + q[1], ulo=48 + q[0], uhi=48 + q[1])
            r.append(c)
        return r


def digits_of(st, t):
    """a term as an exact linear form of digits: characters count as the digits they stand for"""
    if isc(t):
        return t.a[0], {}
    if t.k in ("zext", "sext"):
        return digits_of(st, t.a[0])
    if t.k == "trunc":
        e = digits_of(st, t.a[0])
        if e is None:
            return None
        lo, hi = span(st, e)
        return e if -(1 << (t.w - 1)) <= lo and hi < 1 << (t.w - 1) else None
    if t.k == "fresh" and t.w == 8 and t.a[0] == "character":
        return 48, {mk("fresh", 32, *t.a[1:]): 1}
    if t.k == "lin":
        c, d = t.a[0], {}
        for x, k in t.a[1]:
            e = digits_of(st, x)
            if e is None:
                return None
            c += k * e[0]
            for y, v in e[1].items():
                d[y] = d.get(y, 0) + k * v
        # the same number whatever the width, when it does not wrap
        m = 1 << t.w
        red = lambda v: (v + m // 2) % m - m // 2
        r = red(c), {y: red(v) for y, v in d.items() if red(v)}
        lo, hi = span(st, r)
        return r if -(m // 2) <= lo and hi < m // 2 else None
    return 0, {t: 1}


def span(st, e):
    lo = hi = e[0]
    for x, k in e[1].items():
        r = st.rng(x)
        lo += k * (r[0] if k > 0 else r[1])
        hi += k * (r[1] if k > 0 else r[0])
    return lo, hi


def alike(st, a, b):
    """the same number"""
    if a is b:
        return True
    x, y = digits_of(st, a), digits_of(st, b)
    return x is not None and x == y


def name(lead, free, neg):
    return "%s%s%s" % ("-" if neg else "", lead.replace("*0", "d").replace("*", "d"), "d" * free)


def info_consts(I, st, M, var, info, **kw):
    for n, v in kw.items():
        I.store(st, M.info_addr(var, n, info), C(v, 8 * M.io[n][1]), M.io[n][1])


def interp(mod, M, m, extra, **kw):
    X = text.Strs()
    H = extra + X.hooks() + text.hooks() + h_attrs(M) + h_dtor(M)
    return X, Interp(mod, m.f, hooks=H, max_paths=4000, stable=stable_info(M, m), **kw)


def plain(I, st, b):
    """a character as a term: digits of a number that is made of digits are those digits"""
    if b.k == "digit":
        v, k, n = b.a
        if v.k in ("lin", "zext", "sext", "fresh", "trunc"):
            q = I.binop(st, "udiv", v, C(10 ** (n - 1 - k), v.w)) if n - 1 - k else v
            r = I.binop(st, "urem", q, C(10, v.w))
            return add(I.resize(st, "trunc", r, 8), C(48, 8))
    return b


def write(rep, mod, M, ms):
    for n in ("enqc", "enqs"):
        m = ms[n][0]
        for ty in NUM:
            for neg in (False, True):
                for lead, free in list(prefixes(IMAX)) + ([("2147483648", 0)] if neg else []):
                    box = {}

                    def init(I, st):
                        invariants(I, st, M, m.this)
                        M.set_type(I, st, m.this, ty)
                        I.store(st, M.field(m.this, "m_isset"), C(1, 8), 1)
                        x = Num(I, st, lead, free)
                        if neg and lead == "*0":
                            st.setiv(x.ds[0], slo=1, shi=9, ulo=1, uhi=9)
                        box["n"] = x
                        I.store(st, M.field(m.this, "m_value"), x.value(32, neg), 4)
                    X, I = interp(mod, M, m, [], unroll=16)
                    what = "%s %s %s" % (n, ty, name(lead, free, neg))
                    try:
                        ps = I.run(init=init)
                    except text.Fixed as e:
                        rep.bad(R["write"], e.where, "%s: %s" % (what, e.text))
                        continue
                    if not ps:
                        rep.bad(R["write"], m.where, "%s: no way to the end" % what)
                    for p in ps:
                        want = ([C(45, 8)] if neg else []) + box["n"].chars(I, p.st)
                        rep.check(written(I, X, p, m, n, want) is None, R["write"], m.where, "%s: %s" % (what, written(I, X, p, m, n, want)), what=what)


def written(I, X, p, m, n, want):
    if p.end != "ret":
        return "%s %s" % (p.end, p.what or "")
    if n == "enqs":
        got = X.get(I, p.st, m.sret)
        if got is None:
            return "the text returned is not known"
    else:
        if split(p.ret)[0].k == "alloca":
            return "the text returned is in a local variable"
        got = [text.byte(I, p.st, p.ret, k) for k in range(len(want) + 1)]
        if not (isc(got[-1]) and uval(got[-1]) == 0):
            return "the text is not %d characters long" % len(want)
        got.pop()
    if len(got) != len(want):
        return "%d characters instead of %d" % (len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        g = plain(I, p.st, g)
        if not alike(p.st, g, w):
            return "character %d is %s instead of %s" % (k + 1, g, w)
    return None


# ---- reading

def setters(ms):
    return [("setc", ms["setc"][0], False), ("sets", ms["sets"][0], True),
            ("Var(info, char*)", ms["Var(_Varinfo const*, char const*)"][0], False), ("Var(info, string)", ms["Var(_Varinfo const*, std::string const&)"][0], True)]


def feed(I, st, X, M, m, string, ty, bs, consts):
    info = m.info
    if info is not None:
        st.assume(mk("eq0", 1, info), False)
    invariants(I, st, M, m.this, info)
    M.set_type(I, st, m.this, ty, info)
    info_consts(I, st, M, m.this, info, **consts)
    for g in (SIL, CLA):
        I.store(st, mk("glob", 64, g), C(0, 8), 1)
    I.store(st, mk("glob", 64, HOO), C(0, 64), 8)
    a = m.args[1] if m.ctor else m.args[0]
    st.assume(mk("eq0", 1, a), False)
    if string:
        X.set(I, st, a, bs)
    else:
        text.put(I, st, a, bs + [C(0, 8)])


def read(rep, mod, M, ms):
    for label, m, string in setters(ms):
        for ty in NUM:
            for neg in (False, True):
                for lead, free in prefixes(IMAX):
                    box = {}
                    X, I = interp(mod, M, m, [], unroll=24)

                    def init(I, st):
                        x = box["n"] = Num(I, st, lead, free)
                        feed(I, st, X, M, m, string, ty, ([C(45, 8)] if neg else []) + x.text(I, st), {"imin": -IMAX, "imax": IMAX})
                    what = "%s %s %s" % (label, ty, name(lead, free, neg))
                    ps = I.run(init=init)
                    if not ps:
                        rep.bad(R["read"], m.where, "%s: no way to the end" % what)
                    for p in ps:
                        bad = None
                        if p.end != "ret":
                            bad = "%s %s" % (p.end, p.what or "")
                        elif M.isset(I, p.st, m.this) is not True:
                            bad = "the variable is not set"
                        else:
                            v = M.ival(I, p.st, m.this)
                            if not alike(p.st, v, box["n"].value(32, neg)):
                                bad = "the value stored is %s" % v
                        rep.check(bad is None, R["read"], m.where, "%s: %s" % (what, bad), what=what)
            big(rep, mod, M, m, label, string, ty)
            notnum(rep, mod, M, m, label, string, ty)


def big(rep, mod, M, m, label, string, ty):
    for neg in (False, True):
        for lead, free in [("*", k) for k in range(3, 26)]:
            X, I = interp(mod, M, m, [], unroll=40)

            def init(I, st):
                x = Num(I, st, lead, free)
                feed(I, st, X, M, m, string, ty, ([C(45, 8)] if neg else []) + x.text(I, st), {"imin": -999, "imax": 999})
            what = "%s %s %s in a domain of three digits" % (label, ty, name(lead, free, neg))
            for p in I.run(init=init):
                ok = p.end == "throw" and "error_domain" in (p.what or "")
                rep.check(ok, R["big"], m.where, "%s: %s %s" % (what, p.end, p.what or ""), what=what)


def notnum(rep, mod, M, m, label, string, ty):
    for n in (1, 2, 3, 6):
        for pos in range(n):
            for lo, hi in ((1, 47), (58, 127), (-128, -1)):
                X, I = interp(mod, M, m, [], unroll=24)

                def init(I, st):
                    bs = []
                    for k in range(n):
                        x = mk("fresh", 8, "character", k)
                        if k == pos:
                            st.setiv(x, slo=lo, shi=hi, ulo=lo & 255, uhi=hi & 255)
                            if k == 0:
                                st.assume(mk("eq0", 1, add(x, C(-45, 8))), False)
                        else:
                            st.setiv(x, slo=48, shi=57, ulo=48, uhi=57)
                        bs.append(x)
                    feed(I, st, X, M, m, string, ty, bs, {"imin": -IMAX, "imax": IMAX})
                what = "%s %s with a character that is not a digit at %d of %d" % (label, ty, pos + 1, n)
                for p in I.run(init=init):
                    if p.end == "loop":
                        continue
                    bad = None
                    if p.end != "ret":
                        bad = "%s %s" % (p.end, p.what or "")
                    elif M.isset(I, p.st, m.this) is not False:
                        bad = "the variable is not unset"
                    rep.check(bad is None, R["not"], m.where, "%s: %s" % (what, bad), what=what)


# ---- text and binary values

def h_strncpy(I, st, i, a):
    if not isc(a[2]) or uval(a[2]) > 64:
        return NotImplemented
    n, end = uval(a[2]), False
    for k in range(n):
        b = C(0, 8) if end else text.byte(I, st, a[1], k)
        if not end and (isc(b) and uval(b) == 0):
            end = True
        I.store(st, add(a[0], C(k, 64)), b, 1)
    return a[0]


def h_strnlen(I, st, i, a):
    if not isc(a[1]):
        return NotImplemented
    for k in range(min(uval(a[1]), 256)):
        b = text.byte(I, st, a[0], k)
        if isc(b) and uval(b) == 0:
            return C(k, 64)
    return C(uval(a[1]), 64)


def strings(rep, mod, M, ms):
    S = setters(ms) + [("setc_truncate", m, False) for m in ms.get("setc_truncate", ())]
    for label, m, string in S:
        for ty in ("String", "Binary"):
            for ln in (1, 3, 4):
                for n in (0, 1, 2, 3, 4, 6):
                    if ty == "Binary" and not string and n < ln:
                        continue
                    for bits in (8 * ln,) if ty == "String" else (8 * ln, 8 * ln - 5):
                        X, I = interp(mod, M, m, [(r"^strncpy$", h_strncpy), (r"^strnlen$", h_strnlen)], unroll=12)
                        chars = lambda st: [text.tchar(st, "text", k, n) for k in range(n)]

                        def init(I, st):
                            feed(I, st, X, M, m, string, ty, chars(st), {"len": ln, "bit_len": bits})
                        what = "%s of %d characters on a %s variable of %d bits" % (label, n, ty, bits)
                        for p in I.run(init=init):
                            if p.end != "ret" or M.isset(I, p.st, m.this) is not True:
                                rep.bad(R["text"], m.where, "%s: %s %s" % (what, p.end, p.what or "variable not set"))
                                continue
                            buf = I.load(p.st, M.field(m.this, "m_value"), "ptr", 8)
                            want = chars(p.st)[:ln]
                            if ty == "Binary":
                                want += [C(0, 8)] * (ln - len(want))
                                if bits % 8:
                                    want[-1] = I.binop(p.st, "and", want[-1], C((1 << (bits % 8)) - 1, 8))
                            want.append(C(0, 8))
                            got = [text.byte(I, p.st, buf, k) for k in range(len(want))]
                            if ty == "Binary":
                                want, got = want[:ln], got[:ln]
                            rep.check(all(g is w for g, w in zip(got, want)), R["text"], m.where, "%s stores %s instead of %s" % (what, got, want), what=what)


# ---- formatting

def room(scale):
    """the characters a formatted 32 bit number of this scale can take, with the terminator"""
    return (max(10, scale + 1) + 1 if scale > 0 else 10 - scale) + 2


class Out:
    """formatted output of numbers, and output to files"""

    def __init__(self, scale):
        self.scale, self.cut = scale, []

    def ftext(self, I, st, i, f, args):
        """the output of a format: (characters, its length as a term)"""
        m = re.fullmatch(r"%(?:\.(\*|\d+))?l?f", f or "")
        if not m:
            b = text.fmt(I, st, i, f, args) if f is not None else None
            return (b, C(len(b), 32)) if b is not None else (None, None)
        args = list(args)
        pr = C(6, 32) if m.group(1) is None else args.pop(0) if m.group(1) == "*" else C(int(m.group(1)), 32)
        n = mk("flen", 32, pr, args[0])
        st.setiv(n, slo=1, shi=1000, ulo=1, uhi=1000)
        b = mk("ftext", 8, pr, args[0])
        st.assume(mk("eq0", 1, b), False)
        return [b], n

    def hooks(self, X):
        def h_snprintf(I, st, i, a):
            b, n = self.ftext(I, st, i, text.fmtstr(I, st, a[2]), a[3:])
            if b is None:
                return NotImplemented
            sz = a[1]
            if isc(sz):
                if uval(sz) == 0:
                    return n
                if n.k == "flen" and uval(sz) < room(self.scale):
                    self.cut.append((i.loc, "only %d characters are kept of a number of scale %d, that can take %d" % (uval(sz) - 1, self.scale, room(self.scale) - 1)))
                if not isc(n):
                    text.put(I, st, a[0], b + [C(0, 8)])
                else:
                    text.put(I, st, a[0], b[:uval(sz) - 1] + [C(0, 8)])
                return n
            if not isc(n) and n in atoms(sz):
                if st.decide(I.icmp(st, "ult", I.resize(st, "zext", n, 64), sz)) is not True:
                    self.cut.append((i.loc, "the room for the text is %s" % sz))
                text.put(I, st, a[0], b + [C(0, 8)])
                return n
            return NotImplemented

        def h_sprintf(I, st, i, a):
            b, n = self.ftext(I, st, i, text.fmtstr(I, st, a[1]), a[2:])
            if b is None:
                return NotImplemented
            text.put(I, st, a[0], b + [C(0, 8)])
            return n

        def out(I, st, f, b):
            st.objs[("out", f)] = st.objs.get(("out", f), ()) + tuple(b)
            return C(len(b), 32)

        def h_fprintf(I, st, i, a):
            b, n = self.ftext(I, st, i, text.fmtstr(I, st, a[1]), a[2:])
            return NotImplemented if b is None else out(I, st, a[0], b)

        def h_fputs(I, st, i, a):
            b = text.cstr(I, st, a[0])
            return NotImplemented if b is None else out(I, st, a[1], b)

        def h_fputc(I, st, i, a):
            return out(I, st, a[1], [I.resize(st, "trunc", a[0], 8)])

        def h_fwrite(I, st, i, a):
            n = I.binop(st, "mul", a[1], a[2])
            if not isc(n):
                fl = [x for x in atoms(n) if x.k == "flen"]
                if len(fl) != 1 or n is not I.resize(st, "zext", fl[0], 64) and n is not I.resize(st, "sext", fl[0], 64):
                    return NotImplemented
                n = C(1, 64)
            out(I, st, a[3], [text.byte(I, st, a[0], k) for k in range(uval(n))])
            return a[2]

        def h_vec(I, st, i, a):
            """a buffer with the room for a formatted number"""
            op = re.search(r">::(~?\w+|operator\[\])\(", i.callee).group(1)
            d = mk("arg", 64, -1, "characters of %r" % (a[0],))
            if op in ("vector", "resize"):
                if len(a) < 2 or a[1].w != 64:
                    return NotImplemented
                st.objs[("room", a[0])] = a[1]
                st.assume(mk("eq0", 1, d), False)
            elif ("room", a[0]) not in st.objs:
                return True if op == "~vector" else NotImplemented
            elif op == "size":
                return st.objs[("room", a[0])]
            elif op == "data":
                return d
            elif op == "operator[]":
                return add(d, a[1])
            return True

        def sized(h):
            """strings of the length of a formatted number"""
            def g(I, st, i, a):
                a = list(a)
                size = re.search(r"::(size|length)\(\) const$", i.callee)
                if size and ("formatted", a[0]) in st.objs:
                    return I.resize(st, "zext", st.objs[("formatted", a[0])], 64)
                if re.search(r"::(basic_string(<.*>)?|operator=|assign|clear|resize|append|push_back|operator\+=)\(", i.callee):
                    st.objs.pop(("formatted", a[0]), None)
                for k in range(1, len(a)):
                    if isinstance(a[k].w, int) and not isc(a[k]) and a[k].k != "ftext" and any(x.k == "flen" for x in atoms(a[k])):
                        x = [y for y in atoms(a[k]) if y.k == "flen"][0]
                        if not any(a[k] is I.resize(st, c, x, a[k].w) for c in ("zext", "sext")):
                            return NotImplemented
                        a[k] = C(1, a[k].w)
                        st.objs[("formatted", a[0])] = x
                return h(I, st, i, a)
            return g
        return [(r"^snprintf$", h_snprintf), (r"^sprintf$", h_sprintf), (r"^fprintf$", h_fprintf), (r"^fputs$", h_fputs), (r"^(fputc|putc|_IO_putc)$", h_fputc),
                (r"^fwrite$", h_fwrite), (r"^std::vector<(unsigned )?char.*::(vector|~vector|size|data|operator\[\]|resize)\(", h_vec)] + [(p, sized(h)) for p, h in X.hooks()]


def fmt_run(mod, M, m, ty, scale, prepare, isset=1, unroll=12):
    o = Out(scale)
    X = text.Strs()
    I = Interp(mod, m.f, hooks=o.hooks(X) + text.hooks() + h_attrs(M) + h_dtor(M),
               max_paths=2000, stable=stable_info(M, m), unroll=unroll)

    def init(I, st):
        invariants(I, st, M, m.this)
        M.set_type(I, st, m.this, ty)
        I.store(st, M.field(m.this, "m_isset"), C(isset, 8), 1)
        info_consts(I, st, M, m.this, None, scale=scale)
        und = m.args[-1] if m.args else None
        if und is not None:
            st.assume(mk("eq0", 1, und), False)
            text.put(I, st, und, [text.tchar(st, "undef", k, 4) for k in range(4)] + [C(0, 8)])
        if len(m.args) > 1:
            st.assume(mk("eq0", 1, m.args[0]), False)
        prepare(I, st)
    return o, X, I, I.run(init=init)


def result(I, X, p, m):
    """the text a formatting function gave, or why there is none"""
    if p.end != "ret":
        return "%s %s" % (p.end, p.what or "")
    got = X.get(I, p.st, m.sret) if m.sret is not None else list(p.st.objs.get(("out", m.args[0]), ()))
    return "the text is not known" if got is None else got


def same_text(I, p, got, want):
    return len(got) == len(want) and all(alike(p.st, plain(I, p.st, g), w) for g, w in zip(got, want))


def formatted(rep, mod, M, ms):
    enqd = ms["enqd"][0]
    for m in ms["format"]:
        label = "format to %s" % ("a file" if m.sret is None else "a string")
        for ty in ("Integer", "Decimal", "String", "Binary"):
            o, X, I, ps = fmt_run(mod, M, m, ty, 0, lambda I, st: None, isset=0)
            for p in ps:
                got = result(I, X, p, m)
                ok = not isinstance(got, str) and same_text(I, p, got, [text.tchar(p.st, "undef", k, 4) for k in range(4)])
                rep.check(ok, R["undef"], m.where, "%s of an unset %s variable gives %s" % (label, ty, got), what="%s %s" % (label, ty))
        for ty in NUM:
            for scale_ in (0,) if ty == "Integer" else range(-16, 17):
                for neg in (False, True):
                    box = {}

                    def prep(I, st):
                        x = box["n"] = Num(I, st, "*", 4)
                        I.store(st, M.field(m.this, "m_value"), x.value(32, neg), 4)
                        I.store(st, M.field(enqd.this, "m_value"), x.value(32, neg), 4)
                    want = values(mod, M, enqd, ty, scale_, prep)
                    o, X, I, ps = fmt_run(mod, M, m, ty, scale_, prep)
                    what = "%s of a %s %s of scale %d" % (label, "negative" if neg else "positive", ty, scale_)
                    for w, t in o.cut:
                        rep.bad(R["format"], w, "%s: %s" % (what, t))
                    if not ps:
                        rep.bad(R["format"], m.where, "%s: no way to the end" % what)
                    for p in ps:
                        got = result(I, X, p, m)
                        if isinstance(got, str):
                            rep.bad(R["format"], m.where, "%s: %s" % (what, got))
                            continue
                        pr = C(max(scale_, 0), 32)
                        ok = len(got) == 1 and got[0].k == "ftext" and got[0].a[0] is pr and str(got[0].a[1]) in want
                        if not ok and scale_ == 0:
                            ok = same_text(I, p, got, ([C(45, 8)] if neg else []) + box["n"].chars(I, p.st))
                        rep.check(ok, R["format"], m.where, "%s gives %s instead of %s with %d decimals" % (what, got, sorted(want), max(scale_, 0)), what=what)
        for n in (0, 1, 5):
            def prep(I, st):
                v = mk("arg", 64, -1, "text of the variable")
                st.assume(mk("eq0", 1, v), False)
                I.store(st, M.field(m.this, "m_value"), v, 8)
                text.put(I, st, v, [text.tchar(st, "value", k, n) for k in range(n)] + [C(0, 8)])
            o, X, I, ps = fmt_run(mod, M, m, "String", 0, prep)
            for p in ps:
                got = result(I, X, p, m)
                ok = not isinstance(got, str) and same_text(I, p, got, [text.tchar(p.st, "value", k, n) for k in range(n)])
                rep.check(ok, R["format"], m.where, "%s of a text of %d characters gives %s" % (label, n, got), what="%s text %d" % (label, n))
        for at in range(0, 256, 8):
            def prep(I, st):
                v = mk("arg", 64, -1, "bytes of the variable")
                st.assume(mk("eq0", 1, v), False)
                I.store(st, M.field(m.this, "m_value"), v, 8)
                info_consts(I, st, M, m.this, None, len=8)
                text.put(I, st, v, [C(at + k, 8) for k in range(8)] + [C(0, 8)])
            o, X, I, ps = fmt_run(mod, M, m, "Binary", 0, prep, unroll=20)
            want = text.lit("".join("%02X" % (at + k) for k in range(8)))
            for p in ps:
                got = result(I, X, p, m)
                ok = not isinstance(got, str) and same_text(I, p, got, want)
                rep.check(ok, R["hex"], m.where, "%s of the bytes %d to %d gives %s" % (label, at, at + 7, got), what="%s binary %d" % (label, at))


def values(mod, M, m, ty, scale_, prep):
    def init(I, st):
        invariants(I, st, M, m.this)
        M.set_type(I, st, m.this, ty)
        I.store(st, M.field(m.this, "m_isset"), C(1, 8), 1)
        info_consts(I, st, M, m.this, None, scale=scale_)
        prep(I, st)
    I = Interp(mod, m.f, hooks=h_attrs(M) + h_dtor(M), max_paths=2000, stable=stable_info(M, m), unroll=12)
    return {str(p.ret) for p in I.run(init=init) if p.end == "ret"}


# ---- formatted values read back

def setf(rep, mod, M, ms):
    mf, md = ms["setf"][0], ms["setd"][0]
    val = mk("fresh", "d", "number", 0)

    def h_strtod(I, st, i, a):
        if a[0] is not mf.args[0]:
            return NotImplemented
        if len(a) > 1 and not (isc(a[1]) and uval(a[1]) == 0):
            I.store(st, a[1], I.fresh(64, "end of the number"), 8)
        return val
    for ty in NUM:
        for scale_ in (0,) if ty == "Integer" else (-16, -2, 0, 1, 5, 16):
            def outs(m, args, hooks):
                def init(I, st):
                    invariants(I, st, M, m.this)
                    M.set_type(I, st, m.this, ty)
                    info_consts(I, st, M, m.this, None, scale=scale_)
                    if m is mf:
                        st.assume(mk("eq0", 1, m.args[0]), False)
                        b = mk("fresh", 8, "first character", 0)
                        st.assume(I.mkeq(st, b, C(0, 8)), False)
                        I.store(st, m.args[0], b, 1)
                I = Interp(mod, m.f, hooks=hooks + h_attrs(M) + h_dtor(M), max_paths=4000, stable=stable_info(M, m), unroll=12)
                r = set()
                for p in I.run(args=args, init=init):
                    s = M.isset(I, p.st, m.this)
                    r.add((p.end, (p.what or "").split("(")[0], s, str(M.ival(I, p.st, m.this)) if s else None))
                return r
            k = [j for j, a in enumerate(md.f.args) if a["ty"] == "double"][0]
            want = outs(md, {k: val}, [])
            got = outs(mf, {}, [(r"^(strtod|atof)$", h_strtod)])
            rep.check(got == want, R["setf"], mf.where, "setf on a %s of scale %d: %s instead of %s" % (ty, scale_, sorted(map(str, got - want))[:3], sorted(map(str, want - got))[:3]),
                      what="setf %s scale %d" % (ty, scale_))
    for ty in ("Integer", "Decimal", "String"):
        for null in (True, False):
            def init(I, st):
                invariants(I, st, M, mf.this)
                M.set_type(I, st, mf.this, ty)
                if not null:
                    st.assume(mk("eq0", 1, mf.args[0]), False)
                    I.store(st, mf.args[0], C(0, 8), 1)
            k = [j for j, a in enumerate(mf.f.args) if a["ty"] == "ptr"][-1]
            I = Interp(mod, mf.f, hooks=h_attrs(M) + h_dtor(M), max_paths=4000, stable=stable_info(M, mf), unroll=12)
            for p in I.run(args={k: C(0, 64)} if null else {}, init=init):
                rep.check(p.end == "ret" and M.isset(I, p.st, mf.this) is False, R["setf"], mf.where, "setf of %s text on a %s variable: %s, not unset" % ("no" if null else "an empty", ty, p.end),
                          what="setf of nothing %s" % ty)
