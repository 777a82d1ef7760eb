"""Text of known length: std::string, the C library's text functions and formatted output, over bytes that may be symbolic.

Symbolic bytes are  digit(value, k, n): the k-th of the n decimal digits of a non negative value, and  tchar(text, k): the k-th character of a text
(not NUL; the first and the last one are not blank).  Formatting a number whose width is known gives its digits; reading back a run of digits gives
the number, whatever it is."""
import re
from .absint import *
from .build import ToolError
from .sink import STR


class Fixed(Exception):
    """a number is not written with a fixed number of characters"""

    def __init__(self, where, text):
        self.where, self.text = where, text


def digit(st, v, k, n):
    t = mk("digit", 8, v, k, n)
    if t not in st.iv:
        st.setiv(t, slo=48, shi=57, ulo=48, uhi=57)
    return t


def tchar(st, what, k, n):
    t = mk("tchar", 8, what, k, n)
    if t not in st.iv:
        st.assume(mk("eq0", 1, t), False)
        if k == 0:
            st.assume(mk("eq0", 1, add(t, C(-47, 8))), False)
    return t


def byte(I, st, p, k=0):
    return I.load(st, add(p, C(k, 64)), "i8", 1)


def cstr(I, st, p, lim=4096):
    """the bytes up to the terminator, None if it is not found"""
    r = []
    for k in range(lim):
        b = byte(I, st, p, k)
        if isc(b):
            if uval(b) == 0:
                return r
        elif b.k not in ("digit", "tchar") and st.decide(I.mkeq(st, b, C(0, 8))) is not False:
            return None
        r.append(b)
    return None


def put(I, st, p, bs):
    for k, b in enumerate(bs):
        I.store(st, add(p, C(k, 64)), b, 1)


def lit(s):
    return [C(ord(c), 8) for c in s]


def known_isspace(b):
    if isc(b):
        return uval(b) in (9, 10, 11, 12, 13, 32)
    if b.k == "digit":
        return False
    if b.k == "tchar" and b.a[1] in (0, b.a[2] - 1):
        return False
    return None


def unext(t):
    while t.k in ("zext", "sext", "trunc"):
        t = t.a[0]
    return t


class Strs:
    """strings whose size is known"""

    def __init__(self):
        self.where = {}

    def n(self, st, s):
        return st.objs.get(("cs", s))

    def data(self, st, s):
        d = mk("arg", 64, -1, "characters of %r" % (s,))
        st.assume(mk("eq0", 1, d), False)
        return d

    def get(self, I, st, s):
        n = self.n(st, s)
        if n is None:
            return None
        d = self.data(st, s)
        return [byte(I, st, d, k) for k in range(n)]

    def set(self, I, st, s, bs):
        st.objs[("cs", s)] = len(bs)
        put(I, st, self.data(st, s), list(bs) + [C(0, 8)])
        return True

    def add(self, I, st, s, bs):
        n = self.n(st, s)
        if n is None or bs is None:
            st.objs.pop(("cs", s), None)
            return NotImplemented
        put(I, st, add(self.data(st, s), C(n, 64)), list(bs) + [C(0, 8)])
        st.objs[("cs", s)] = n + len(bs)
        return s

    def hooks(self):
        S = STR

        def ptrn(I, st, a, n):
            return [byte(I, st, a, k) for k in range(uval(n))] if isc(n) and uval(n) < 100000 else None

        def src(I, st, i, a):
            """the characters a constructor, assignment or append takes from its operands"""
            sig = re.sub(r"(, )?std::allocator<char> const&\)$", ")", i.callee)
            p = sig[sig.rindex("("):] if "basic_string<" not in sig[sig.rindex("("):] else None
            args = a[1:]
            m = re.search(r"\((.*)\)( const)?$", sig[re.match(S, sig).end():])
            ps = m.group(1) if m else ""
            if ps == "":
                return []
            if ps.startswith("char const*, unsigned long"):
                return ptrn(I, st, args[0], args[1])
            if ps.startswith("char const*, char const*") or "__normal_iterator" in ps or ps.startswith("char*, char*"):
                d = sub(args[1], args[0])
                return ptrn(I, st, args[0], d)
            if ps.startswith("char const*"):
                return cstr(I, st, args[0])
            if ps.startswith("unsigned long, char"):
                return [args[1]] * uval(args[0]) if isc(args[0]) and uval(args[0]) < 100000 else None
            if ps.startswith("char"):
                return [args[0]]
            if ps.startswith("std::__cxx11::basic_string<"):
                b = self.get(I, st, args[0])
                if b is None:
                    return None
                if len(args) >= 3 and isc(args[1]) and isc(args[2]):
                    return b[uval(args[1]):uval(args[1]) + uval(args[2])]
                if len(args) == 2 and isc(args[1]):
                    return b[uval(args[1]):]
                return b
            return None

        def h_new(I, st, i, a):
            b = src(I, st, i, a)
            if b is None:
                st.objs.pop(("cs", a[0]), None)
                return a[0] if i.ty == "ptr" else True
            self.set(I, st, a[0], b)
            return a[0] if i.ty == "ptr" else True

        def h_app(I, st, i, a):
            r = self.add(I, st, a[0], src(I, st, i, a))
            return r if r is NotImplemented or i.ty == "ptr" else True

        def h_size(I, st, i, a):
            n = self.n(st, a[0])
            return C(n, 64) if n is not None else NotImplemented

        def h_empty(I, st, i, a):
            n = self.n(st, a[0])
            return C(1 if n == 0 else 0, 1) if n is not None else NotImplemented

        def h_data(I, st, i, a):
            return self.data(st, a[0]) if self.n(st, a[0]) is not None else NotImplemented

        def h_end(I, st, i, a):
            n = self.n(st, a[0])
            return add(self.data(st, a[0]), C(n, 64)) if n is not None else NotImplemented

        def h_index(I, st, i, a):
            return add(self.data(st, a[0]), a[1]) if self.n(st, a[0]) is not None else NotImplemented

        def h_back(I, st, i, a):
            n = self.n(st, a[0])
            return add(self.data(st, a[0]), C(n - 1, 64)) if n else NotImplemented

        def h_substr(I, st, i, a):
            b = self.get(I, st, a[1])
            if b is None or not isc(a[2]) or not isc(a[3]):
                return NotImplemented
            return self.set(I, st, a[0], b[uval(a[2]):uval(a[2]) + uval(a[3])])

        def h_resize(I, st, i, a):
            b = self.get(I, st, a[0])
            if b is None or not isc(a[1]):
                return NotImplemented
            n = uval(a[1])
            return self.set(I, st, a[0], (b + [a[2] if len(a) > 2 else C(0, 8)] * n)[:n])

        def h_nop(I, st, i, a):
            return True

        def h_plus(I, st, i, a):
            m = re.search(r"operator\+<.*?>\((.*)\)$", i.callee)
            bs = []
            for x, ty in zip(a[1:], re.split(r", (?=char|std::__cxx11::basic_string)", m.group(1)) if m else ()):
                b = self.get(I, st, x) if ty.startswith("std::") else cstr(I, st, x) if "*" in ty else [x]
                if b is None:
                    return NotImplemented
                bs += b
            return self.set(I, st, a[0], bs)

        def h_to_string(I, st, i, a):
            try:
                return self.set(I, st, a[0], decimal(I, st, i, a[1], "unsigned" not in i.callee, 0))
            except Fixed:
                st.objs.pop(("cs", a[0]), None)
                return True
        H = [(r"basic_string(<.*>)?\(", h_new), (r"(operator=|assign)\(", h_new), (r"(append|operator\+=|push_back)\(", h_app), (r"(size|length)\(\) const", h_size), (r"empty\(\) const", h_empty),
             (r"(data|c_str|begin|cbegin|front)\(\)( const)?$", h_data), (r"(end|cend)\(\)( const)?$", h_end), (r"(operator\[\]|at)\(unsigned long\)", h_index), (r"back\(\)", h_back),
             (r"substr\(", h_substr), (r"resize\(", h_resize), (r"(reserve|shrink_to_fit|~basic_string)\(", h_nop), (r"clear\(\)", h_new)]
        return [(S + p, f) for p, f in H] + [(r"^std::__cxx11::basic_string<char, .*> std::operator\+<|^std::operator\+<char", h_plus),
                                              (r"^std::(__cxx11::)?to_string(\[abi:cxx11\])?\((int|long|long long|unsigned int|unsigned long|unsigned long long)\)", h_to_string)]


# -- C library
def h_strlen(I, st, i, a):
    r = cstr(I, st, a[0])
    return C(len(r), 64) if r is not None else NotImplemented


def h_isspace(I, st, i, a):
    t = unext(a[0])
    r = known_isspace(t)
    return NotImplemented if r is None else C(1 if r else 0, 32)


def h_isdigit(I, st, i, a):
    t = unext(a[0])
    if isc(t):
        return C(1 if 48 <= uval(t) <= 57 else 0, 32)
    if t.k == "digit":
        return C(1, 32)
    if t.w == 8:
        r = st.rng(t)
        if 48 <= r[0] and r[1] <= 57:
            return C(1, 32)
        if r[1] < 48 or r[0] > 57:
            return C(0, 32)
    return NotImplemented


def compare(I, st, p, q, n, stop):
    for k in range(n):
        x, y = byte(I, st, p, k), byte(I, st, q, k)
        if x is not y:
            if not (isc(x) and isc(y)):
                c = I.mkeq(st, x, y)
                d = st.decide(c) if not isc(c) else bool(uval(c))
                if d is not False:
                    return NotImplemented
                return I.fresh(32, "order") if False else mk("differ", 32, x, y)
            return C(-1 if uval(x) < uval(y) else 1, 32)
        if stop and isc(x) and uval(x) == 0:
            break
    return C(0, 32)


def differ(I, st, r):
    if isinstance(r, T) and r.k == "differ":
        st.assume(mk("eq0", 1, r), False)
    return r


def h_strcmp(I, st, i, a):
    return differ(I, st, compare(I, st, a[0], a[1], 4096, True))


def h_strncmp(I, st, i, a):
    return differ(I, st, compare(I, st, a[0], a[1], uval(a[2]), True)) if isc(a[2]) and uval(a[2]) < 4096 else NotImplemented


def h_memcmp(I, st, i, a):
    return differ(I, st, compare(I, st, a[0], a[1], uval(a[2]), False)) if isc(a[2]) and uval(a[2]) < 4096 else NotImplemented


def isdig(b, st=None):
    if b.k == "digit" or isc(b):
        return b.k == "digit" or 48 <= uval(b) <= 57
    r = st.rng(b) if st is not None else (0, 255)
    return 48 <= r[0] and r[1] <= 57


def number(I, st, bs):
    """the value of a run of digits, as a 64 bit term; None if it takes part of a number"""
    v = C(0, 64)
    k = 0
    while k < len(bs):
        b = bs[k]
        if isc(b):
            v = add(scale(v, 10), C(uval(b) - 48, 64))
            k += 1
            continue
        if b.k != "digit":
            v = add(scale(v, 10), I.resize(st, "zext", add(b, C(-48, 8)), 64))
            k += 1
            continue
        n = b.a[2]
        if b.a[1] != 0 or any(k + j >= len(bs) or bs[k + j] is not mk("digit", 8, b.a[0], j, n) for j in range(n)):
            return None
        v = add(scale(v, 10 ** n), b.a[0])
        k += n
    return v


def scan_int(I, st, p, lim=None, signed=True):
    """(term, characters taken) of a decimal number at p; (None, 0) if there is none"""
    k = 0
    while known_isspace(byte(I, st, p, k)):
        k += 1
    neg = False
    b = byte(I, st, p, k)
    start = k
    if isc(b) and uval(b) in (43, 45):
        neg = uval(b) == 45
        k += 1
    ds = []
    while lim is None or k - start < lim:
        b = byte(I, st, p, k)
        if isdig(b, st):
            ds.append(b)
            k += 1
            continue
        if not isc(b) and b.k != "tchar":
            return "?", 0
        if b.k == "tchar":
            return "?", 0
        break
    if not ds:
        return None, 0
    v = number(I, st, ds)
    if v is None:
        return mk("part of a number", 64, tuple(ds)), k
    return (scale(v, -1) if neg else v), k


def h_strtol(I, st, i, a):
    base = a[2] if len(a) > 2 else C(10, 32)
    if not isc(base):
        return NotImplemented
    v, n = scan_int(I, st, a[0])
    if v == "?":
        return NotImplemented
    if uval(base) != 10 and v is not None:
        # digits of a number written in decimal, with its leading zeros
        v = mk("read in another base", 64, v, base)
    if len(a) > 2 and not (isc(a[1]) and uval(a[1]) == 0):
        I.store(st, a[1], add(a[0], C(n, 64)), 8)
        st.assume(mk("eq0", 1, add(a[0], C(n, 64))), False)
    w = width(i.ty)
    v = v if v is not None else C(0, 64)
    return v if w == 64 else I.resize(st, "trunc", v, w)


CONV = re.compile(r"%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j)?([diuxXcsfgeEp%])")


def fmt(I, st, i, f, args):
    """the bytes a format gives, None when that is not known"""
    out, pos = [], 0
    args = list(args)
    for m in CONV.finditer(f):
        out += lit(f[pos:m.start()])
        pos = m.end()
        flags, wd, prec, ln, conv = m.groups()
        if conv == "%":
            out += lit("%")
            continue

        def num(x):
            if x == "*":
                t = args.pop(0)
                if not isc(t):
                    raise Fixed(i.loc, "a width that is not known")
                return t.a[0]
            return int(x) if x is not None else None
        w = num(wd)
        pr = num(prec)
        if w is not None and w < 0:
            flags, w = flags + "-", -w
        if not args:
            return None
        t = args.pop(0)
        if conv == "c":
            b = [I.resize(st, "trunc", t, 8) if t.w != 8 else t]
        elif conv == "s":
            b = cstr(I, st, t)
            if b is None:
                return None
            if pr is not None:
                b = b[:pr]
        elif conv in "diu":
            if ln == "hh":
                t = I.resize(st, "trunc", t, 8)
            elif ln == "h":
                t = I.resize(st, "trunc", t, 16)
            b = decimal(I, st, i, t, conv != "u", w if "0" in flags and "-" not in flags else pr or 0, zero="0" in flags)
        elif conv in "xX" and isc(t):
            v = uval(t) & {"hh": 255, "h": 65535, None: 0xffffffff}.get(ln, (1 << 64) - 1)
            s = "%x" % v if conv == "x" else "%X" % v
            b = lit(s.rjust(w if w and "0" in flags and "-" not in flags and pr is None else pr or 1, "0"))
        else:
            return None
        if w is not None and len(b) < w:
            padc = C(32, 8)
            b = b + [padc] * (w - len(b)) if "-" in flags else [padc] * (w - len(b)) + b
        out += b
    return out + lit(f[pos:])


def decimal(I, st, i, t, sgn, w, zero=True):
    if isc(t):
        v = t.a[0] if sgn else uval(t)
        s = str(abs(v))
        s = s.rjust(w - (1 if v < 0 and zero else 0), "0")
        return lit(("-" if v < 0 else "") + s)
    r = st.rng(t)
    if sgn:
        lo, hi = r[0], r[1]
    else:
        lo, hi = (r[2], r[3]) if len(r) > 3 else (r[0], r[1])
        if lo < 0:
            raise Fixed(i.loc, "a value that may be negative is written as an unsigned number")
    if lo < 0 <= hi:
        raise Fixed(i.loc, "a value between %d and %d is written as a signed number" % (lo, hi))
    neg = hi < 0
    v = t if t.w == 64 else I.resize(st, "sext" if sgn else "zext", t, 64)
    if neg:
        lo, hi = -hi, -lo
        v = scale(v, -1)
        if zero:
            w -= 1
    a, b = len(str(lo)), len(str(hi))
    n = max(w, a)
    if b > n:
        raise Fixed(i.loc, "a number of %d to %d digits is written in %d characters" % (a, b, w + neg))
    return ([C(45, 8)] if neg else []) + [digit(st, v, k, n) for k in range(n)]


def fmtstr(I, st, p):
    b = cstr(I, st, p)
    return None if b is None or not all(isc(x) for x in b) else "".join(chr(uval(x)) for x in b)


def emit(I, st, dst, n, b):
    if b is None or not isc(n):
        return NotImplemented
    if uval(n):
        put(I, st, dst, b[:uval(n) - 1] + [C(0, 8)])
    return C(len(b), 32)


def h_vsnprintf(I, st, i, a):
    args = st.objs.get(("valist", a[3]))
    f = fmtstr(I, st, a[2])
    if args is None or f is None:
        return NotImplemented
    return emit(I, st, a[0], a[1], fmt(I, st, i, f, args))


def h_snprintf(I, st, i, a):
    f = fmtstr(I, st, a[2])
    return NotImplemented if f is None else emit(I, st, a[0], a[1], fmt(I, st, i, f, a[3:]))


def h_sprintf(I, st, i, a):
    f = fmtstr(I, st, a[1])
    return NotImplemented if f is None else emit(I, st, a[0], C(4096, 64), fmt(I, st, i, f, a[2:]))


def h_va_start(I, st, i, a):
    st.objs[("valist", a[0])] = st.objs.get(("va",), ())
    return True


SC = re.compile(r"%(\d*)(hh|h|ll|l|z)?([diu])|([^%\s])|(\s+)")


def h_sscanf(I, st, i, a):
    f = fmtstr(I, st, a[1])
    if f is None or "".join(m.group(0) for m in SC.finditer(f)) != f:
        return NotImplemented
    p, args, n = a[0], list(a[2:]), 0
    for m in SC.finditer(f):
        wd, ln, conv, ch, sp = m.groups()
        b = byte(I, st, p)
        if sp:
            while known_isspace(byte(I, st, p)):
                p = add(p, C(1, 64))
        elif ch:
            if not isc(b):
                if st.decide(I.mkeq(st, b, C(ord(ch), 8))) is not False:
                    return NotImplemented
                return C(n, 32)
            if uval(b) != ord(ch):
                return C(n, 32)
            p = add(p, C(1, 64))
        else:
            v, k = scan_int(I, st, p, int(wd) if wd else None)
            if v == "?":
                return NotImplemented
            if v is None:
                return C(n, 32)
            w = {"hh": 8, "h": 16, "l": 64, "ll": 64, "z": 64}.get(ln, 32)
            I.store(st, args.pop(0), I.resize(st, "trunc", v, w) if w < 64 else v, w // 8)
            n += 1
            p = add(p, C(k, 64))
    return C(n, 32)


def hooks():
    return [(r"^strlen$", h_strlen), (r"^isspace$", h_isspace), (r"^isdigit$", h_isdigit), (r"^strcmp$", h_strcmp), (r"^strncmp$", h_strncmp), (r"^(memcmp|bcmp)$", h_memcmp),
            (r"^(__isoc23_)?(strtol|strtoul|strtoll|strtoull|atoi|atol)$", h_strtol), (r"^vsnprintf$", h_vsnprintf), (r"^snprintf$", h_snprintf), (r"^sprintf$", h_sprintf),
            (r"^llvm\.va_start", h_va_start), (r"^llvm\.va_end", lambda I, st, i, a: True), (r"^(__isoc(99|23)_)?sscanf$", h_sscanf)]
