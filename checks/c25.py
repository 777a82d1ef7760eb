"""Messages are found in files"""
import re
from wra import codec, text
from wra.absint import *
from wra.build import ToolError
from wra.sink import STR
from wra.text import Strs, put, byte

ROOTS = [r"^wreport::(Bufr|Crex)Bulletin::(read|write)\("]
ERRNO = mk("glob", 64, "errno of this thread")
START = mk("arg", 64, -7, "position in the file")
MAXLEN = 40


def show_bytes(bs):
    r = ""
    for b in bs:
        r += chr(b) if 32 <= b < 127 else "\\x%02x" % b
    return '"%s"' % r


class Seek:
    """where the first signature ends"""

    def __init__(self, sig):
        self.sig = sig

    def step(self, s, c):
        t = self.sig[:s] + bytes([c])
        while t and not self.sig.startswith(t):
            t = t[1:]
        return len(t)

    def done(self, s):
        return s == len(self.sig)


class End:
    """where the first ++, one or more ends of line, 7777 ends"""

    def step(self, s, c):
        ch = chr(c)
        if ch == "+":
            return 2 if s in (1, 2) else 1
        if ch in "\r\n":
            return 3 if s in (2, 3) else 0
        if ch == "7":
            return s + 1 if 3 <= s < 7 else 0
        return 0

    def done(self, s):
        return s == 7


class F(Interp):
    """traces that reach the head of a loop as another one did, having read as much of the message, go no further"""
    seen = None
    alphabet = range(256)

    def entering(self, sub):
        sub.seen, sub.ctx = self.seen, self.ctx + (self.fn.name,)

    ctx = ()
    previous = True         # two traces that differ in the last byte read are different

    def counters(self, bid):
        """numbers that go up and down by one"""
        r = set()
        for p in self.fn.blocks[bid].ins:
            if p.op == "phi" and any("%%%d" % p.id in i.a for b in self.loop_of[bid] for i in self.fn.blocks[b].ins if i.op in ("add", "sub")):
                r.add(p.id)
        return r

    def _run(self, fn, init):
        # the shortest histories first
        class Fifo(list):
            def pop(self):
                return list.pop(self, 0)
        st = State()
        if init:
            init(self, st)
        work = Fifo([(st, 0, None)])
        while work:
            st, bid, prev = work.pop()
            self.block(st, bid, prev, work)
            if len(self.paths) > self.max_paths or self.steps > self.max_steps:
                raise ToolError("too many abstract traces in %s" % fn.where)
        return self.paths

    def loop_head(self, st, bid):
        phis = tuple((p.id, st.env.get(p.id)) for p in self.fn.blocks[bid].ins if p.op == "phi")
        mem = tuple(sorted((repr(r), o, repr(v[0])) for r, d in st.mem.items() if "characters of" not in repr(r) for o, v in d.items()))
        f = st.objs["file"]
        if not self.previous and f[2]:
            phis = tuple((k, v) for k, v in phis if v is not C(f[2][-1], 32) or k in self.counters(bid))
        key = (self.ctx, self.fn.name, bid, phis, mem, f[0], f[1])
        if key in self.seen:
            return True
        self.seen.add(key)
        if len(f[2]) > MAXLEN:
            raise ToolError("what is read from the file depends on more than its last %d characters" % MAXLEN)
        return False


# st.objs["file"] = (phase, state of the reference, bytes read one by one, bytes read since the signature ended, end or failure met, bytes read in all)
class Stream:
    def __init__(self, rep, kind, rule, length=None):
        self.rep, self.kind, self.rule, self.length = rep, kind, rule, length
        self.sig = b"BUFR" if kind == "Bufr" else b"CREX++"
        self.seek, self.end = Seek(self.sig), End()

    def bad(self, i, st, txt):
        f = st.objs["file"]
        self.rep.bad(self.rule, i.loc if i is not None else self.kind, "%s, after reading %s" % (txt, show_bytes(f[2])))

    def getc(self, I, st, i, a):
        phase, s, got, since, bad, n = st.objs["file"]
        if phase == "seek" and self.seek.done(s):
            if self.kind == "Bufr":
                self.bad(i, st, "the signature is not recognised")
                I.finish("stop", st, i)
                return "end"
            phase, s = "end", 0
        if phase == "end" and self.end.done(s):
            self.bad(i, st, "the file is read after the end of the message")
            I.finish("stop", st, i)
            return "end"
        aut = self.seek if phase == "seek" else self.end
        alts = []

        def char(c):
            def alt(I, t):
                t.objs["file"] = (phase, aut.step(s, c), got + bytes([c]), since + ((c,) if phase == "end" else ()), None, n + 1)
                return C(c, 32)
            return alt

        def stop(kind):
            def alt(I, t):
                t.objs["file"] = (phase, s, got, since, kind, n)
                if kind == "failure":
                    I.store(t, ERRNO, C(5, 32), 4)
                return C(-1, 32)
            return alt
        if bad:
            # asking again does not help
            return C(-1, 32)
        for c in I.alphabet:
            alts.append(char(c))
        alts += [stop("end"), stop("failure")]
        return ("fork", alts)

    def fread(self, I, st, i, a):
        phase, s, got, since, bad, n = st.objs["file"]
        if not isc(a[1]) or not isc(a[2]):
            raise ToolError("unknown amount read at %s" % i.loc)
        size, cnt = uval(a[1]), uval(a[2])
        want = size * cnt
        if phase == "seek" and not self.seek.done(s):
            self.bad(i, st, "data is read before the signature is found")
            I.finish("stop", st, i)
            return "end"
        if bad:
            return C(0, 64)
        have = len(since)

        def good(I, t):
            t.objs["file"] = ("data", s, got, since + tuple(range(have, have + want)) if want < 200000 else since + (("big", want),), None, n + want)
            bs = [self.data(have + k) for k in range(min(want, 64))]
            put(I, t, a[0], bs)
            t.objs[("filled",)] = t.objs.get(("filled",), ()) + ((a[0], have, want),)
            return C(cnt, 64)

        def short(kind):
            def alt(I, t):
                t.objs["file"] = ("data", s, got, since, kind, n)
                if kind == "failure":
                    I.store(t, ERRNO, C(5, 32), 4)
                return C(max(0, cnt - 1), 64)
            return alt
        return ("fork", [good, short("end"), short("failure")])

    def data(self, k):
        """byte k after the signature"""
        if self.length is not None and k < 3:
            return C((self.length >> (8 * (2 - k))) & 255, 8)
        if self.length is not None and k == 3:
            return C(4, 8)
        return mk("filebyte", 8, k)

    def hooks(self, S):
        def ferror(I, st, i, a):
            return C(1 if st.objs["file"][4] == "failure" else 0, 32)

        def feof(I, st, i, a):
            return C(1 if st.objs["file"][4] == "end" else 0, 32)

        def tell(I, st, i, a):
            return add(START, C(st.objs["file"][5], 64))

        def seekf(I, st, i, a):
            raise ToolError("the position in the file is changed at %s" % i.loc)

        def resize(I, st, i, a):
            if isc(a[1]) and uval(a[1]) > 4096 and S.n(st, a[0]) is not None:
                # only the first characters matter
                b = S.get(I, st, a[0])
                S.set(I, st, a[0], (b + [C(0, 8)] * 64)[:max(64, len(b))])
                st.objs[("cs", a[0])] = uval(a[1])
                return True
            return NotImplemented
        return [(r"^(f?getc(_unlocked)?|_IO_getc|__getc)$", self.getc), (r"^fread(_unlocked)?$", self.fread), (r"^ferror(_unlocked)?$", ferror), (r"^feof(_unlocked)?$", feof),
                (r"^f(tell|tello|tello64)$", tell), (r"^(fseek|fseeko|rewind|ungetc|fsetpos)", seekf), (r"^__errno_location$", lambda I, st, i, a: ERRNO),
                (r"^ntohl$|^htonl$", lambda I, st, i, a: C(int.from_bytes(uval(a[0]).to_bytes(4, "little"), "big"), 32) if isc(a[0]) else NotImplemented),
                (r"^llvm.bswap.i32$", lambda I, st, i, a: C(int.from_bytes(uval(a[0]).to_bytes(4, "little"), "big"), 32) if isc(a[0]) else NotImplemented),
                (STR + r"resize\(unsigned long\)$", resize)]


def arg(f, name, k):
    for j, a in enumerate(f.args):
        if a.get("n") == name:
            return j
    return k


def read(rep, mod, kind, length=None, alphabet=range(256)):
    f = mod.find(r"^wreport::%sBulletin::read\(" % kind)
    fn = lambda k, n: mk("arg", 64, k, f.args[k].get("n") or "arg%d" % k)
    buf, off = fn(1, "buf"), fn(3, "offset")
    rule = "%s messages read" % kind.upper()
    S = Strs()
    W = Stream(rep, kind, rule, length)
    I = F(mod, f, hooks=W.hooks(S) + S.hooks() + HK, unroll=300, max_paths=60000, max_steps=4000000, fork_exits=True)
    I.seen, I.alphabet = set(), alphabet
    I.previous = len(alphabet) < 256

    def init(I, st):
        st.objs["file"] = ("seek", 0, b"", (), None, 0)
        st.objs[("cs", buf)] = 3
        put(I, st, S.data(st, buf), [mk("oldbyte", 8, k) for k in range(3)])
        for x in (buf,):
            st.assume(mk("eq0", 1, x), False)
    ps = I.run(init=init)
    n = {"found": 0, "none": 0, "error": 0}
    for p in ps:
        if p.end in ("stop",):
            continue
        st = p.st
        phase, s, got, since, bad, tot = st.objs["file"]
        found = W.seek.done(s) and phase == "seek" or phase != "seek"
        text_ = "the file holds %s" % (show_bytes(got) if got else "nothing") + (" and then cannot be read" if bad == "failure" else " and ends there" if bad == "end" else "")
        where = p.ins.loc
        if kind == "Bufr":
            whole = phase == "data" and not bad and length is not None and sum(x[1] if isinstance(x, tuple) else 1 for x in since) == max(length - 4, 4)
        else:
            whole = phase == "end" and W.end.done(s)
        if p.end == "ret":
            v = p.ret
            if not isc(v):
                raise ToolError("result of %s not known" % f.dem)
            if uval(v) == 0:
                rep.check(not found and bad == "end", rule, where, "'no more messages' is returned although %s%s" % (text_, "" if bad != "failure" else ", which is an error"))
                n["none"] += 1
                continue
            if not rep.check(whole, rule, where, "a message is returned although %s" % text_):
                continue
            n["found"] += 1
            if kind == "Bufr" and length < 12:
                rep.bad(rule, where, "a message that says it is %d bytes long is accepted" % length)
                continue
            size = S.n(st, buf)
            if kind == "Bufr":
                rep.check(size == length, rule, where, "a message of %d bytes is returned as %s bytes" % (length, size))
                d = S.data(st, buf)
                okd, pos = True, 4
                for ptr, have, want in st.objs.get(("filled",), ()):
                    # the first characters are compared below, however they came there
                    okd = okd and (ptr is add(d, C(4 + have, 64)) or 4 + have + want <= 12)
                k_ = min(length, 12)
                head = [byte(I, st, d, k) for k in range(k_)]
                okd = okd and head[:4] == [C(c, 8) for c in W.sig] and head[4:] == [W.data(k) for k in range(k_ - 4)]
                rep.check(okd, rule, where, "the bytes returned are not those of the message (length %d)" % length)
            else:
                bs = S.get(I, st, buf)
                exp = list(W.sig) + list(since)
                rep.check(bs is not None and [uval(b) if isc(b) else None for b in bs] == exp, rule, where,
                          "the text returned is not the message: %s" % text_)
            e = st.mem.get(off, {}).get(0)
            nul = st.decide(mk("eq0", 1, off))
            if nul is False:
                rep.check(e is not None and e[0] is add(START, C(len(got) - len(since if kind == "Crex" else ()) - len(W.sig), 64)), rule, where,
                          "the offset returned is not where the message begins: %s" % text_)
            elif nul is None:
                rep.bad(rule, where, "the offset of the message is not returned")
        elif p.end == "throw":
            n["error"] += 1
            fine = bad is not None and (found or bad == "failure") or kind == "Bufr" and found and length is not None and length < 12
            rep.check(fine, rule, where, "an error is raised although %s" % text_)
            if fine and bad == "failure":
                rep.check("error_system" in (p.what or ""), rule, where, "a failure to read is not reported as a system error")
        elif p.end not in ("resume", "unreachable"):
            raise ToolError("%s ends with %s" % (f.dem, p.end))
    rep.count("loop states", len(I.seen))
    rep.count("traces", len(ps))
    return n


HK = [(r"^str(n)?len$", text.h_strlen), (r"^memcmp$", text.h_memcmp), (r"^strncmp$", text.h_strncmp), (r"^strcmp$", text.h_strcmp)]


def write(rep, mod, kind):
    """the whole message is written, or an error raised"""
    f = mod.find(r"^wreport::%sBulletin::write\(" % kind)
    rule = "%s messages written" % kind.upper()
    buf = mk("arg", 64, 0, f.args[0].get("n") or "arg0")
    data, size = mk("arg", 64, -3, "characters of the message"), mk("strsize", 64, buf)

    def fwrite(I, st, i, a):
        out = st.objs.get("out", ())
        whole = a[0] is data and (a[1] is size and a[2] is C(1, 64) or a[2] is size and a[1] is C(1, 64))
        txt = None
        if not whole:
            m = I.mod.cstr(a[0].a[0]) if a[0].k == "glob" else None
            if m is not None and isc(a[1]) and isc(a[2]):
                txt = m[:uval(a[1]) * uval(a[2])]
            else:
                rep.bad(rule, i.loc, "part of the message is written: %s, %s times %s" % (show(a[0]), show(a[1]), show(a[2])))

        def good(I, t):
            t.objs["out"] = out + (("message",) if whole else (txt,))
            return a[2]

        def fail(I, t):
            t.objs["out"] = out + ("failed",)
            I.store(t, ERRNO, C(28, 32), 4)
            if a[2] is size:
                r = I.fresh(64, "written")
                t.assume(I.mkeq(t, r, a[2]), False)
                return r
            return C(0, 64)
        return ("fork", [good, fail])

    def fputs(I, st, i, a):
        out = st.objs.get("out", ())
        m = I.mod.cstr(a[0].a[0]) if a[0].k == "glob" else None

        def good(I, t):
            t.objs["out"] = out + (m,)
            return C(1, 32)

        def fail(I, t):
            t.objs["out"] = out + ("failed",)
            return C(-1, 32)
        return ("fork", [good, fail])

    def putc(I, st, i, a):
        out = st.objs.get("out", ())

        def good(I, t):
            t.objs["out"] = out + (chr(uval(a[0]) & 255) if isc(a[0]) else "?",)
            return a[0]

        def fail(I, t):
            t.objs["out"] = out + ("failed",)
            return C(-1, 32)
        return ("fork", [good, fail])
    hk = [(r"^fwrite(_unlocked)?$", fwrite), (r"^fputs(_unlocked)?$", fputs), (r"^(fputc|putc)(_unlocked)?$", putc), (STR + r"(data|c_str)\(\)( const)?$", lambda I, st, i, a: data),
          (STR + r"(size|length)\(\) const", lambda I, st, i, a: size), (STR + r"empty\(\) const", lambda I, st, i, a: I.mkeq(st, size, C(0, 64))), (r"^__errno_location$", lambda I, st, i, a: ERRNO)]
    I = Interp(mod, f, hooks=hk, unroll=10)
    for p in I.run():
        out = p.st.objs.get("out", ())
        if p.end == "ret":
            empty = p.st.decide(I.mkeq(p.st, size, C(0, 64)))
            rep.check("failed" not in out, rule, p.ins.loc, "the function returns as if the message was written after a failure to write")
            rest = "".join(x for x in out if x not in ("message", "failed") and x)
            ok = [x for x in out if x == "message"] == ["message"] or empty is True
            rep.check(ok and out[:1] == ("message",) or empty is True, rule, p.ins.loc, "the message is not written first, once and whole: %r" % (out,))
            if kind == "Bufr":
                rep.check(rest == "", rule, p.ins.loc, "bytes that are not of the message are written: %r" % rest)
            else:
                rep.check(rest.strip("\r\n") == "", rule, p.ins.loc, "text that is not of the message is written: %r" % rest)
        elif p.end == "throw":
            rep.check("failed" in out, rule, p.ins.loc, "an error is raised although everything was written")


def run(rep):
    mod = codec.load(ROOTS, noinline=codec.STRNO)
    for r in ("BUFR messages read", "CREX messages read", "BUFR messages written", "CREX messages written"):
        rep.rule(r, 2)
    # every byte around the signature; fewer, told apart by what comes before too
    n = read(rep, mod, "Bufr", 16)
    some = b"BUFRCEX+7\r\n bufrcex\0\x7f\x80\xff\xc2*,68-"
    read(rep, mod, "Bufr", 16, alphabet=some)
    read(rep, mod, "Crex", alphabet=some)
    lens = [0, 1, 7, 8, 11, 12, 13, 16, 40, 127, 128, 255, 256, 272, 0x0110, 0x8001, 0x7fff, 0x010000, 0x010110, 0x7fffff, 0x800000, 0xff0102, 0xffffff]
    if rep.tier != "quick":
        lens += list(range(14, 70)) + [1 << k for k in range(9, 24)] + [(1 << k) - 1 for k in range(9, 24)]
    got = 0
    for l in lens:
        m = read(rep, mod, "Bufr", l, alphabet=b"BUFRx")
        got += m["found"] > 0
        if l >= 12:
            rep.check(m["found"] > 0, "BUFR messages read", "wreport::BufrBulletin::read", "a message of %d bytes is never read" % l)
    m = read(rep, mod, "Crex")
    for k, x in (("BUFR", n), ("CREX", m)):
        for w in ("found", "none", "error"):
            rep.check(x[w] > 0, k + " messages read", "wreport::%sBulletin::read" % k.capitalize(), "no trace with the outcome '%s'" % w)
    for k in ("Bufr", "Crex"):
        write(rep, mod, k)
    rep.explanation = ("the functions that read messages from files are interpreted abstractly together with a reference automaton for the signature and the end of the message, "
                       "over every byte, end of file and read failure at every point; the reachable pairs of loop state and reference state are enumerated to a fixpoint, and "
                       "every way out is compared with the reference")
    rep.assumptions += ["stdio returns the bytes of the file in order, and sets errno and the error indicator when it cannot"]
