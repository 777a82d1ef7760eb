"""C03: bit fields are laid out MSB first without gaps and read back identically."""
from wra import codec
from wra.absint import *
from wra.seq import Seq, obj
from wra.build import ToolError

OUT = r"^wreport::buffers::BufrOutput::"
IN = r"^wreport::bufr::Input::"


def msb(t, n):
    """the n low bits of a term, most significant first"""
    return list(reversed(bits(t)[:n]))


def stream(items):
    """bit string of the bytes appended to a string, or None"""
    r = []
    for it in items:
        if it[0] != "b":
            return None
        r += list(reversed(bits(it[1])))
    return r


def pad(b):
    return b + [0] * (-len(b) % 8)


def run(rep):
    thorough = rep.tier == "thorough"
    rep.explanation = (
        "The public write and read operations are abstractly interpreted one after the other on an abstract buffer, with bit-level provenance: "
        "every output bit is traced to the input bit it came from, for every width and every starting bit position. The result is compared "
        "with the MSB-first layout. Nothing is executed.")
    mod = codec.load([OUT + r"(BufrOutput|add_bits|flush|append_[a-z]+)\(", IN + r"(Input|get_bits|skip_bits|decode_string)\("],
                     noinline=codec.STRNO)
    R = {"w": "a field written at any bit position lands MSB first after what is already there, and a partial byte is zero padded",
         "s": "what is pending does not depend on how it was written",
         "r": "a field read at any bit position is the next bits of the message, MSB first",
         "m": "a missing field is all ones", "t": "text is one octet per character, space padded", "b": "a binary field is copied bit by bit",
         "d": "text is read back octet by octet, only trailing padding removed, and only all ones or all zeros is missing"}
    rep.rule(R["w"], 200)
    rep.rule(R["s"], 8)
    rep.rule(R["r"], 200)
    rep.rule(R["m"], 60)
    rep.rule(R["t"], 20)
    rep.rule(R["b"], 20)
    rep.rule(R["d"], 6)
    q = Seq(mod)
    writer(rep, R, q, mod, thorough)
    reader(rep, R, q, mod, thorough)
    rep.count("abstract calls", q.calls)
    rep.count("functions", len(mod.fns))


def start(q):
    o, s = obj("bufr output"), obj("string")

    def init(I, st):
        st.objs[("str", s)] = ((), C(0, 64))

    p = q.call1(OUT + r"BufrOutput\(", [o, s], init=init)
    return o, s, p.st


def written(q, o, s, st):
    """bits in the string once everything is flushed"""
    p = q.call1(OUT + r"flush\(", [o], st)
    return stream(p.st.objs[("str", s)][0])


def sym(name, w):
    return mk("arg", w, -2, name)


def writer(rep, R, q, mod, thorough):
    o, s, st0 = start(q)
    AB = OUT + r"add_bits\("
    f = mod.find(AB)
    w, v = sym("earlier", 32), sym("value", 32)
    pre = {}
    for p in range(0, 16):
        t = q.call(AB, [o, w, C(p, 32)], st0)
        t = [x for x in t if x.end == "ret"]
        if len(t) != 1:
            rep.bad(R["w"], f.where, "writing %d bits to an empty buffer has %d outcomes" % (p, len(t)))
            return
        pre[p] = t[0].st
        got = written(q, o, s, t[0].st)
        rep.check(got == pad(msb(w, p)), R["w"], f.where, "%d bits written to an empty buffer come out as %s" % (p, got))
    for p in range(8):
        a, b = norm(pre[p], o, s, w), norm(pre[p + 8], o, s, w)
        if a == b:
            rep.ok(R["s"], "%d bits pending" % p)
            starts = [p]
        else:
            # not the same representation: both have to behave
            rep.ok(R["s"], "%d bits pending, compared by behaviour" % p)
            starts = [p, p + 8]
        for p2 in starts:
            for n in range(0, 33):
                t = [x for x in q.call(AB, [o, v, C(n, 32)], pre[p2]) if x.end == "ret"]
                got = written(q, o, s, t[0].st) if len(t) == 1 else None
                rep.check(got == pad(msb(w, p2) + msb(v, n)), R["w"], f.where,
                          "%d bits written after %d bits come out as %s" % (n, p2, got), what="%d bits after %d" % (n, p2))
    # helpers of fixed width
    for name, n, wd in ((r"append_byte\(", 8, 8), (r"append_short\(", 16, 16)):
        for g in [g for g in mod.fns.values() if re.search(OUT + name, g.dem)]:
            for p in range(8):
                x = mk("arg", wd, -2, "value")
                t = [y for y in q.call(g, [o, x], pre[p]) if y.end == "ret"]
                got = written(q, o, s, t[0].st) if len(t) == 1 else None
                rep.check(got == pad(msb(w, p) + msb(x, n)), R["w"], g.where, "%s after %d bits writes %s" % (g.short, p, got))
    # missing
    ms = [g for g in mod.fns.values() if re.search(OUT + r"append_missing\(unsigned int\)", g.dem)]
    for g in ms:
        for n in list(range(0, 73)) + [128, 208]:
            for p in ((0, 1, 5) if n < 40 or thorough else (0, 3)):
                q.unroll = 300
                t = [y for y in q.call(g, [o, C(n, 32)], pre[p]) if y.end == "ret"]
                got = written(q, o, s, t[0].st) if len(t) == 1 else None
                rep.check(got == pad(msb(w, p) + [1] * n), R["m"], g.where, "a missing field of %d bits is written as %s" % (n, got),
                          what="%d bits after %d" % (n, p))
    q.unroll = 80
    # text and binary
    tx = [g for g in mod.fns.values() if re.search(OUT + r"append_string\(char const\*, unsigned int\)", g.dem)]
    src = obj("text")
    for g in tx:
        for n in list(range(0, 41)) + ([64, 100] if thorough else [48]):
            for p in (0, 3) if n % 8 == 0 else (2,):
                ps = q.call(g, [o, src, C(n, 32)], pre[p])
                for y in ps:
                    if y.end != "ret":
                        rep.bad(R["t"], g.where, "writing text of %d bits may fail" % n)
                        continue
                    got = written(q, o, s, y.st)
                    want = msb(w, p)
                    eol = False
                    for k in range(n // 8):
                        ch = q.I.load(y.st, add(src, C(k, 64)), "i8", 1)
                        z = y.st.decide(q.I.mkeq(y.st, ch, C(0, 8))) if not eol else None
                        if z:
                            eol = True
                        want += [0, 0, 1, 0, 0, 0, 0, 0] if eol else msb(ch, 8)
                    want += [0] * (n % 8)
                    rep.check(got == pad(want), R["t"], g.where, "text of %d bits is written as %s instead of %s" % (n, got, want),
                              what="%d bits after %d" % (n, p))
    bn = [g for g in mod.fns.values() if re.search(OUT + r"append_binary\(unsigned char const\*, unsigned int\)", g.dem)]
    for g in bn:
        for n in range(0, 41):
            for p in (0, 5):
                t = [y for y in q.call(g, [o, src, C(n, 32)], pre[p]) if y.end == "ret"]
                got = written(q, o, s, t[0].st) if len(t) == 1 else None
                want = msb(w, p)
                for k in range((n + 7) // 8):
                    ch = mk("ld", 8, add(src, C(k, 64)), 0)
                    want += msb(ch, min(8, n - 8 * k))
                rep.check(got == pad(want), R["b"], g.where, "a binary field of %d bits is written as %s" % (n, got), what="%d bits after %d" % (n, p))


def norm(st, o, s, w):
    """representation of the pending bits, independent of the value they came from"""
    r = []
    for root, d in st.mem.items():
        for off, (v, sz) in sorted(d.items()):
            r.append((root.n, off, sz, tuple(bits(v)) if isinstance(v.w, int) and v.w <= 64 else v))
    return sorted(r, key=str)


def reader(rep, R, q, mod, thorough):
    i, s = obj("bufr input"), obj("message")
    base = mk("strdata", 64, s)

    def init(I, st):
        n = mk("strlen", 64, s, 0)
        st.setiv(n, slo=64, shi=1 << 24, ulo=64, uhi=1 << 24)
        st.objs[("str", s)] = ((), n)

    st0 = q.call1(IN + r"Input\(", [i, s], init=init).st
    data = []
    for k in range(40):
        data += list(reversed([(mk("ld", 8, add(base, C(k, 64)), 0), b) for b in range(8)]))
    G = IN + r"get_bits\("
    f = mod.find(G)
    for p in range(0, 16):
        t = [x for x in q.call(G, [i, C(p, 32)], st0) if x.end == "ret"]
        got = result(q, t, p)
        if not rep.check(got == data[:p], R["r"], f.where, "the first %d bits of the data are read as %s" % (p, got)):
            continue
        for n in range(0, 33):
            u = [x for x in q.call(G, [i, C(n, 32)], t[0].st) if x.end == "ret"]
            got = result(q, u, n)
            rep.check(got == data[p:p + n], R["r"], f.where, "%d bits after the first %d are read as %s" % (n, p, got), what="%d bits after %d" % (n, p))
    for g in [g for g in mod.fns.values() if re.search(IN + r"skip_bits\(", g.dem)]:
        for p in range(0, 20):
            t = [x for x in q.call(g, [i, C(p, 32)], st0) if x.end == "ret"]
            u = [x for x in q.call(G, [i, C(9, 32)], t[0].st) if x.end == "ret"] if len(t) == 1 else []
            rep.check(result(q, u, 9) == data[p:p + 9], R["r"], g.where, "skipping %d bits does not lead to the next field" % p)


    ds = [g for g in mod.fns.values() if re.search(IN + r"decode_string\(unsigned int, char\*, unsigned long&\)", g.dem)]
    dst, ln = obj("text buffer"), obj("text length")
    q.kw["fork_exits"] = True
    for g in ds:
        for p in (0, 3):
            t = q.call1(G, [i, C(p, 32)], st0)
            for n in (8, 16, 24, 32):
                for y in q.call(g, [i, C(n, 32), dst, ln], t.st):
                    if y.end == "throw":
                        rep.bad(R["d"], g.where, "reading text of %d bits from a longer message fails" % n)
                        continue
                    if y.end != "ret":
                        continue
                    text(rep, R, q, g, y, data[p:], n, dst)


def text(rep, R, q, g, y, data, n, dst):
    I, st = q.I, y.st
    chars = [list(reversed(data[8 * k:8 * k + 8])) for k in range(n // 8)]
    r = st.rng(y.ret)
    why = None
    got = [bits(I.load(st, add(dst, C(k, 64)), "i8", 1)) for k in range(n // 8)]
    if r[2] == r[3] == 0:
        # missing: every octet is known to be 0 or 0xff
        for c in chars:
            t = codec.frombits(I, st, c)
            if not (one_of(I, st, t, (0, 0xff))):
                why = "text with octet %s is reported missing" % t
    elif r[2] >= 1:
        cut = False
        for c, d in reversed(list(zip(chars, got))):
            if d == c:
                cut = True
            elif d == [0] * 8 and not cut:
                pass
            else:
                why = "octet %s is read as %s" % (c, d)
        if not any(none_of(I, st, codec.frombits(I, st, c), (0, 0xff)) for c in chars):
            why = "text that may be all ones is not missing"
    rep.check(why is None, R["d"], g.where, "%d bits of text: %s" % (n, why), what="%d bits" % n)


def one_of(I, st, t, vals):
    for c in vals:
        if st.decide(I.mkeq(st, t, C(c, t.w))):
            return True
        z = I.resize(st, "zext", t, 32)
        if st.decide(I.mkeq(st, z, C(c, 32))):
            return True
    return False


def none_of(I, st, t, vals):
    z = I.resize(st, "zext", t, 32)
    return all(st.decide(I.mkeq(st, t, C(c, t.w))) is False or st.decide(I.mkeq(st, z, C(c, 32))) is False for c in vals)


def result(q, t, n):
    if len(t) != 1 or t[0].ret is None:
        return None
    b = bits(t[0].ret)
    if any(x != 0 for x in b[n:]):
        return None
    return list(reversed(b[:n]))
