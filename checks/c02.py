"""C02: section framing of encoded BUFR messages."""
from wra import codec
from wra.absint import *
from wra.build import ToolError

NAME = {0: "section 0", 1: "section 1", 2: "section 2", 3: "section 3", 4: "section 4", 5: "section 5"}


def run(rep):
    rep.explanation = (
        "encode() is abstractly interpreted to obtain every abstract message it can append (bytes with bit provenance, positions as linear "
        "forms); the message is then walked by its own declared lengths. Nothing is executed.")
    rep.assumptions = ["sections fit their 24 bit lengths and subset counts fit 16 bits",
                       "the data section contents are opaque (an unknown number of whole bytes plus pending bits)"]
    enc = codec.encode_mod()
    fo = codec.field_offsets(enc)
    f0 = enc.find(r"^wreport::BufrBulletin::encode")
    sret = mk("arg", 64, 0, f0.args[0]["n"])
    rules = {"sig": "the message starts with BUFR and its edition number", "end": "the declared section lengths lead to 7777 at the very end",
             "len": "the total length in section 0 is the length of the message", "opt": "the optional section flag says whether section 2 is there",
             "even": "up to edition 3 every section has an even length", "sub": "section 3 declares the number of subsets",
             "flag": "section 3 says that the data are not compressed", "desc": "section 3 is 7 octets, two octets per descriptor and padding",
             "data": "the data bits start in octet 5 of section 4 and no byte follows the last section"}
    for r in rules.values():
        rep.rule(r, 6)
    for ed in (2, 3, 4):
        f, I, S, paths, msgs = codec.encode_paths(enc, {"edition_number": (ed, ed)})
        rep.count("encode() traces", len(paths))
        if not msgs:
            rep.bad(rules["end"], f.where, "no trace of encode() returns a message for edition %d" % ed)
        for e in msgs:
            walk(rep, rules, codec.Message(e, sret), f, ed, fo)


def zero(t):
    return isc(t) and t.a[0] == 0


def eq(m, a, b):
    if a is None or b is None:
        return False
    d = sub(a, b)
    if zero(d):
        return True
    r = m.st.rng(d)
    return r[0] == r[1] == 0


def walk(rep, R, m, f, ed, fo):
    st, I = m.st, m.I
    P = lambda k: C(k, 64)
    w = f.where
    sig = [m.bytes.get(P(k)) for k in range(4)]
    ok = all(s is not None and isc(s) and uval(s) == ord(c) for s, c in zip(sig, "BUFR"))
    e = m.bytes.get(P(7))
    r = st.rng(e) if e is not None else (0, 0, 0, 0)
    rep.check(ok and r[2] == r[3] == ed, R["sig"], w, "edition %d: message starts with %s and edition octet %s" % (ed, sig, e), what="edition %d" % ed)
    total = m.number(P(4), 3)
    rep.check(eq(m, total, m.end), R["len"], w, "edition %d: declared total length %s, actual length %s" % (ed, total, m.end), what="edition %d" % ed)
    osl = mk("strlen", 64, add(m.enc.this, C(fo["optional_section"][0], 64)), 0)
    has = {True: False, False: True}.get(st.decide(I.mkeq(st, osl, P(0))))
    pos = P(8)
    secs = [1] + ([2] if has else []) + [3, 4]
    start = {}
    lens = {}
    for s in secs:
        L = m.number(pos, 3)
        if L is None:
            rep.bad(R["end"], w, "edition %d: %s should start at octet %s but nothing of known shape is written there" % (ed, NAME[s], pos))
            return
        start[s], lens[s] = pos, L
        if ed <= 3:
            rep.check(even(st, L), R["even"], w, "edition %d: the length of %s is %s" % (ed, NAME[s], L), what="edition %d, %s" % (ed, NAME[s]))
        pos = add(pos, L)
    tail = [m.bytes.get(add(pos, P(k))) for k in range(4)]
    rep.check(all(t is not None and isc(t) and uval(t) == ord("7") for t in tail) and eq(m, add(pos, P(4)), m.end), R["end"], w,
              "edition %d: the declared lengths lead to octet %s where %s is found (the message ends at %s)" % (ed, pos, tail, m.end),
              what="edition %d, optional section %s" % (ed, has))
    if ed <= 3:
        rep.check(even(st, sub(m.end, P(0))), R["even"], w, "edition %d: message length %s" % (ed, m.end), what="message")
    fl = m.bytes.get(add(start[1], P(7 if ed <= 3 else 9)))
    fb = bits(fl)[7] if fl is not None else None
    rep.check(has is not None and fb == (1 if has else 0), R["opt"], w,
              "edition %d: the flag octet is %s with %s optional section" % (ed, fl, "an" if has else "no"), what="edition %d, %s" % (ed, has))
    n = m.number(add(start[3], P(4)), 2)
    sub_ = mk("vsize", 64, add(m.enc.this, C(fo["subsets"][0], 64)), 0)
    rep.check(n is not None and low16(n, sub_, m), R["sub"], w, "edition %d: section 3 declares %s subsets" % (ed, n), what="edition %d" % ed)
    fl = m.bytes.get(add(start[3], P(6)))
    rep.check(fl is not None and bits(fl)[6] == 0, R["flag"], w, "edition %d: section 3 flags %s" % (ed, fl), what="edition %d" % ed)
    nd = mk("vsize", 64, add(m.enc.this, C(fo["datadesc"][0], 64)), 0)
    body = add(P(7), scale(nd, 2))
    d = sub(lens[3], body)
    rep.check(isc(d) and 0 <= d.a[0] <= 1, R["desc"], w, "edition %d: section 3 is %s octets for %s descriptors" % (ed, lens[3], nd),
              what="edition %d" % ed)
    # data: the opaque region starts right after the four octets of the header of section 4
    for it, p in positions(m):
        if it[0] == "?" and it[1] == "data":
            d = sub(p, add(start[4], P(4)))
            rep.check(first_ok(m, d), R["data"], w, "edition %d: data start at %s, section 4 starts at %s" % (ed, p, start[4]), what="edition %d" % ed)
            break
    else:
        # no subset was encoded before the end of the loop: nothing between the header and the padding
        rep.ok(R["data"], "edition %d, no data" % ed)


def first_ok(m, d):
    return zero(d) or m.st.rng(d)[0] >= 0


def positions(m):
    pos = C(0, 64)
    for it in m.enc.items:
        yield it, pos
        if it[0] == "b":
            pos = add(pos, C(1, 64))
        elif it[0] == "loop":
            pos = it[2]
        else:
            pos = add(pos, it[2])


def low16(n, want, m):
    b = bits(n)
    w = bits(want)
    return b[:16] == w[:16] and all(x == 0 for x in b[16:])


def odd_set(t):
    """t mod 2 as (constant, set of atoms)"""
    c, d = aslin(t)
    c &= 1
    at = set()
    for x, k in d.items():
        if k & 1:
            while x.k in ("zext", "sext", "trunc", "not") or x.k == "bit" and x.a[1] == 0:
                c ^= x.k == "not"
                x = x.a[0]
            if x.k == "lin":
                c2, a2 = odd_set(x)
                c ^= c2
                at ^= a2
            else:
                at ^= {x}
    return c, at


def even(st, t):
    """parity of a linear form from the parity facts learnt on the trace (elimination over GF(2))"""
    c, at = odd_set(t)
    rows = []
    for k, v in st.known.items():
        if k.k == "bit" and k.a[1] == 0:
            c2, a2 = odd_set(k.a[0])
            rows.append((c2 ^ int(v), a2))
    piv = {}
    for c2, a2 in rows:
        c2, a2 = reduce(piv, c2, a2)
        if a2:
            piv[next(iter(a2))] = (c2, a2)
    c, at = reduce(piv, c, at)
    return not at and c == 0


def reduce(piv, c, at):
    at = set(at)
    for p, (c2, a2) in piv.items():
        if p in at:
            at ^= a2
            c ^= c2
    return c, at
