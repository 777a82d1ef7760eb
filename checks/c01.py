"""C01: BUFR header fields survive encode -> decode; C02 shares the abstract messages."""
from wra import codec
from wra.absint import *
from wra.sink import Sink
from wra.build import ToolError

# octets of section 1 (0-based) per WMO FM 94: field -> (first octet, octets)
ED3 = {"master_table_number": (3, 1), "originating_subcentre": (4, 1), "originating_centre": (5, 1), "update_sequence_number": (6, 1),
       "data_category": (8, 1), "data_subcategory_local": (9, 1), "master_table_version_number": (10, 1),
       "master_table_version_number_local": (11, 1), "rep_year": (12, 1), "rep_month": (13, 1), "rep_day": (14, 1), "rep_hour": (15, 1),
       "rep_minute": (16, 1)}
ED4 = {"master_table_number": (3, 1), "originating_centre": (4, 2), "originating_subcentre": (6, 2), "update_sequence_number": (8, 1),
       "data_category": (10, 1), "data_subcategory": (11, 1), "data_subcategory_local": (12, 1), "master_table_version_number": (13, 1),
       "master_table_version_number_local": (14, 1), "rep_year": (15, 2), "rep_month": (17, 1), "rep_day": (18, 1), "rep_hour": (19, 1),
       "rep_minute": (20, 1), "rep_second": (21, 1)}
# value ranges an edition can carry (fields wider than their octets in edition 2 and 3)
LIM3 = {"originating_subcentre": (0, 255), "originating_centre": (0, 255)}
YEARS3 = [(1951, 1999), (2000, 2000), (2001, 2050)]
DECODERS = r"^wreport::BufrBulletin::(decode_header|decode|decode_verbose)\("


def cases():
    for ed in (2, 3):
        for y in YEARS3:
            r = {"edition_number": (ed, ed), "rep_year": y}
            r.update(LIM3)
            yield ed, r
    yield 4, {"edition_number": (4, 4)}


def run(rep):
    rep.explanation = (
        "encode() is abstractly interpreted (bit-provenance domain, every helper inlined, constant-width bit loops unrolled, the descriptor "
        "loop summarised) to obtain every abstract message it can append; each public decoder is then interpreted over that abstract message "
        "and every stored header field is compared with the field it came from. Nothing is executed.")
    rep.assumptions = ["section lengths and counts fit their fields (optional section and data <= 2 MiB, <= 2M descriptors)",
                       "edition 2/3: centre and subcentre <= 255, year 1951..2050 (what one octet can carry)",
                       "std::string and std::vector behave as specified"]
    enc = codec.encode_mod()
    dec = codec.load([DECODERS], noinline=[r"decode_data\("] + codec.STRNO)
    fo = codec.field_offsets(enc)
    R1 = "decoded field equals the encoded field"
    R2 = "a message that encode() produced is accepted by the header decoder"
    R3 = "section 1 octets follow the WMO layout of the edition"
    R4 = "descriptor list survives"
    R5 = "optional section survives up to its padding byte"
    for r, n in ((R1, 90), (R2, 3), (R3, 60), (R4, 9), (R5, 6)):
        rep.rule(r, n)
    decs = [f for f in dec.fns.values()]
    if len(decs) < 3:
        raise ToolError("public decoders not found: %s" % [f.dem for f in decs])
    ef = enc.find(r"^wreport::BufrBulletin::encode")
    sret = mk("arg", 64, 0, ef.args[0]["n"])
    for ed, ranges in cases():
        f, I, S, paths, msgs = codec.encode_paths(enc, ranges)
        rep.count("abstract encodings", len(msgs))
        if not msgs:
            rep.bad(R2, f.where, "no trace of encode() returns a message for edition %d" % ed)
        for e in msgs:
            m = codec.Message(e, sret)
            layout(rep, R3, f, m, ed, fo, ranges)
            for df in decs:
                rep.count("decoder traces over abstract messages")
                decode_one(rep, dec, df, m, ed, fo, (R1, R2, R4, R5), ranges)


def field(this, fo, n):
    o, sz = fo[n]
    return mk("ld", 8 * sz, add(this, C(o, 64)), 0)


def same(I, st, a, b):
    """equality of two terms up to zero extension"""
    if a is None or b is None:
        return False
    w = max(a.w, b.w)
    x = a if a.w == w else I.resize(st, "zext", a, w)
    y = b if b.w == w else I.resize(st, "zext", b, w)
    if x is y or I.canon(st, x) is I.canon(st, y):
        return True
    bx, by = bits(x), bits(y)
    if None not in bx and bx == by:
        return True
    d = sub(x, y)
    r = st.rng(d)
    if r[0] == r[1] == 0:
        return True
    rx, ry = st.rng(x), st.rng(y)
    return rx[2] == rx[3] == ry[2] == ry[3]


def layout(rep, R3, f, m, ed, fo, ranges):
    """what encode() writes in section 1, against the WMO table"""
    lay = ED4 if ed == 4 else ED3
    for n, (o, cnt) in lay.items():
        v = m.number(C(8 + o, 64), cnt)
        want = field(m.enc.this, fo, n)
        if n == "rep_year" and ed < 4:
            lo, hi = ranges["rep_year"]
            want = C(100, 64) if lo == hi == 2000 else m.I.resize(m.st, "zext", sub(m.I.resize(m.st, "zext", want, 64), C(1900 if hi < 2000 else 2000, 64)), 64)
        rep.check(same(m.I, m.st, v, want), R3, f.where,
                  "edition %d: octets %d..%d of section 1 hold %s instead of %s" % (ed, o + 1, o + cnt, v, n),
                  what="edition %d: octets %d..%d of section 1 hold %s" % (ed, o + 1, o + cnt, n))


def decode_one(rep, mod, f, m, ed, fo, rules, ranges):
    R1, R2, R4, R5 = rules
    S = Sink()
    S.vmax = 1 << 21
    argbuf = None
    for i, a in enumerate(f.args):
        if a["n"] == "buf":
            argbuf = mk("arg", 64, i, a["n"])
    if argbuf is None:
        argbuf = mk("arg", 64, 1, f.args[1]["n"])
    base = mk("strdata", 64, argbuf)
    data = []

    def h_data(I, st, i, a):
        data.append(1)
        return True

    def init(I, st):
        st.iv.update(m.st.iv)
        st.ne.update(m.st.ne)
        st.known.update(m.st.known)
        st.objs[("str", argbuf)] = ((("?", "msg", m.end, None),), m.end)
        for p, v in m.bytes.items():
            a = add(base, p)
            root, off = split(a)
            st.mem.setdefault(root, {})[off] = (v, 1)

    hooks = S.hooks() + S.vhooks(codec.vec_sizes(mod)) + [(r"^memcmp$", codec.h_memcmp), (r"decode_data\(", h_data)]
    for rnd in range(3):
        I = Interp(mod, f, hooks=hooks, unroll=70, on_loop=S.on_loop, on_havoc=S.on_havoc, on_loop_exit=S.on_loop_exit,
                   canon_bits=True, icall_pure=True)
        paths = I.run(init=init)
        old = S.delta
        S.learn(paths)
        if S.delta == old:
            break
    good = [p for p in paths if p.end == "ret"]
    for p in paths:
        if p.end in ("throw", "unreachable") and p.what != "loop":
            c = [("%s is %s" % (k, v)) for k, v in list(p.st.known.items())[-2:] if k not in m.st.known]
            rep.bad(R2, p.ins.loc, "%s rejects an encoded edition %d message: %s (%s)" % (f.short.split("::")[-1], ed, p.what, "; ".join(c)[:300]))
    if good:
        rep.ok(R2, "%s accepts edition %d messages" % (f.short, ed))
    else:
        rep.bad(R2, f.where, "no trace accepts an encoded edition %d message" % ed)
    lay = dict(ED4 if ed == 4 else ED3)
    lay["edition_number"] = None
    for p in good:
        objs = [r for r in p.st.mem if r.k == "new"]
        bul = None
        fn = codec.field_offsets(mod)
        for r in objs:
            if fn["edition_number"][0] in p.st.mem[r]:
                bul = r
        if bul is None:
            raise ToolError("decoded bulletin not found in %s" % f.where)
        for n in lay:
            o, sz = fn[n]
            e = p.st.mem[bul].get(o)
            want = field(m.enc.this, fo, n)
            got = e[0] if e else None
            where = f.where
            for ev in p.ev:
                if ev.kind == "store" and ev.a[0] is add(bul, C(o, 64)):
                    where = ev.ins.loc
            rep.check(got is not None and same(I, p.st, got, want), R1, where,
                      "edition %d: %s is decoded as %s instead of the encoded value" % (ed, n, str(got)[:300]),
                      what="edition %d: %s" % (ed, n))
        # descriptors
        dd = add(bul, C(fn["datadesc"][0], 64))
        pushes = {}
        for q in paths:
            for ev in q.ev:
                if ev.kind == "push" and ev.a[0] is dd:
                    pushes.setdefault(ev.ins.id, (ev, q))
        descr(rep, R4, I, f, m, p, paths, pushes, fo, ed)
        # optional section
        osl = mk("strlen", 64, add(m.enc.this, C(fo["optional_section"][0], 64)), 0)
        dst = p.st.objs.get(("str", add(bul, C(fn["optional_section"][0], 64))))
        has = m.st.decide(I.mkeq(m.st, osl, C(0, 64))) is False
        if has:
            src = [b for b in m.bufs if b[1] is mk("strdata", 64, add(m.enc.this, C(fo["optional_section"][0], 64)))]
            okk = False
            its = [x for x in dst[0] if x[0] != "loop" or (len(x) > 5 and x[5])] if dst else []
            if src and len(its) == 1 and its[0][0] == "buf":
                _, ptr, n, _ = its[0]
                okk = ptr is add(base, src[0][0])
                x = sub(n, osl)
                okk = okk and isc(x) and x.a[0] in (0, 1)
            rep.check(okk, R5, f.where, "optional section decoded as %s" % (str(dst)[:300],), what="edition %d" % ed)
        else:
            okk = dst is None or (isc(dst[1]) and dst[1].a[0] == 0)
            rep.check(okk, R5, f.where, "an absent optional section is decoded as %s" % (str(dst)[:300],), what="edition %d, absent" % ed)


def descr(rep, R4, I, f, m, p, paths, pushes, fo, ed):
    """encode: loop of n iterations appending two octets of datadesc[i]; decode: n pushes of the two octets at the same place"""
    vs = mk("vsize", 64, add(m.enc.this, C(fo["datadesc"][0], 64)), 0)
    vd = mk("vdata", 64, add(m.enc.this, C(fo["datadesc"][0], 64)))
    el = [l for l in m.loops if l[2] is vs and l[3] == 2]
    if not rep.check(len(el) == 1, R4, f.where, "encode() does not write two octets per descriptor"):
        return
    h, pos, trip, k = el[0]
    # encoder iteration: the two bytes appended come from element i, i being the iteration number
    ok1 = False
    eI = m.I
    for q in [q for q in encode_loop_paths(m) if q.what == h]:
        sret = [kk for kk in q.st.objs if kk[0] == "str" and kk[1].k == "arg"][0]
        its = q.st.objs[sret][0]
        tail = []
        for it in its:
            if it[0] == "loop" and it[1] == h:
                tail = []
            else:
                tail.append(it)
        if len(tail) == 2 and all(t[0] == "b" for t in tail):
            v = codec.frombits(eI, q.st, bits(tail[1][1]) + bits(tail[0][1]))
            if v.k == "ld" and v.w == 16:
                off = sub(v.a[0], vd)
                ok1 = step_ok(eI, q.st, h, off, C(0, 64), 2) or \
                    any(v.a[0] is q.st.env.get(pid) and q.st.objs[("phi0", h)][pid] is vd for pid in q.st.objs[("phi0", h)])
    rep.check(ok1, R4, f.where, "the octets written per descriptor are not descriptor i in order")
    # decoder: one generic iteration
    okd = False
    why = "no descriptor is stored"
    for ev, q in pushes.values():
        hs = [x for x in ev.loops]
        if len(hs) != 1:
            why = "descriptors are not stored by a single loop"
            continue
        v = ev.a[1]
        b = bits(v)
        argbuf = None
        if v.w == 16 and all(isinstance(x, tuple) for x in b) and b[0][0].k == "ld" and b[8][0].k == "ld":
            lo, hi = b[0][0].a[0], b[8][0].a[0]
            d = sub(lo, hi)
            start = None
            basepos = [x for x in aslin(hi)[1] if x.k == "strdata"]
            if isc(d) and d.a[0] == 1 and basepos and b[:8] == [(b[0][0], k) for k in range(8)] and b[8:] == [(b[8][0], k) for k in range(8)]:
                off = sub(sub(hi, basepos[0]), pos)
                okd = step_ok(I, q.st, hs[0], off, C(0, 64), 2)
                why = "descriptor i is not read from octets 2i, 2i+1 of the list (offset %s)" % off
                t = I.trips(p.st, hs[0])
                if okd and not same(I, p.st, t, vs):
                    okd = False
                    why = "the number of descriptors read is %s" % t
    rep.check(okd, R4, f.where, "edition %d: %s" % (ed, why))


def encode_loop_paths(m):
    return [q for q in m.I.paths if q.end == "loop"]


def step_ok(I, st, h, off, first, step):
    """off == first + step * iteration number of loop h"""
    ini = st.objs.get(("phi0", h), {})
    for pid, v0 in ini.items():
        v = st.env.get(pid)
        s = I.step(I.fn.ins[pid], I.loop_of[h])
        if s is None or v is None or not isinstance(v0.w, int):
            continue
        for vv, z0 in ((v, v0), (mk("zext", v.w, v), v0)) if v.w == 64 else ((mk("zext", 64, v), I.resize(st, "zext", v0, 64)),):
            c, d = aslin(off)
            if vv in d:
                co = d[vv]
                if co * s == step:
                    rest = sub(off, scale(vv, co))
                    at0 = add(rest, scale(z0, co))
                    if at0 is first:
                        return True
    return False
