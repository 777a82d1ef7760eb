"""Decoders never read outside the message"""
import re
from wra import codec, bounds
from wra.absint import *
from wra import lin
from wra.bounds import Kind, B, library, limited
from wra.build import ToolError
from wra.ir import strip_args

ROOTS = [r"^wreport::bufr::", r"^wreport::buffers::(CrexInput::|[a-z_]+\(|\(anon)", r"^wreport::(bulletin::)?[a-z_]+\(", r"^wreport::bulletin::\(anonymous namespace\)::", r"^wreport::\(anonymous namespace\)::",
         r"^wreport::(Bufr|Crex)Bulletin::decode", r"^wreport::varcode_parse", r"^wreport::sys::TempBuffer<"]


def load():
    return codec.load(ROOTS, noinline=codec.STRNO + [r"^std::", r"^__gnu_cxx::", r"^wreport::"])


def order(mod, names, callers):
    """callees first"""
    calls = {}
    for g, fs in callers.items():
        for f in fs:
            calls.setdefault(f, set()).add(g)
    seen, out = set(), []

    def go(n):
        if n in seen:
            return
        seen.add(n)
        for g in sorted(calls.get(n, ())):
            go(g)
        if n in names:
            out.append(n)
    for n in sorted(names):
        go(n)
    return out


def run(rep):
    mod = load()
    inp = Kind(mod, "wreport::bufr::Input", None, 0)
    crx = Kind(mod, "wreport::buffers::CrexInput", "cur", 1)
    kinds = {"%class.wreport::bufr::Input": inp, "%struct.wreport::bufr::Input": inp, "%class.wreport::buffers::CrexInput": crx, "%struct.wreport::buffers::CrexInput": crx}
    fns = [f for f in mod.fns.values() if f.blocks]
    callers = {}
    taken = set()
    for f in fns:
        for b in f.blocks:
            for i in b.ins:
                if i.op in ("call", "invoke") and i.get("fn"):
                    callers.setdefault(mod.aliases.get(i.get("fn"), i.get("fn")), set()).add(f.name)
    touch = {f.name for f in fns if bounds.touches(mod, f, kinds) and not re.search(r"::(parse_error|throwf)\(", f.dem)}
    plain = {n for n in touch if not mod.fns[n].loops() and not any(i.op in ("call", "invoke") and i.callee is None for b in mod.fns[n].blocks for i in b.ins)
             and sum(len(b.ins) for b in mod.fns[n].blocks) < 60}
    const = {n for n in touch if re.search(r"\) const$", mod.fns[n].dem) and any(k == 0 for k, _ in bounds.typed(mod.fns[n], kinds))}
    aware = touch - const
    for f in fns:
        if any(i.op in ("call", "invoke") and i.callee is None or "std::function<" in (i.callee or "") for b in f.blocks for i in b.ins):
            aware.add(f.name)
    while True:
        more = {f for g in aware for f in callers.get(g, ())} - aware
        if not more:
            break
        aware |= more
    # outside of the library nothing knows the inputs; inside it, what calls nothing that does
    ext = {i.get("fn") for f in fns for b in f.blocks for i in b.ins if i.op in ("call", "invoke") and (i.callee or "").startswith("wreport::")} - {f.name for f in fns}
    unknown = {f.name for f in fns if any(mod.aliases.get(i.get("fn"), i.get("fn")) in ext for b in f.blocks for i in b.ins if i.op in ("call", "invoke"))}
    blind = {f.name for f in fns} - aware - unknown
    plain |= {n for n in touch if re.search(r"(\w+)::\1$", strip_args(mod.fns[n].dem))}
    need, done, fails = set(), {}, {}
    queue = order(mod, touch, callers)
    lib = library(B)
    taken = address_taken(mod, fns)
    for r, m in (("reads inside the message", 250), ("cursor inside the message", 60), ("message never replaced", 2), ("writes inside the buffers of decoded strings", 100)):
        rep.rule(r, m)
    while queue:
        n = queue.pop(0)
        f = mod.fns[n]
        I = B(mod, f, hooks=lib, unroll=40, max_paths=4000)
        I.kinds, I.need, I.blind = kinds, (need | plain) - {n}, blind
        I.run()
        bad = [c for c in I.checks if not c[0]]
        done[n], fails[n] = I.checks, bad
        if bad and n not in need:
            need.add(n)
            for c in sorted(callers.get(n, ())):
                if c not in queue:
                    queue.append(c)
    entries = 0
    for n, checks in sorted(done.items()):
        f = mod.fns[n]
        top = bool(ENTRY.search(f.dem))
        entries += top
        if not callers.get(n) and not top and n not in taken:
            rep.count("functions nothing calls, left out")
            continue
        rep.count("functions analysed")
        answer = top or n in taken or n not in need
        if not answer:
            rep.count("functions judged in their callers")
            continue
        for ok, i, what, goals in checks:
            rule = "cursor inside the message" if "cursor" in what or "pointer" in what else "reads inside the message"
            if ok:
                rep.ok(rule, "%s, %s" % (i.loc, f.dem.split("(")[0]))
            else:
                rep.bad(rule, "%s, reached from %s" % (i.loc, f.dem), "%s at %s is not shown to stay inside the message%s"
                        % (what, i.loc, "" if not goals else ": no test on the way implies " + " and ".join("%s <= %s" % (show(x), show(y)) for x, y in goals)),
                        key="%s|%s|%s" % (rule, f.dem.split("(")[0], what))
    if entries < 4:
        raise ToolError("%d entry points of the decoders" % entries)
    replaced(rep, mod, fns, kinds)
    buffers(rep, mod, fns, kinds, lib, need | plain, blind, callers)
    rep.explanation = ("every function that reads a message is interpreted abstractly with an unknown message of unknown length; each read, copy or "
                       "comparison of message bytes must be implied (exact linear arithmetic over the tests on the path) to lie inside the message; functions "
                       "that rely on their callers are followed in every caller up to the decode entry points")
    rep.assumptions += ["a message is shorter than 2^31 bytes", "widths in variable definitions are at most 65535",
                        "std::string keeps a NUL after its characters"]


def show(t):
    return re.sub(r"\s+", " ", str(t))[:80]


ENTRY = re.compile(r"^wreport::(Bufr|Crex)Bulletin::decode(_header|_verbose)?\(")


def address_taken(mod, fns):
    r = set()
    for f in fns:
        for b in f.blocks:
            for i in b.ins:
                for o in i.a:
                    if isinstance(o, str) and o.startswith("@"):
                        r.add(o[1:])
                for o, _ in i.d.get("inc", ()) if i.op == "phi" else ():
                    if isinstance(o, str) and o.startswith("@"):
                        r.add(o[1:])

    def walk(x):
        if isinstance(x, str) and x.startswith("@"):
            r.add(re.sub(r"[+-]\d+$", "", x[1:]))
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for g in mod.globals.values():
        walk(g.get("init"))
    return {mod.aliases.get(n, n) for n in r} & {f.name for f in fns}


def replaced(rep, mod, fns, kinds):
    """the message and its length are set by the constructors only"""
    rule = "message never replaced"
    for f in fns:
        ctor = re.search(r"(\w+)::\1$", strip_args(f.dem))
        for b in f.blocks:
            for i in b.ins:
                if i.op != "store" or i.a[1][0] != "%":
                    continue
                g = f.ins.get(int(i.a[1][1:]))
                if g is None or g.op != "getelementptr" or g.get("src") not in kinds or "off" not in g.d:
                    continue
                kd = kinds[g.get("src")]
                if g.d["off"] in (kd.data, kd.len):
                    own = ctor and f.dem.startswith(kd.cls + "::")
                    rep.check(bool(own), rule, i.loc, "the message or its length is set in %s" % f.dem.split("(")[0])


class W(B):
    """writes into buffers allocated here"""
    bits = diff = None
    chars, arrays = "", {}

    def entering(self, sub):
        B.entering(self, sub)
        sub.bits, sub.diff, sub.writes = self.bits, self.diff, self.writes

    def simple(self, st, i):
        if i.op == "store":
            addr = self.val(st, i.a[1], "ptr")
            m = [x for x in base_atoms(addr) if x.k == "new"]
            size = st.objs.get(("newsize", m[0])) if len(m) == 1 else None
            if not m:
                # an array here or in a caller
                m = [x for x in base_atoms(addr) if x.k == "alloca"]
                if len(m) == 1 and len(m[0].a) == 1 and W.arrays.get(m[0].a[0]):
                    size = C(W.arrays[m[0].a[0]], 64)
            if size is not None:
                off = sub(addr, m[0])
                n = SIZE.get(i.get("oty"), 8)
                side = []
                e = [lin.exact(st, t, side) for t in (C(0, 64), off, add(off, C(n, 64)), size)]
                ok = None not in e and lin.entails(st, e[0], e[1], side=side) and lin.entails(st, e[2], e[3], side=side)
                self.writes.append((ok, i, off, size))
        B.simple(self, st, i)
        if i.op == "load" and limited(self.mod, i) is not None and "bit_len" in field_of(self.mod, i):
            st.env[i.id] = C(self.bits, 32)


def field_of(mod, i):
    g = i.fn.ins.get(int(i.a[0][1:])) if i.a[0][0] == "%" else None
    if g is None or g.op != "getelementptr":
        return ""
    n, t = mod.struct(g.get("src") or "")
    return next((nm for o, sz, nm, ty in mod.fields(n) if o == g.d.get("off")), "") if t else ""


def buffers(rep, mod, fns, kinds, lib, need, blind, callers):
    rule = "writes inside the buffers of decoded strings"

    def bits(I, st, i, a):
        n = a[1]
        if isc(n) and uval(n) == 6 and I.bits != 6:
            return C(I.diff, 32)
        r = I.fresh(32, "bits")
        if isc(n) and 0 < uval(n) <= 32:
            hi = (1 << uval(n)) - 1
            st.setiv(r, slo=0 if uval(n) < 32 else None, shi=hi if uval(n) < 32 else None, ulo=0, uhi=hi)
            if W.chars == "blanks":
                return C(min(32, max(1, hi - 1)), 32)
            if W.chars == "missing":
                return C(hi, 32)
            if hi > 1:
                st.setiv(r, slo=1, shi=hi - 1, ulo=1, uhi=hi - 1)
        return r

    def alloc(I, st, i, a):
        st.seq += 1
        r = mk("new", 64, i.id, st.seq)
        st.assume(mk("eq0", 1, r), False)
        I.ptr.add(r)
        st.objs[("newsize", r)] = a[0]
        return r
    hk = [(r"::get_bits\(", bits), (r"^operator new\[\]\(unsigned long\)", alloc), (r"^isspace$", lambda I, st, i, a: C(1 if W.chars == "blanks" else 0, 32))] + lib
    users = [f for f in fns if bounds.touches(mod, f, kinds) and not f.dem.endswith("const")
             and any(i.op in ("call", "invoke") and re.search(r"^operator new\[\]|::TempBuffer\(", i.callee or "") for b in f.blocks for i in b.ins)]
    filler = {n for n in mod.fns if mod.fns[n].blocks and re.search(r"TempBuffer", mod.fns[n].dem)}
    for f in fns:
        # called with a buffer to fill
        if bounds.touches(mod, f, kinds) and any(re.search(r"^(unsigned )?char\*$", p) for p in split_params(f.dem) or ()):
            filler.add(f.name)
    sizes = list(range(1, 18)) + [23, 24, 25, 32, 33, 64, 65] if rep.tier == "quick" else list(range(1, 34)) + [40, 47, 48, 49, 64, 65, 127, 128, 255, 256, 1024, 2040]
    # arrays handed to functions that fill them
    for f in fns:
        arrays = {i.id: i.get("asz") for b in f.blocks for i in b.ins if i.op == "alloca" and (i.get("aty") or "").startswith("[")}
        if not arrays or not any(i.op in ("call", "invoke") and mod.aliases.get(i.get("fn"), i.get("fn")) in filler for b in f.blocks for i in b.ins):
            continue
        I = W(mod, f, hooks=hk, unroll=0, max_paths=20000)
        I.kinds, I.need, I.blind = kinds, (need | filler) - {f.name}, blind
        I.bits, I.diff, I.writes = 8, 0, []
        W.chars, W.arrays = "characters", arrays
        I.run()
        rep.count("functions with arrays to fill")
        for ok, i, off, size in I.writes:
            rep.check(ok, rule, i.loc, "reached from %s: write at byte %s of %s" % (f.dem.split("(")[0], show(off), show(size)))
    W.arrays = {}
    for f in users:
        for n in sizes:
            for d in sorted({0, 1, n // 8, n // 8 + 1, 63}):
                for W.chars in ("characters", "blanks", "missing"):
                    I = W(mod, f, hooks=hk, unroll=400, max_paths=20000)
                    I.kinds, I.need, I.blind = kinds, (need | filler) - {f.name}, blind
                    I.bits, I.diff, I.writes = n, d, []
                    I.run()
                    for ok, i, off, size in I.writes:
                        rep.check(ok, rule, i.loc, "reached from %s with a field of %d bits%s: write at byte %s of %s" % (f.dem.split("(")[0], n, " and a difference width of %d" % d if d else "",
                                                                                                                 show(off), show(size)))
            rep.count("field widths of buffer users")
