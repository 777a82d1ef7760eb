"""Options: one value per thread, off at the start, unchanged by the library; scoped overrides"""
import os
import re
from itertools import product
from wra import build, codec, ir
from wra.absint import *
from wra.seq import obj
from wra.var import SIL, CLA, HOO
from wra.build import ToolError

OPTS = {SIL: ("silent errors", 1), CLA: ("clamping", 1), HOO: ("the hook", 8)}
R1, R2, R3, R4 = "each thread has its own options", "options are off at the start", "the library does not change options", "overrides hold for their scope and no longer"


WRAP = "_ZTW"


def mentions(i):
    m = {g for g in OPTS if any(isinstance(x, str) and re.search(r"@%s(\b|$)" % re.escape(g), x) for x in flat(i.a))}
    if i.op in ("call", "invoke") and (i.callee_raw if hasattr(i, "callee_raw") else i.d.get("fn") or "").startswith(WRAP):
        m |= {g for g in OPTS if i.d["fn"] == "_ZTW" + g[2:]}
    return m


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def only_read(f):
    """the options are only read in this function"""
    ptr = set()
    for i in f.all():
        if not mentions(i) or i.op == "load":
            continue
        fn = i.d.get("fn") or ""
        if i.op in ("call", "invoke") and (fn.startswith(WRAP) or fn.startswith("llvm.threadlocal.address")):
            ptr.add(i.id)
            continue
        return False
    for i in f.all():
        if i.op == "load":
            continue
        if any(ref(x) in ptr for x in flat(i.a)):
            return False
    return True


def ref(x):
    """the instruction an operand is the result of"""
    m = re.fullmatch(r"%(\d+)", x) if isinstance(x, str) else None
    return int(m.group(1)) if m else None


def run(rep):
    rep.explanation = (
        "The options are looked up in the bitcode of the library: each must be a thread local variable that starts off. Every function of the library "
        "that mentions an option must only read it, or leave it as it found it on every trace, exceptions included. Uses of scoped overrides (local_override, LocalOverride; nested, "
        "two options, early return) are compiled against options.h and followed: while the scope is active the option has the new value, and after it the old one, whatever the "
        "code in the scope did to it and however the scope is left.")
    rep.rule(R1, 3)
    rep.rule(R2, 3)
    rep.rule(R3, 1)
    rep.rule(R4, 20)
    bc, files = build.bitcode(("lib",))
    mod = ir.Mod(build.dump(bc, {"roots": [r"."], "do_inline": False}))
    for g, (name, size) in OPTS.items():
        d = mod.globals.get(g)
        if d is None or d.get("decl"):
            raise ToolError("option %s not found" % g)
        where = "%s:%s" % (d.get("file"), d.get("line"))
        rep.check(d.get("tls"), R1, where, "%s: one value for all threads" % name)
        i = d.get("init")
        rep.check(i in ("zero", "#0", "null"), R2, where, "%s starts as %s" % (name, i))
    n = 0
    names = []
    for f in mod.fns.values():
        if any(mentions(i) for i in f.all()):
            n += 1
            if only_read(f):
                rep.ok(R3, f.dem)
            else:
                names.append(f.dem)
    if names:
        m2 = codec.load(["^%s$" % re.escape(x) for x in names])
        for f in m2.fns.values():
            if f.dem in names:
                unchanged(rep, m2, f)
    rep.count("functions that mention options", n)
    witness(rep)


def unwinding(I, st, i, a):
    return C(1 if st.unwinding else 0, 32 if "exceptions" in (i.callee or "") or "exceptions" in str(i.d.get("dem")) else 1)


HK = [(r"^std::uncaught_exceptions?\(", unwinding)]


def final(I, st, g):
    return I.load(st, mk("glob", 64, g), "i8" if OPTS[g][1] == 1 else "ptr", OPTS[g][1])


def unchanged(rep, mod, f):
    old = {g: mk("arg", 8 * s, -20 - k, "value of " + n) for k, (g, (n, s)) in enumerate(OPTS.items())}
    I = Interp(mod, f, hooks=HK, unwind=lambda i, st: True)

    def init(I, st):
        for g in OPTS:
            I.store(st, mk("glob", 64, g), old[g], OPTS[g][1])
    for p in I.run(init=init):
        if p.end not in ("ret", "resume", "throw"):
            continue
        for g in OPTS:
            v = final(I, p.st, g)
            rep.check(v is old[g], R3, f.where, "%s changes %s to %s" % (f.dem, OPTS[g][0], show(v)))


def witness(rep):
    bc = build.unit(os.path.join(build.VERIF, "witness", "options.cc"))
    try:
        mod = ir.Mod(build.dump(bc, {"roots": [r"^w_"], "post": codec.POST, "std_max": 200}))
    finally:
        os.unlink(bc)
    for f in sorted(mod.fns.values(), key=lambda f: f.dem):
        if not f.dem.startswith("w_"):
            continue
        name = re.sub(r"_direct", "", f.dem.split("(")[0])
        params = re.search(r"\((.*)\)$", f.dem).group(1).split(", ")
        # option -> argument in force at each call
        exp = {"w_silent": [{SIL: 0}], "w_clamp": [{CLA: 0}], "w_hook": [{HOO: 0}], "w_nested": [{SIL: 1}, {SIL: 0}], "w_two": [{SIL: 0, CLA: 1}], "w_return": [{CLA: 0}]}[name]
        hooks = (C(0, 64), obj("hook 1"), obj("hook 2"))
        dom = {SIL: [C(v, 8) for v in (0, 1)], CLA: [C(v, 8) for v in (0, 1)], HOO: hooks}
        ends = 0
        for olds in product(dom[SIL], dom[CLA], dom[HOO]):
            for new in product(*[(0, 1) if t == "bool" else hooks if "Hook" in t else (mk("arg", 32, k, "x"),) for k, t in enumerate(params)]):
                ends += one(rep, mod, f, dict(zip((SIL, CLA, HOO), olds)), new, exp)
        if ends < 2:
            raise ToolError("%s has %d ends" % (f.dem, ends))
        rep.count("uses of overrides")
        rep.count("ends of scopes", ends)


def one(rep, mod, f, old, new, exp):
    args = {k: C(v, 1) if isinstance(v, int) else v for k, v in enumerate(new)}
    scribble = {SIL: lambda v: C(1 - uval(v), 8), CLA: lambda v: C(1 - uval(v), 8), HOO: lambda v: obj("another hook")}

    def body(I, st, i, a):
        k = st.objs.get("calls", 0)
        st.objs["calls"] = k + 1
        if k >= len(exp):
            return True
        for g in OPTS:
            v = final(I, st, g)
            w = old[g]
            if g in exp[k]:
                w = new[exp[k][g]]
                w = C(w, 8) if isinstance(w, int) else w
            rep.check(v is w, R4, i.loc, "%s: in the scope, %s is %s instead of %s" % (f.dem, OPTS[g][0], show(v), show(w)))
        if i.op == "call":
            I.finish("resume", st.fork(), i)
        # the code in the scope changes the options that are overridden
        for g in exp[k]:
            I.store(st, mk("glob", 64, g), scribble[g](old[g]), OPTS[g][1])
        return True
    I = Interp(mod, f, hooks=[(r"^body\(\)$", body)] + HK, unwind=lambda i, st: True)

    def init(I, st):
        for g in OPTS:
            I.store(st, mk("glob", 64, g), old[g], OPTS[g][1])
    ends = 0
    for p in I.run(args=args, init=init):
        if p.end not in ("ret", "resume", "throw"):
            continue
        ends += 1
        for g in OPTS:
            v = final(I, p.st, g)
            rep.check(v is old[g], R4, "wreport/options.h", "%s: after the scope (left by %s), %s is %s instead of %s" % (f.dem, "an exception" if p.end != "ret" else "its end", OPTS[g][0], show(v), show(old[g])))
    return ends
