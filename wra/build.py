"""Compile /repo's current working tree to LLVM bitcode and dump normalised IR.

Nothing from /repo is executed: clang only compiles, irdump only transforms and
prints IR.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WRA_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class ToolError(Exception):
    """The analysis could not be carried out (not a property violation)."""


def cache_root():
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode("utf8", "replace")[-3000:]))
    return p.stdout


def irdump_binary():
    src = os.path.join(VERIF, "tools", "irdump.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(cache_root(), "irdump-" + h)
    if os.path.exists(out):
        return out
    cxx = run(["llvm-config-18", "--cxxflags"]).decode().split()
    ld = run(["llvm-config-18", "--ldflags", "--libs"]).decode().split()
    tmp = out + ".tmp%d" % os.getpid()
    run([LLVM + "/bin/clang++", "-std=c++17", "-O1", "-w", "-fno-rtti"] + cxx + [src, "-o", tmp] + ld)
    os.replace(tmp, out)
    return out


EXCLUDE = re.compile(r"(-test|-bench|/tests|/testrunner|/tests-main|/benchmark|test-utils[^/]*)\.cc$")


def sources(parts=("lib", "python", "wrep")):
    res = []
    def add(d, recurse=False):
        base = os.path.join(REPO, d)
        if not os.path.isdir(base):
            raise ToolError("missing source directory " + base)
        for root, dirs, files in os.walk(base):
            dirs.sort()
            if not recurse:
                dirs[:] = []
            for f in sorted(files):
                if f.endswith(".cc"):
                    p = os.path.join(root, f)
                    if not EXCLUDE.search(p):
                        res.append(p)
    if "lib" in parts:
        add("wreport", True)
    if "python" in parts:
        add("python", True)
    if "wrep" in parts:
        for f in ("wrep.cc", "options.cc"):
            p = os.path.join(REPO, "src", f)
            if os.path.exists(p):
                res.append(p)
    return res


def include_flags(workdir):
    cfg = os.path.join(workdir, "cfg")
    os.makedirs(os.path.join(cfg, "wreport"), exist_ok=True)
    mb = open(os.path.join(REPO, "meson.build")).read()
    m = re.search(r"version\s*:\s*'(\d+)\.(\d+)[^']*'", mb)
    major, minor = (m.group(1), m.group(2)) if m else ("3", "38")
    with open(os.path.join(cfg, "config.h"), "w") as f:
        f.write('#pragma once\n#define HAS_GETOPT_LONG\n#define HAVE_LUA\n#define PACKAGE_VERSION "%s.%s"\n'
                '#define TABLE_DIR "/usr/local/share/wreport"\n' % (major, minor))
    with open(os.path.join(cfg, "wreport", "version.h"), "w") as f:
        f.write('#pragma once\n#define WREPORT_VERSION_MAJOR %s\n#define WREPORT_VERSION_MINOR %s\n' % (major, minor))
    inc = ["-I" + cfg, "-I" + os.path.join(REPO, "wreport"), "-I" + os.path.join(REPO, "src"),
           "-I" + REPO, "-I" + os.path.join(REPO, "python"), "-I/usr/include/lua5.3"]
    for p in ("/usr/include/python3.12",):
        inc.append("-I" + p)
    return inc


CFLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
          "-emit-llvm", "-c", "-w", "-D_FILE_OFFSET_BITS=64", "-fPIC"]


def tree_hash(files):
    h = hashlib.sha256()
    for d in ("wreport", "python", "src"):
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".cc", ".h", ".hh", ".tcc", ".c", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "meson.build"), "rb").read())
    h.update("\n".join(files).encode())
    h.update(" ".join(CFLAGS).encode())
    return h.hexdigest()[:20]


def bitcode(parts=("lib",), extra_flags=()):
    """Return the path of the linked bitcode of the current tree."""
    files = sources(parts)
    key = tree_hash(files + list(parts) + list(extra_flags))
    root = cache_root()
    out = os.path.join(root, "bc-%s-%s.bc" % ("-".join(parts), key))
    if os.path.exists(out):
        return out, files
    # forget bitcode of other trees
    for f in os.listdir(root):
        if f.startswith("bc-%s-" % "-".join(parts)):
            try:
                os.unlink(os.path.join(root, f))
            except OSError:
                pass
    work = tempfile.mkdtemp(prefix="wra-", dir=root)
    try:
        inc = include_flags(work)
        def one(i_f):
            i, f = i_f
            o = os.path.join(work, "%03d.bc" % i)
            run([LLVM + "/bin/clang++"] + CFLAGS + list(extra_flags) + inc + ["-o", o, f])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(files)))
        tmp = os.path.join(work, "linked.bc")
        run([LLVM + "/bin/llvm-link"] + objs + ["-o", tmp])
        os.replace(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out, files


def unit(src):
    """bitcode of one file of the framework, compiled against the headers of the current tree"""
    root = cache_root()
    work = tempfile.mkdtemp(prefix="wra-", dir=root)
    try:
        o = os.path.join(work, "u.bc")
        run([LLVM + "/bin/clang++"] + CFLAGS + include_flags(work) + ["-o", o, src])
        with open(o, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:20]
        out = os.path.join(root, "unit-%s.bc" % h)
        os.replace(o, out)
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def dump(bc, config):
    """Run irdump with config, return parsed JSON (cached by content)."""
    tool = irdump_binary()
    cfg = json.dumps(config, sort_keys=True)
    key = hashlib.sha256((bc + tool + cfg).encode()).hexdigest()[:20]
    root = cache_root()
    work = tempfile.mkdtemp(prefix="wrad-", dir=root)
    try:
        cf = os.path.join(work, "c.json")
        of = os.path.join(work, "o.json")
        with open(cf, "w") as f:
            f.write(cfg)
        run([tool, bc, cf, of])
        with open(of) as f:
            return json.load(f)
    finally:
        shutil.rmtree(work, ignore_errors=True)
