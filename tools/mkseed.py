"""mkseed(id, prop, edits, needs, breaks, demo): write /verif/seeded/<id> from edits of /repo's files"""
import json, os, subprocess
DEMO = '''#!/bin/bash
# builds a small program against the library in /repo/_build and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -w -I/repo -I/repo/_build "$here/demo.cc" -o "$tmp/demo" /repo/_build/wreport/libwreport.so -Wl,-rpath,/repo/_build/wreport || exit 3
export WREPORT_TABLES=/repo/tables
cd "$tmp" && timeout 60 ./demo
'''
PYDEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export WREPORT_TABLES=/repo/tables PYTHONPATH=/repo/python:/repo/_build/python PYTHONDONTWRITEBYTECODE=1
cd / && timeout 60 python3 "$here/demo.py"
'''
def mkseed(id, prop, edits, needs, breaks, demo, py=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0, "dirty"
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True, stderr=subprocess.DEVNULL)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(PYDEMO if py else DEMO)
    open(d + ("/demo.py" if py else "/demo.cc"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
