"""DESIGN.md from its head, the properties, the evidence of the last run, the planted bugs and the findings"""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = "/verif/"
o = open(V + "tools/design_head.md").read()
extra = {}
cur = None
for l in open(V + "tools/design_props.md"):
    if l.startswith("## "):
        cur = l[3:].strip()
        extra[cur] = ""
    elif cur:
        extra[cur] += l
seeds = {}
for m in sorted(glob.glob(V + "seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
o += "## The properties\n\n"
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    o += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    o += "Quantified over: %s.\n\n" % p["quant"]
    o += "*How it is decided*: %s." % p["technique"]
    try:
        ev = json.load(open(V + "evidence/%s.json" % p["id"]))
        c = ev["coverage"]
        o += " %s\n\n*Rules*: %s.\n\n" % (c["explanation"].rstrip("."), "; ".join(sorted(c["rules"])))
        if ev["assumptions"]:
            o += "*Assumptions*: %s.\n\n" % "; ".join(ev["assumptions"])
    except OSError:
        o += "\n\n"
    o += "*Bounds and limits*: %s.\n\n" % p["note"]
    if extra.get(p["id"], "").strip():
        o += extra[p["id"]].strip() + "\n\n"
o += "## Not applicable\n\n"
for p in props.NA:
    o += "* %s %s: %s\n" % (p["id"], p["title"], p["reason"])
o += "\n" + extra.get("NA", "").strip() + "\n\n"
o += "## Planted bugs and the checks that catch them\n\nEach was confirmed to build, to pass the 172 stable tests, and to fail its demonstration; `tools/tryseed.sh` repeats that.\n\n| planted bug | property | needs | caught |\n|---|---|---|---|\n"
missed = {l.strip() for l in open(V + "tools/missed.txt")} if os.path.exists(V + "tools/missed.txt") else set()
for k in sorted(seeds):
    for n, d in seeds[k]:
        o += "| %s | %s | %s | %s |\n" % (n, k, d["needs"].replace("|", "/"), "no" if n in missed else "yes")
o += "\n## Defects of wreport found by the checks\n\n"
o += "Listed in `known-findings.txt`; `fixed` entries name the commit in /repo.\n\n"
for l in open(V + "known-findings.txt"):
    if l.strip() and not l.startswith("#"):
        o += "* %s\n" % l.strip()
o += "\n" + extra.get("findings", "").strip() + "\n\n"
o += "## False alarms met while building, and what was done\n\n" + extra.get("alarms", "").strip() + "\n"
open(V + "DESIGN.md", "w").write(o)
