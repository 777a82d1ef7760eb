"""Obligations, violations and evidence of one check run."""
import json
import os
import sys
import time
import traceback

from .build import ToolError, VERIF, REPO


class Report:
    def __init__(self, prop, tier, level="other"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.obl = {}           # rule -> [count, discharged]
        self.viol = []
        self.samples = []
        self.known = []
        self.analysed = {}
        self.assumptions = []
        self.explanation = ""
        self.min = {}

    def rule(self, rule, minimum=1):
        """declare a rule; fewer than `minimum` instances is an analysis failure"""
        self.obl.setdefault(rule, [0, 0])
        self.min[rule] = minimum

    def ok(self, rule, what=None):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        o[1] += 1
        if what and o[1] <= 3:
            self.samples.append("%s: %s" % (rule, what))

    def bad(self, rule, where, text, key=None):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        v = {"rule": rule, "where": str(where), "text": text, "key": key or "%s|%s" % (rule, text)}
        if not any(x["where"] == v["where"] and x["text"] == v["text"] for x in self.viol):
            self.viol.append(v)

    def check(self, cond, rule, where, text, what=None, key=None):
        if cond:
            self.ok(rule, what or text)
        else:
            self.bad(rule, where, text, key)
        return bool(cond)

    def count(self, k, n=1):
        self.analysed[k] = self.analysed.get(k, 0) + n

    def finish(self):
        prop = self.prop
        known = load_known(prop)
        left = []
        for v in self.viol:
            k = next((x for x in known if x["key"] == v["key"]), None)
            if k is None:
                left.append(v)
            else:
                self.known.append(k)
        short = [(r, self.obl[r][0], m) for r, m in self.min.items() if self.obl[r][0] < m]
        nobl = sum(o[0] for o in self.obl.values())
        cov = {
            "explanation": self.explanation,
            "analysed": self.analysed,
            "rules": {r: {"instances": o[0], "held": o[1]} for r, o in self.obl.items()},
            "obligations": nobl,
            "discharged": sum(o[1] for o in self.obl.values()),
            "samples": self.samples[:24],
            "checker_cmd": "python3 /verif/check.py %s --tier %s" % (prop, self.tier),
        }
        if self.known:
            cov["known_findings"] = [k["text"] for k in self.known]
        ev = {"property": prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(left)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s.violations.txt" % prop)
        if os.path.exists(rp):
            os.unlink(rp)
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        for r, o in self.obl.items():
            print("%s: %d instances, %d hold" % (r, o[0], o[1]))
        if left:
            with open(rp, "w") as f:
                for v in left:
                    f.write("%s\n  rule: %s\n  %s\n  key: %s\n" % (v["where"], v["rule"], v["text"], v["key"]))
            for v in left[:20]:
                print("%s: [%s] %s" % (v["where"], v["rule"], v["text"][:400]))
            if len(left) > 20:
                print("... and %d more, see %s" % (len(left) - 20, rp))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if short:
            for r, n, m in short:
                print("analysis incomplete: rule %r matched %d instances, expected at least %d" % (r, n, m))
            return 3
        print("property %s holds: %d obligations on %s" % (prop, nobl, ", ".join("%d %s" % (v, k) for k, v in self.analysed.items())))
        return 0


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l[len("known: property=%s " % prop):]
                key, _, text = rest.partition(" :: ")
                res.append({"key": key.strip(), "text": text.strip()})
    return res


def main(argv):
    import importlib
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    rep = None
    try:
        mod = importlib.import_module("checks." + prop.lower())
        rep = Report(prop, tier, getattr(mod, "LEVEL", "other"))
        mod.run(rep)
        return rep.finish()
    except ToolError as e:
        if rep is not None and rep.viol:
            # what was found before the analysis stopped stands
            print("check not completed: %s" % e)
            r = rep.finish()
            if r == 1:
                return r
        print("check could not be carried out: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
