"""Shared plumbing of the checks: reports, known findings, evidence, exits."""
import json, os, sys, time, traceback
import facts
from facts import AnalysisBroken

VERIF = facts.VERIF
T0 = time.time()
REAL = ("s", "d")
PRECS = ("s", "d", "c", "z")


class Report:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.obligations = 0
        self.discharged = 0
        self.kinds = {}
        self.samples = {}
        self.viols = []
        self.functions = set()
        self.assumptions = []

    def ok(self, kind, where=None, text=None, n=1):
        self.obligations += n
        self.discharged += n
        self._count(kind, where, text, n)

    def _count(self, kind, where, text, n):
        self.kinds[kind] = self.kinds.get(kind, 0) + n
        if where:
            self.functions.add(where.split(" ")[-1].strip("()") if "(" in where else where)
        s = self.samples.setdefault(kind, [])
        if len(s) < 3 and (where or text):
            s.append("%s: %s" % (where, text) if text else str(where))

    def bad(self, kind, key, where, msg):
        """key: stable identity of the instance (used by known findings)"""
        self.obligations += 1
        self._count(kind, where, None, 1)
        self.viols.append({"kind": kind, "key": key, "where": where, "message": msg})

    def check(self, cond, kind, key, where, msg, text=None):
        if cond:
            self.ok(kind, where, text)
        else:
            self.bad(kind, key, where, msg)
        return cond


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def finish(rep, minimum, extra=None):
    """minimum: {kind: number of instances confirmed by hand}; the number of
    paths an obligation is met on depends on how the code is written, so only
    losing more than half of them means that the rule lost its anchors"""
    kf = {k["key"]: k for k in known(rep.prop)}
    new = [v for v in rep.viols if v["key"] not in kf]
    seen = sorted({v["key"] for v in rep.viols if v["key"] in kf})
    ev = {
        "property": rep.prop,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "proof",
        "coverage": {
            "obligations": rep.obligations,
            "discharged": rep.discharged,
            "checker_cmd": "python3 -B checks/run.py " + rep.prop,
            "trusted_base": ["clang 18 front end (types, constants, OpenMP clauses)",
                             "engine/interp.py abstract interpreter", "engine/terms.py normal forms",
                             "the rule tables of checks/%s" % rep.prop],
            "rule": rep.rule,
            "instances_by_rule": rep.kinds,
            "functions_analysed": len(rep.functions),
            "samples": ["%s: %s" % (k, x) for k, v in rep.samples.items() for x in v],
            "known_findings_matched": seen,
        },
        "assumptions": rep.assumptions,
        "violations": len(new),
        "wall_s": round(time.time() - T0, 2),
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted({kf[k]["what"] for k in seen}):
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, w))
    print("%s: %d obligations, %d discharged, %d violations, %.1fs" %
          (rep.prop, rep.obligations, rep.discharged, len(new), time.time() - T0))
    if new:
        path = os.path.join(VERIF, "evidence", rep.prop + ".violations.json")
        with open(path, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:40]:
            print("  %s [%s] %s" % (v["where"], v["kind"], v["message"]))
            print("     key: " + v["key"])
        print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    for k, n in minimum.items():
        if 2*rep.kinds.get(k, 0) < n:
            raise AnalysisBroken("rule '%s' matched %d sites, of about %d: the anchors moved"
                                 % (k, rep.kinds.get(k, 0), n))
    return 0
