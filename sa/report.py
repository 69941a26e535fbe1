"""Obligations, verdicts, evidence and known findings: what a check hands out."""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIGS = {"quick": ["all", "def"], "thorough": ["all", "def", "mdns", "dnssec"]}


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []
        self.counts = {}
        self.assumptions = set()
        self.rules = []
        self.functions = set()
        self.infos = []
        self.t0 = time.time()
        self.cfg = None

    # statuses: proven | refuted | undecided
    def ob(self, key, status, why="", where="", rule=""):
        self.obs.append({"key": key, "status": status, "why": why, "where": where, "rule": rule, "cfg": self.cfg})

    def proven(self, key, where="", rule=""):
        self.ob(key, "proven", "", where, rule)

    def refuted(self, key, why, where="", rule=""):
        self.ob(key, "refuted", why, where, rule)

    def undecided(self, key, why, where="", rule=""):
        self.ob(key, "undecided", why, where, rule)

    def check(self, cond, key, why, where="", rule=""):
        """a rule whose instance is decided outright"""
        if cond:
            self.proven(key, where, rule)
        else:
            self.refuted(key, why, where, rule)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """fail closed when fewer instances were found than were confirmed by hand"""
        have = self.counts.get(name, 0)
        if have < n:
            self.refuted("floor:%s" % name, "only %d %s found, %d were confirmed to exist" % (have, name, n), "", "instance floor")

    def fn(self, inst):
        self.functions.add(inst["name"] if isinstance(inst, dict) else inst)

    def use(self, c):
        """account for an analysis context"""
        for i in c.visited:
            n = c.prog.insts[i]
            if n["crate"] == "maybe_dns":
                self.functions.add(n["name"])
        self.assumptions |= c.assumptions


def known():
    try:
        with open(HERE + "/known-findings.json") as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def dump(cfgs):
    for c in cfgs:
        r = subprocess.run([HERE + "/dump.sh", c] + ([os.environ["SA_REPO"]] if os.environ.get("SA_REPO") else []), capture_output=True, text=True)
        if r.returncode != 0:
            print("cannot build /repo (%s):\n%s%s" % (c, r.stdout, r.stderr))
            sys.exit(2)


def finish(R, mod):
    wall = time.time() - R.t0
    kn = {k["key"]: k for k in known() if k["property"] == R.prop and k["status"] == "known"}
    bad, hits = {}, {}
    for o in R.obs:
        if o["status"] == "refuted":
            (hits if o["key"] in kn else bad).setdefault(o["key"], o)
    n = {s: sum(1 for o in R.obs if o["status"] == s) for s in ("proven", "refuted", "undecided")}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/build/reports", exist_ok=True)
    und = sorted({(o["key"], o["why"][:1600]) for o in R.obs if o["status"] == "undecided"})
    ev = {
        "property": R.prop, "tier": R.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": " ".join(mod.EXPLAIN.split()),
            "obligations": len(R.obs), "discharged": n["proven"], "undecided": n["undecided"],
            "known_findings": len(hits),
            "configurations": getattr(mod, "CONFIGS", CONFIGS)[R.tier],
            "functions_analysed": len(R.functions),
            "counts": R.counts,
            "rules": sorted({o["rule"] for o in R.obs if o["rule"]}),
            "samples": [o["key"] for o in R.obs if o["status"] == "proven"][:: max(1, n["proven"] // 12)][:14],
            "undecided_list": [{"key": k, "why": w} for k, w in und[:60]],
            "functions_sample": sorted(R.functions)[:25],
        },
        "assumptions": sorted(R.assumptions) + list(getattr(mod, "ASSUME", [])),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    with open("%s/evidence/%s.json" % (HERE, R.prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proven, %d undecided, %d known findings, %d violations; %d functions; %.1f s" % (
        R.prop, len(R.obs), n["proven"], n["undecided"], len(hits), len(bad), len(R.functions), wall))
    for k, o in hits.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (R.prop, k, kn[k]["what"]))
    if os.environ.get("SA_VERBOSE"):
        for k, w in und:
            print("  undecided", k, w)
    if bad:
        path = "%s/build/reports/%s.txt" % (HERE, R.prop)
        with open(path, "w") as f:
            for k, o in bad.items():
                f.write("%s\n  rule: %s\n  where: %s\n  configuration: %s\n  %s\n\n" % (k, o["rule"], o["where"], o["cfg"], o["why"]))
        for k, o in list(bad.items())[:20]:
            print("  %s [%s] %s: %s" % (k, o["cfg"], o["where"], o["why"][:600]))
        print("VIOLATION property=%s replay=%s" % (R.prop, path))
        return 1
    return 0
