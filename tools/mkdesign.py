#!/usr/bin/env python3
"""writes DESIGN.md from tools/design/, tools/props.py, the check modules, known-findings.json and seeded/*/meta.json"""
import ast
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(*a, na=None):
    P.append((a, na))


exec(open(H + "/tools/props.py").read())
out = [open(H + "/tools/design/head.md").read()]
for a, na in P:
    id, title, st, over, text, why, files, mech, tech, note = a
    J = lambda s: " ".join(s.split())
    out.append("### %s. %s\n\n%s\n\n*For* %s. *Tests cannot settle it because* %s.\n\n" % (id, title, J(st), J(text), J(why)))
    if na:
        out.append("**Not applicable:** %s\n\n" % J(na))
        continue
    m = ast.parse(open("%s/sa/props/%s.py" % (H, id.lower())).read())
    d = {}
    for n in m.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLAIN", "ASSUME"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append("**Decided by** %s: %s\n\n" % (J(tech).replace("static analysis: ", ""), J(note)))
    if d.get("EXPLAIN"):
        out.append("What is analysed: %s\n\n" % J(d["EXPLAIN"]))
    if d.get("ASSUME"):
        out.append("Assumes: %s.\n\n" % "; ".join(d["ASSUME"]))
t = open(H + "/tools/design/tail.md").read()
k = json.load(open(H + "/known-findings.json"))
t = t.replace("@KNOWN@", "\n".join("* %s `%s`: %s" % (e["property"], e["key"], e["what"]) for e in k if e["status"] == "known"))
t = t.replace("@FIXED@", "\n".join("* %s %s: %s" % (e["property"], e["commit"], e["what"]) for e in k if e["status"] == "fixed"))
rows = ["| change | property | caught by | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught_by", "?"), " ".join(m["what_it_breaks"].split())))
t = t.replace("@SEEDS@", "\n".join(rows))
out.append(t)
open(H + "/DESIGN.md", "w").write("".join(out))
