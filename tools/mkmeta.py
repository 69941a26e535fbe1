#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json for the properties that have a check"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append((id, title, " ".join(statement.split()), over, " ".join(text.split()), " ".join(why.split()), files, mech, technique, " ".join(note.split()), na))


exec(open(HERE + "/tools/props.py").read())

with open(HERE + "/properties.jsonl", "w") as f:
    for id, title, st, over, text, why, files, mech, tech, note, na in P:
        assert len(title) <= 80, title
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for id, title, st, over, text, why, files, mech, tech, note, na in P:
    if na:
        m["not_applicable"].append({"property": id, "reason": " ".join(na.split())})
    else:
        m["checks"].append({"property": id, "quick_cmd": "./check.py %s quick" % id, "thorough_cmd": "./check.py %s thorough" % id, "technique": tech, "level": "other", "level_note": note})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
