#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe="", na=None, technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, na=na, technique=technique, note=note))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
             "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
             "anchors": {"files": x["files"],
                         "state": [{"name": a, "meaning": b} for a, b in x["state"]],
                         "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                         "observe_at": [x["observe"]] if isinstance(x["observe"], str) else list(x["observe"]), "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa checks check.py",
     "checks": [], "not_applicable": []}
for x in P:
    if x["na"]:
        m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
    else:
        assert os.path.exists(os.path.join(HERE, "checks", x["id"].lower() + ".py")), x["id"]
        m["checks"].append({"property": x["id"], "quick_cmd": "python3 check.py %s --tier quick" % x["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
                            "technique": x["technique"], "level": "other", "level_note": x["note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
