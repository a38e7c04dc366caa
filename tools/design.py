#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the property table, the checks' own docstrings and rules, and the planted bugs"""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
M = json.load(open(H + "/MANIFEST.json"))
tech = {c["property"]: c for c in M["checks"]}
na = {c["property"]: c["reason"] for c in M["not_applicable"]}
seeds = {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
res = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
out = [open(H + "/tools/design_head.md").read(), "## Properties\n\n"]
for p in P:
    i = p["id"]
    out.append("### %s %s\n\n" % (i, p["title"]))
    if i in na:
        out.append("Not decided by static analysis: %s\n\n" % na[i])
        continue
    src = open(H + "/checks/%s.py" % i.lower()).read()
    doc = " ".join(ast.get_docstring(ast.parse(src)).split())
    rules = []
    for r in re.findall(r'(?:ctx\.ob|\bob)\("([a-z][a-z0-9-]*)"', src):
        if r not in rules:
            rules.append(r)
    for r in re.findall(r'^[A-Z_]+ = "([a-z][a-z0-9]*(?:-[a-z0-9]+)+)"$', src, re.M):
        if r not in rules:
            rules.append(r)
    out.append("*Method*: %s. %s\n\n*Anchored in*: %s.\n\n*Obligations discharged*: %s.\n\n" % (
        tech[i]["technique"], doc, "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]), ", ".join(rules)))
    out.append("*Quantifies over*: %s. *Why tests cannot*: %s\n\n" % (p["quantifier"]["text"], p["why_tests_cant"]))
out.append("## Planted bugs\n\n| id | property | needs | reported by |\n|---|---|---|---|\n")
for i in sorted(seeds):
    for sid, m in seeds[i]:
        out.append("| %s | %s | %s | %s |\n" % (sid, i, m["needs"], res.get(sid, "?")))
out.append(open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("".join(out))
