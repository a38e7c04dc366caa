#!/usr/bin/env python3
"""Decide one property from /repo's current source.

usage: check.py Cxx [--tier quick|thorough] [--root /repo]
exit 0: every obligation holds (known findings are printed); 1: VIOLATION; 2: the checker lost its subject
"""
import argparse
import gc
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.project import Project  # noqa: E402
from sa.report import Ctx  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    sys.setrecursionlimit(20000)
    gc.disable()
    mod = importlib.import_module("checks." + a.property.lower())
    project = Project(a.root)
    ctx = Ctx(a.property, tier, project)
    crash = None
    try:
        mod.run(ctx)
    except Exception:
        # what was found before the checker lost its way still counts
        crash = traceback.format_exc()
    lost = [(r, n, ctx.rules.get(r, [0])[0]) for r, n in ctx.floors.items() if ctx.rules.get(r, [0])[0] < n]
    ev = ctx.evidence(getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()))
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, a.property + ".json")
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = {k["key"]: k for k in json.load(f)["findings"] if k["property"] == a.property}
    new = {k: v for k, v in ctx.violations.items() if k not in known}
    ev["violations"] = len(new)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d modules parsed, %d functions followed, %d paths, %.1fs" % (
        a.property, tier, len(project.modules), len(ctx.functions), ctx.paths, ev["wall_s"]))
    for r, (n, bad) in sorted(ctx.rules.items()):
        print("  rule %-45s obligations %4d  violated %d" % (r, n, bad))
    for k, v in sorted(ctx.violations.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, known[k]["what"]))
    if new:
        for k, v in sorted(new.items()):
            print("  at %s: [%s] %s: %s" % (v["where"], v["rule"], v["construct"], v["message"]))
            for line in v["path"][:40]:
                print("      " + line)
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if crash:
        print("ERROR: the checker lost its way\n" + crash)
        return 2
    if lost:
        for r, n, got in lost:
            print("ERROR: rule %s applied %d times, expected at least %d: the checker lost its subject" % (r, got, n))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
