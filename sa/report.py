"""Obligation bookkeeping shared by all checks"""
import json
import os
import time


class Ctx:
    def __init__(self, prop, tier, project, seed=1):
        self.prop = prop
        self.tier = tier
        self.p = project
        self.thorough = tier == "thorough"
        self.rules = {}          # rule -> [obligations, violated]
        self.violations = {}     # key -> dict
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.floors = {}
        self.t0 = time.time()

    def ob(self, rule, construct, ok, msg="", loc="", path=None):
        """one obligation of `rule` about `construct`; ok False -> violation keyed by rule + construct"""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if not ok:
            r[1] += 1
            key = "%s|%s" % (rule, construct)
            if key not in self.violations:
                self.violations[key] = {"rule": rule, "construct": construct, "message": msg, "where": loc,
                                        "path": path or []}
        return ok

    def floor(self, rule, n):
        """the rule must have applied at least n times, else the checker lost its subject"""
        self.floors[rule] = n

    def used(self, interp, traces=()):
        self.functions |= set(interp.stats["inlined"])
        self.paths += len(traces)

    def note(self, s):
        self.notes.append(s)
        print("  note:", s)

    def evidence(self, explanation, level="other"):
        return {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": level,
            "coverage": {
                "explanation": explanation,
                "technique": "static analysis of the Python AST (no analysed code is executed)",
                "modules_parsed": len(self.p.modules),
                "obligations": sum(r[0] for r in self.rules.values()),
                "obligations_by_rule": {k: v[0] for k, v in sorted(self.rules.items())},
                "paths": self.paths,
                "functions_analysed": sorted(self.functions),
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
            "violation_details": [dict(v, key=k) for k, v in sorted(self.violations.items())],
        }
