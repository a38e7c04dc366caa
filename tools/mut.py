#!/usr/bin/env python3
"""mut.py PROP[,PROP] spec.py : spec defines MUTS = [(name, file, old, new)] ; run the checks on each mutated copy.
Expectation marker: name starting with '=' must stay quiet (refactoring), others must be reported."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
props = sys.argv[1].split(",")
spec = importlib.util.spec_from_file_location("s", sys.argv[2]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[3:] 
def one(mu):
    name, edits = mu[0], (mu[1] if isinstance(mu[1], list) else mu[2] if isinstance(mu[2], list) else [mu[1:]])
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.environ.get("MUTROOT", "/repo") + "/malcolm", d + "/malcolm")
        for f, old, new in edits:
            pth = d + "/" + f
            s = open(pth).read()
            if s.count(old) < 1:
                return name, "BADSPEC %s" % old[:60], ""
            s = s.replace(old, new, 1)
            compile(s, f, "exec")
            open(pth, "w").write(s)
        res = []
        out = ""
        for pr in props:
            r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), pr, "--root", d], capture_output=True, text=True, env=dict(os.environ, VERIF_EVIDENCE=d))
            res.append("%s:%d" % (pr, r.returncode))
            out += "\n".join(l[:220] for l in r.stdout.splitlines() if l.startswith("  at ") or "ERROR" in l) + r.stderr[-600:]
        hit = any(x.endswith(":1") for x in res)
        bad = any(x.endswith(":2") for x in res)
        want = not name.startswith("=")
        return name, ("ok " if hit == want and not bad else "**WRONG** ") + " ".join(res), out
    finally:
        shutil.rmtree(d)
muts = [x for x in m.MUTS if not only or any(o in x[0] for o in only)]
with ThreadPoolExecutor(8) as ex:
    for name, r, out in ex.map(one, muts):
        print("%-50s %s" % (name, r))
        if out and ("WRONG" in r or "-v" in os.environ.get("V", "")):
            print("    " + out.replace("\n", "\n    "))
