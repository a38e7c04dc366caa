#!/usr/bin/env python3
"""run every claimed check on every planted bug (in a copy) and record which report it"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
own = "--own" in sys.argv
def one(d):
    sid = os.path.basename(d)
    w = tempfile.mkdtemp(prefix="sr")
    try:
        subprocess.run("git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff" % (w, w, d), shell=True, check=True)
        hit = []
        me = json.load(open(d + "/meta.json"))["property"]
        for i in ([me] if own else ids):
            e = subprocess.run([sys.executable, H + "/check.py", i, "--root", w + "/r"], capture_output=True, text=True, env=dict(os.environ, VERIF_EVIDENCE=w))
            if e.returncode == 1:
                hit.append(i)
            elif e.returncode:
                hit.append(i + "!")
        return sid, ", ".join(hit) or "none"
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(7) as ex:
    r = dict(ex.map(one, sorted(glob.glob(H + "/seeded/s*"))))
for k, v in r.items():
    print(k, v)
f = H + "/tools/seed_results.json"
if own:
    r = dict(r, **{k: v for k, v in json.load(open(f)).items() if k in r})
if r:
    json.dump(r, open(H + "/tools/seed_results.json", "w"), indent=1, sort_keys=True)
