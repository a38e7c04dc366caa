#!/usr/bin/env python3
"""mkseed.py spec.py [id...]: spec defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo="python source")}
writes seeded/<id>/ and runs the demo with and without the patch in a scratch copy of /repo"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds in this scenario
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''
for sid, s in m.SEEDS.items():
    if sys.argv[2:] and sid not in sys.argv[2:]:
        continue
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run("git -C /repo worktree list >/dev/null; git clone -q /repo %s/r" % w, shell=True, check=True)
        r = w + "/r"
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
        for f, old, new in s["edits"]:
            t = open(r + "/" + f).read()
            assert t.count(old) >= 1, (sid, old)
            t = t.replace(old, new, 1)
            open(r + "/" + f, "w").write(t)
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
        print(sid, "clean:", a.returncode, "patched:", b.returncode, "" if a.returncode == 0 and b.returncode else "**WRONG**")
        if a.returncode:
            print(a.stdout[-500:], a.stderr[-1500:])
        else:
            print("   ", (b.stderr.strip().splitlines() or ["?"])[-1])
        tests = s.get("tests")
        if tests:
            t = subprocess.run("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o addopts= %s 2>&1 | tail -4" % (r, tests), shell=True, cwd=r, capture_output=True, text=True)
            print("   ", t.stdout.strip().splitlines()[-1])
        e = subprocess.run([sys.executable, HERE + "/check.py", s["property"], "--root", r], capture_output=True, text=True, env=dict(os.environ, VERIF_EVIDENCE=w))
        print("    check", s["property"], e.returncode, [l[:150] for l in e.stdout.splitlines() if l.startswith("  at ")][:2])
    finally:
        shutil.rmtree(w)
