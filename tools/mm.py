#!/usr/bin/env python3
"""mm.py spec.py name: make the mutated copy in /tmp/mm"""
import importlib.util, shutil, sys
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
mu = [x for x in m.MUTS if x[0] == sys.argv[2]][0]
shutil.rmtree("/tmp/mm", ignore_errors=True); shutil.copytree("/repo/malcolm", "/tmp/mm/malcolm")
for f, old, new in (mu[1] if isinstance(mu[1], list) else [mu[1:]]):
    s = open("/tmp/mm/" + f).read(); assert old in s; open("/tmp/mm/" + f, "w").write(s.replace(old, new, 1))
