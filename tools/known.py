import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in open(H + "/tools/fixes.txt"):
    pid, sha, what = l.strip().split(" ", 2)
    out.append("fixed: property=%s %s %s" % (pid, sha, what))
old = json.load(open(H + "/known_findings.json"))
json.dump({"findings": old["findings"], "fixed": out}, open(H + "/known_findings.json", "w"), indent=1)
