#!/bin/bash
# seedtest.sh ID...: the repository's whole test suite on a scratch copy with each planted change (run nothing else meanwhile)
for id in "$@"; do
  w=$(mktemp -d /tmp/seedtest.XXXXXX)
  cp -a /repo "$w/r"
  git -C "$w/r" apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  sed "s#^cd /repo#cd $w/r#" /opt/vp/test.sh > "$w/test.sh"
  PYTHONPATH="$w/r" bash "$w/test.sh" "$w/out.json" > "$w/log" 2>&1
  python3 - "$id" "$w/out.json" <<'P'
import json, sys
o = json.load(open(sys.argv[2])); b = json.load(open("/opt/vp/BASELINE.json"))
def passed(d):
    for k in ("passed", "pass", "stable", "tests"):
        if k in d:
            return set(d[k])
    raise SystemExit("keys %s" % list(d))
m = sorted(passed(b) - passed(o))
print(sys.argv[1], "ok" if not m else "**TESTS CATCH** %s" % m[:5])
P
  rm -rf "$w"
done
