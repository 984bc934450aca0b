#!/bin/bash
# usage: plant.sh <id>...: confirms planted bugs (developer tool, not a check):
# the patch applies, builds, passes the stable tests, and the demonstration
# passes without it and fails with it.
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
rc=0
for id in "$@"; do
  d="$here/seeded/$id"
  w="$(mktemp -d /tmp/plant.XXXXXX)"
  cp -a /repo "$w/repo"; mkdir "$w/demo"; cp "$d"/* "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
  cd "$w/repo" || exit 1
  bash "$w/demo/demo.sh" > "$w/before" 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$id: patch does not apply"; rc=1; continue; fi
  b=0; go build ./... || b=1
  go test -json -vet=off -count=1 -timeout 10m ./... > "$w/log" 2>/dev/null
  python3 /opt/vp/results.py "$w/out.json" gojson:"$w/log" >/dev/null
  missing=$(python3 - "$w/out.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(sys.argv[1]))
def passed(x):
    if isinstance(x,dict):
        if "stable" in x: return set(x["stable"])
        if "passed" in x: return set(x["passed"])
        for k in ('passed','stable','pass','tests'):
            if k in x: return passed(x[k])
        return {k for k,v in x.items() if v in ('pass','passed',True)}
    return set(x)
m=sorted(passed(base)-passed(out))
print(len(m), m[:3], len(passed(base)))
P
)
  bash "$w/demo/demo.sh" > "$w/after" 2>&1; c=$?
  echo "$id: demo before=$a after=$c build=$b missing=$missing"
  [ $a = 0 ] || tail -5 "$w/before"
  tail -3 "$w/after"
  cd /; rm -rf "$w"
done
exit $rc
