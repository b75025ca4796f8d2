#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch applies, builds,
# the stable tests pass with it, the demo passes without it and fails with it.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
for id in "$@"; do
  D="$ROOT/seeded/$id"
  W=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$W/repo"; mkdir "$W/demo"; cp -a "$D"/. "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo"/meta.json
  cd "$W/repo" || exit 1
  ok=1
  timeout 300 bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1 || { echo "$id: the demo fails on the clean tree"; tail -20 "$W/clean.log"; ok=0; }
  git apply "$D/patch.diff" || { echo "$id: does not apply"; ok=0; }
  go build ./... || { echo "$id: does not build"; ok=0; }
  timeout 300 bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1 && { echo "$id: the demo passes with the bug"; ok=0; }
  if [ $ok = 1 ]; then
    sed -e "s#cd /repo#cd $W/repo#" -e "s#work=/opt/vp/testwork#work=$W/work#" /opt/vp/test.sh > "$W/test.sh"
    bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
    python3 - "$W/out.json" <<'P'
import json,sys
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
out=json.load(open(sys.argv[1]))
passed=set(out.get('passed') or [k for k,v in out.items() if v in ('pass',True)])
print('stable tests missing:', sorted(base-passed))
P
    echo "$id: confirmed unless stable tests failed; demo says: $(tail -2 "$W/bug.log" | head -c 300)"
  fi
  cd /; rm -rf "$W"
done
