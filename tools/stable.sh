#!/bin/bash
# stable.sh: builds /repo and tells which stable tests do not pass
. /opt/vp/env.sh
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "build failed"
bash /opt/vp/test.sh /tmp/stable.$$.json >/dev/null 2>&1
python3 - /tmp/stable.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
print(len(b['stable']), "stable, failing:", [t for t in b['stable'] if t not in o['passed']])
P
rm -f /tmp/stable.$$.json
