#!/bin/bash
# fixed.sh PROP "commit subject" "what failed" : test, commit /repo's change as a fix, record it
set -e
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1 || true
python3 - <<P
import json
a=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in b if x not in a['passed']]
print('missing',bad)
assert not bad
P
git -C /repo commit -qam "fix: $2"
h=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$h" "$3" <<'P'
import json,os,sys
p='/verif/known_findings.json'
k=json.load(open(p)) if os.path.exists(p) else []
k.append(dict(property=sys.argv[1],status="fixed",commit=sys.argv[2],what=sys.argv[3],line="fixed: property=%s %s %s"%tuple(sys.argv[1:4])))
json.dump(k,open(p,'w'),indent=1)
P
git -C /repo log --oneline | head -1
