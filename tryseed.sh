#!/bin/bash
# tryseed.sh ID [full] : applies the planted bug to /repo, runs demo (both ways) and its property's check, reverts
I=$1; D=/verif/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
if [ "$2" = full ]; then bash $D/demo.sh >/tmp/d0 2>&1; echo "demo clean: $? $(tail -1 /tmp/d0)"; fi
git apply $D/patch.diff || exit 1
if [ "$2" = full ]; then bash $D/demo.sh >/tmp/d1 2>&1; echo "demo patched: $? $(tail -1 /tmp/d1)"
bash /opt/vp/build.sh >/tmp/bl 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
g=lambda d: set(d.get('passed') or d.get('stable') or d.get('pass') or [])
print("tests lost:", sorted(g(b)-g(t))[:10], len(g(b)), len(g(t)))
P
fi
(cd /verif; python3 check.py $P; echo "check exit $?") 2>&1 | cut -c1-600
git -C /repo checkout -- .
