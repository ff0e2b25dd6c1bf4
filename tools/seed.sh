#!/bin/bash
# tools/seed.sh ID [check...]  - validates a planted bug in /repo (applied and undone) and runs its checks
# against it. Only for development; no registered check uses it.
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CHECKS=${*:-$P}
W=$(mktemp -d /tmp/seedrun.XXXX); cp "$D"/* $W/; rm -f $W/*.diff $W/meta.json
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; rm -rf "$W"; }
trap undo EXIT
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; timeout 300 bash $W/demo.sh >/tmp/seed_demo0.log 2>&1; echo "demo unchanged: $?"
fi
git apply $D/patch.diff || exit 2
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/seed_build.log; exit 2; }
bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
python3 -c "
import json
o=json.load(open('/tmp/seed_o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('stable missing:',[t for t in b['stable'] if t not in o['passed']])"
timeout 300 bash $W/demo.sh >/tmp/seed_demo1.log 2>&1; echo "demo patched: $?"
fi
for c in $CHECKS; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c quick >/tmp/seed_check.log 2>&1; echo "check $c: exit $? $(grep -h VIOLATION /tmp/seed_check.log | head -1) $(grep -v VIOLATION /tmp/seed_check.log | tail -3 | cut -c1-300 | tr '\n' ' ')"); done
