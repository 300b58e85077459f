#!/bin/bash
# seedtest.sh ID [notests]: demo on the clean tree, then with the patch: demo, check, (optionally) the stable tests
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
cd /repo; bash $D/demo.sh >/tmp/demo.out 2>&1; echo "$ID demo clean: $?"
git -C /repo apply $D/patch.diff || exit 1
bash $D/demo.sh >/tmp/demo.out 2>&1; echo "$ID demo patched: $? $(tail -1 /tmp/demo.out | cut -c1-150)"
(cd /verif && VERIF_SEED=${SEED:-1} timeout 900 python3 run.py $P > /tmp/seed_check.log 2>&1; echo "$ID check $P: $? $(grep -c '^VIOLATION' /tmp/seed_check.log) $(tail -1 /tmp/seed_check.log)")
if [ "$2" != "notests" ]; then bash /opt/vp/test.sh /tmp/seedtests.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/seedtests.json'))
print("  broken stable tests:",[x for x in b if x not in t['passed']])
P
fi
git -C /repo checkout -q -- .
