#!/bin/bash
# tools/tryseed.sh ID PROP...   with a change present in /repo's working tree: record it as seeded/ID/patch.diff, confirm that it
# builds, passes the stable tests and fails its demo, run the checks, and restore /repo. (SKIPTEST=1: tests were run before)
ID=$1; shift
D=/verif/seeded/$ID
mkdir -p $D
if git -C /repo diff --quiet; then git -C /repo apply $D/patch.diff || exit 3; else git -C /repo diff > $D/patch.diff; fi
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>/tmp/build.err || { echo BUILD FAILS; cat /tmp/build.err; exit 1; }
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
base=b['stable']
miss=[t for t in base if t not in set(r['passed'])]
print('TESTS', 'ok' if not miss else 'BROKEN %d %s' % (len(miss), miss[:5]))
P
fi
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; rc=$?; [ $rc -ne 0 ] && echo "DEMO fails with patch: ok" || echo "DEMO PASSES WITH PATCH"; tail -2 /tmp/demo.out)
for p in "$@"; do (cd /verif; /usr/bin/time -f %es timeout 900 ./run.sh $p > /tmp/chk.out 2>&1; rc=$?; echo "CHECK $p rc=$rc"; cut -c1-250 /tmp/chk.out | grep -v "also\|KNOWN" | head -6); done
git -C /repo checkout -- .
trap - EXIT
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; rc=$?; [ $rc -eq 0 ] && echo "DEMO passes clean: ok" || { echo "DEMO FAILS CLEAN"; tail -5 /tmp/demo.out; })
git -C /repo status --short
