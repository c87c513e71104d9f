#!/bin/bash
# tools/seedcopy.sh ID [PROP...]: judge seeded/ID in a scratch copy of /repo (never touches /repo): tests, demo on both trees, checks.
# SKIPTEST=1 leaves the tests out.
ID=$1; shift
D=${SEEDS:-/verif/seeded}/$ID
T=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$T"' EXIT
git -C /repo archive HEAD | tar -x -C "$T" && mkdir -p "$T/x" && rmdir "$T/x"
demo() { (cd "$T"; PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$T" PATH=/opt/venv/bin:$PATH timeout 300 bash $D/demo.sh > "$T.out" 2>&1); }
demo; rc=$?; [ $rc -eq 0 ] && echo "$ID demo passes on the unchanged tree" || { echo "$ID DEMO FAILS CLEAN"; tail -5 "$T.out"; exit 1; }
(cd "$T" && git apply --unsafe-paths --directory="$T" "$D/patch.diff" 2>/dev/null || patch -s -p1 < "$D/patch.diff") || { echo PATCH FAILS; exit 1; }
demo; rc=$?; [ $rc -ne 0 ] && echo "$ID demo fails with the change ($(tail -1 $T.out | cut -c1-150))" || echo "$ID DEMO PASSES WITH CHANGE"
if [ -z "$SKIPTEST" ]; then
  (cd "$T"; PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONPATH="$T:/opt/vp/pyplugin" OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider -p vp_isolate \
     -n ${J:-4} --timeout=300 --tb=line --continue-on-collection-errors tests examples > "$T.test" 2>&1); tail -4 "$T.test" | cut -c1-200
fi
rm -f "$T.out" "$T.test"
for p in "$@"; do (cd /verif; PEAK_REPO="$T" timeout 900 ./run.sh $p > "$T.chk" 2>&1; rc=$?; echo "$ID CHECK $p rc=$rc"; cut -c1-250 "$T.chk" | grep -v "also\|KNOWN" | head -4; rm -f "$T.chk"); done
