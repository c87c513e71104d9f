#!/bin/bash
# ./run.sh <PROPERTY>            run one check (tier: VERIF_TIER, seed: VERIF_SEED)
# ./run.sh replay <file.json>    re-run a reported counterexample on the real code
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
unset VIRTUAL_ENV
if [ "$1" = replay ]; then
  f=$(readlink -f "$2"); d=$(mktemp -d); cd "$d" || exit 3
  /opt/venv/bin/python -m lib.runner replay "$f"; rc=$?
  cd / ; rm -rf "$d"; exit $rc
fi
exec /opt/venv/bin/python -m lib.runner check "$1"
