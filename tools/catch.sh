#!/bin/bash
# catch.sh [ID ...]: run each planted bug's own check (quick) against a scratch copy of /repo with the bug applied.
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  w=$(mktemp -d /tmp/catchXXXXXX); cp -a /repo "$w/repo"
  prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if ! git -C "$w/repo" apply "/verif/seeded/$id/patch.diff"; then echo "$id DOES-NOT-APPLY"; rm -rf "$w"; continue; fi
  start=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick PYTHONDONTWRITEBYTECODE=1 DST_REPO="$w/repo" PYTHONPATH=/verif /opt/venv/bin/python -m dst.check $prop --tier quick 2>&1); rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s)-start ))s $(echo "$out" | grep -m1 VIOLATION)"
  rm -rf "$w"
done
