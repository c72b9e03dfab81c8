#!/bin/bash
# Runs the check of each planted bug (all, or those named) against a scratch copy with the patch applied.
V=$(cd "$(dirname "$0")/.." && pwd)
for d in ${@:-$(ls $V/seeded)}; do
  w=/tmp/catch_$d; rm -rf "$w"; mkdir -p "$w"
  git -C ${SEED_REPO:-/repo} archive HEAD | tar x -C "$w"
  (cd "$w" && git init -q . && git apply "$V/seeded/$d/patch.diff") || { echo "$d: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
  t0=$(date +%s)
  out=$(cd $V && DST_REPO=$w DST_NOEVIDENCE=1 VERIF_SEED=${VERIF_SEED:-1} timeout 900 /opt/venv/bin/python check.py $p --tier quick 2>&1); rc=$?
  echo "$d: $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 "fails:" | cut -c1-200)"
  rm -rf "$w"
done
