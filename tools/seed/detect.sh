#!/bin/bash
# detect.sh [id...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug applied.
cd /verif/seeded || exit 2
[ $# -gt 0 ] || set -- *
for b in "$@"; do
  w=$(mktemp -d /tmp/det.XXXXXX)
  git -C /repo archive HEAD | tar x -C "$w"
  (cd "$w" && git init -q . && git apply "/verif/seeded/$b/patch.diff") || echo "APPLY $b"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  s=$(date +%s)
  o=$(MBE_REPO=$w python3 /verif/run.py "${CHECK:-$p}" --tier quick 2>&1); rc=$?
  v=$(grep -m1 '^VIOLATION' <<<"$o")
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "CAUGHT $b ${CHECK:-$p} $(( $(date +%s)-s ))s $v"; else echo "MISSED $b ${CHECK:-$p} rc=$rc $(( $(date +%s)-s ))s $(tail -3 <<<"$o")"; fi
  rm -rf "$w"
done
