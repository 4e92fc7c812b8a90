#!/bin/bash
# Applies a planted bug to a scratch copy of /repo, runs the check of its property (quick) on it, removes the copy: try.sh ID...
for id in "$@"; do
  d=/verif/seeded/$id
  c=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo/. "$c"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$c" apply "$d/patch.diff" || continue
  s=$(date +%s)
  out=$(cd /verif && VERIF_REPO=$c VERIF_TIER=quick python3 check.py "$p" quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION || echo "$out" | tail -1 | cut -c1-200)"
  rm -rf "$c"
done
