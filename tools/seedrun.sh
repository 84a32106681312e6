#!/bin/bash
# seedrun.sh ID [PROPERTY...]: runs checks against /repo with a planted bug.
. /opt/vp/env.sh
id=$1; shift
s=/verif/seeded/$id
props="$*"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$s/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  st=$(date +%s)
  out=$(bash /verif/check.sh "$p" 2>&1); rc=$?
  echo "$id $p exit=$rc $(($(date +%s)-st))s $(echo "$out" | grep -m1 -E '^violation|INCONCL|check error' | cut -c1-300)"
done
