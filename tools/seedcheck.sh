#!/bin/bash
# seedcheck.sh ID...: run the property's quick check with the planted bug applied
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || continue
  (cd /verif && timeout 900 python3-vt check.py $p --tier quick > /tmp/seedcheck.$id.out 2>&1); r=$?
  git checkout -q -- .
  echo "$id ($p): exit $r: $(grep -c 'failed obligation' /tmp/seedcheck.$id.out) failed obligations; $(grep VIOLATION /tmp/seedcheck.$id.out)"
done
