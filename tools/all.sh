#!/bin/sh
# all claimed quick checks on the current tree
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  python3-vt check.py $p --tier quick | cut -c1-200 | tail -3
done
