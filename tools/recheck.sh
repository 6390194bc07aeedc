#!/bin/bash
# applies planted bugs to /repo one at a time and runs the check of their property (or all checks with ALL=1): tools/recheck.sh [ID...]
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for i in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  if [ -n "$ALL" ]; then P=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); fi
  for p in $P; do
    o=$(./run.sh $p 2>&1); r=$?
    echo "$i $p rc=$r $(echo "$o" | grep -v 'ok: {' | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
