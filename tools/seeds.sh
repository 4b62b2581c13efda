#!/bin/bash
# Quick checks against every planted bug (in a scratch clone of /repo):
# seeds.sh [ID...]; prints CAUGHT or MISSED for each.
cd "$(dirname "$0")/.."
S=$(mktemp -d /tmp/seeds.XXXXXX)
git clone -q ${VERIF_REPO:-/repo} $S/r
for d in ${*:-$(ls seeded)}; do
  c=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $S/r apply $PWD/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  if VERIF_REPO=$S/r ./check.sh $c 2>&1 | grep -q "^VIOLATION property=$c"; then
    echo "CAUGHT $d $c"; else echo "MISSED $d $c"; fi
  git -C $S/r checkout -q -- .
done
rm -rf "$S"
