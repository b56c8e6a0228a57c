#!/bin/bash
# catch.sh SEED [CHECK...]: applies a planted bug to $R, runs the checks, undoes it.
R=${VERIF_REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift; d=$V/seeded/$id
[ -z "$(git -C $R status --porcelain)" ] || { echo "$R is not clean"; exit 1; }
git -C $R apply $d/patch.diff || exit 1
trap 'git -C $R checkout -q -- .' EXIT
for c in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  (cd $V; python3 check.py $c > /tmp/catch.out 2>&1; r=$?; tail -4 /tmp/catch.out | cut -c1-400; echo "$id -> $c rc=$r")
done
