#!/bin/bash
# catch.sh ID [PROPERTY...]   applies a planted bug to /repo, runs checks on it (by default its own property's), undoes it
d=/verif/seeded/$1; id=$1; shift
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for q in $p; do
  s=$(date +%s)
  out=$(timeout 900 /verif/check.sh "$q" --tier quick --root ${RR:-/verif} 2>&1); rc=$?
  echo "$id $q rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 '^violation' | cut -c1-200)"
done
