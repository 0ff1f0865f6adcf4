#!/bin/bash
# revert.sh: takes back each repair listed in known_findings.txt in turn and runs its property's quick check
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
grep "^fixed: property=${1:-}" /verif/known_findings.txt | while read -r _ p c rest; do
  p=${p#property=}
  git -C /repo checkout -q -- .
  git -C /repo show -R "$c" | git -C /repo apply - || { echo "$c $p does not come off alone"; continue; }
  out=$(timeout 900 /verif/check.sh "$p" --tier quick --root ${RR:-/verif} 2>&1); rc=$?
  echo "$c $p rc=$rc $(echo "$out" | grep -m1 '^violation' | cut -c1-160)"
done
