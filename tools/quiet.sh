#!/bin/bash
# quiet.sh [-s SEED] NAME...   applies a behaviour-preserving edit to /repo, runs the checks of the properties it may touch, undoes it
seed=1; [ "$1" = -s ] && { seed=$2; shift 2; }
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
mkdir -p "${RR:-/tmp/rr}/evidence"
trap 'git -C /repo checkout -q -- .' EXIT
for n in ${*:-$(cd /verif/quiet; ls | sed 's/\.diff$//')}; do
  git -C /repo checkout -q -- .; git -C /repo apply "/verif/quiet/$n.diff" || exit 2
  case $(git -C /repo diff --name-only | tr '\n' ' ') in
  *method_lib*) ps="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10" ;;
  *) ps="C07 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21" ;;
  esac
  for q in $ps; do
    out=$(VERIF_SEED=$seed timeout 900 /verif/check.sh "$q" --root ${RR:-/tmp/rr} ${RUNS:+--runs $RUNS} --jobs ${JOBS:-8} 2>&1); rc=$?
    [ $rc = 0 ] || echo "$n $q rc=$rc $(echo "$out" | grep -m1 '^violation' | cut -c1-300)"
  done
  echo "$n done"
done
