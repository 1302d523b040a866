#!/bin/bash
# bug_sensitivity.sh "<bug ids>" "<properties>": plants bugs one at a time in /repo's working tree, runs quick checks, restores.
cd "$(dirname "$0")/.." || exit 2
for b in $1; do
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$PWD"/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  for p in ${2:-${b%%-*}}; do
    out=$(VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
    echo "$b $p rc=$rc $(echo "$out" | grep -v VIOLATION | tail -1 | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
