#!/bin/bash
# Reverse one repair of /repo at a time in the working tree and run checks on it.
# usage: revert_sensitivity.sh "<commit> ..." "<property> ..."
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
for c in $1; do
  if ! git -C /repo diff "$c" "$c~1" | git -C /repo apply -; then echo "$c: does not reverse cleanly"; git -C /repo checkout -q -- .; continue; fi
  for p in $2; do
    r=$(python3 check.py "$p" 2>&1); e=$?
    echo "$c $p exit=$e $(echo "$r" | grep -v '^VIOLATION' | tail -1 | cut -c1-170)"
  done
  git -C /repo checkout -q -- .
done
