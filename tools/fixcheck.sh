#!/bin/bash
# Undoes each repair of known_findings.txt in turn, and tells whether the check
# of its property reports it again. Arguments: commits (all by default).
source "$(dirname "$(realpath "$0")")/private.sh"
cd "$(dirname "$0")/.." || exit 2
grep '^fixed:' known_findings.txt | while read -r _ prop commit _; do
  prop=${prop#property=}
  [ $# -gt 0 ] && ! [[ " $* " == *" $commit "* ]] && continue
  if ! git -C /repo diff "$commit" "$commit~1" -- | git -C /repo apply 2>/dev/null; then
    if ! git -C /repo diff "$commit" "$commit~1" -- | git -C /repo apply -3 2>/dev/null; then
      git -C /repo reset -q --hard; echo "$commit $prop CANNOT-UNDO"; continue
    fi
  fi
  out=$(./run.sh "$prop" quick 2>&1); rc=$?
  git -C /repo reset -q --hard
  echo "$commit $prop rc=$rc $(echo "$out" | grep -c ^VIOLATION)"
done
