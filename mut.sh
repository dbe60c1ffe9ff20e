#!/bin/bash
# mut.sh PATCH PROPERTY...: run checks against /repo with a patch applied, then undo it (development aid)
P=$(realpath "$1"); shift
git -C /repo apply "$P" || exit 9
for p in "$@"; do
  (cd /verif && timeout 900 ./check.sh "$p" quick > /tmp/mut.$p.log 2>&1; echo "$p rc=$? $(grep -c '^  ' /tmp/mut.$p.log) $(grep VIOLATION /tmp/mut.$p.log)"; grep -E "^  |ERROR" /tmp/mut.$p.log | head -3)
done
git -C /repo checkout -- .
