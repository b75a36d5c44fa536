#!/bin/bash
# trybug.sh BUG CHECK...: apply a planted bug to /repo, run checks, undo.
B=$1; shift
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
git apply /verif/seeded/$B/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for c in "$@"; do
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $c > /tmp/try_$B.$c.out 2>&1; r=$?
  echo "$B $c rc=$r $(( $(date +%s)-s ))s $(grep -h ^VIOLATION /tmp/try_$B.$c.out | head -2)"
done
