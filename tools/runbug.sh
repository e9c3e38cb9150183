#!/bin/bash
# runbug.sh NAME [CHECK...]: applies the planted change to /repo, runs the checks, undoes it.
d=/verif/seeded/$1; n=$1; shift
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for c in ${@:-$p}; do
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $c ${TIER:-quick} > /tmp/seed/run.log 2>&1; r=$?
    echo "$n $c: exit $r in $(( $(date +%s) - s )) s: $(grep -m1 VIOLATION /tmp/seed/run.log)"
    grep -m1 -A3 -i "sig\|what" /tmp/seed/run.log | head -5
done
