#!/bin/bash
# tools/caught.sh [-p PROP] ID...   apply each planted bug to the tree beside this one, run its property's quick check, undo it
cd "$(dirname "$0")/.." || exit 2
V=$PWD; R=$PWD/../repo
P=; if [ "$1" = -p ]; then P=$2; shift 2; fi
for id in "$@"; do
    p=${P:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
    git -C $R apply $V/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
    VERIF_SEED=${VERIF_SEED:-1} ./check.sh $p quick >$V/target/caught.$id 2>&1; rc=$?
    git -C $R checkout -q -- .
    echo "$id ($p): rc=$rc $(grep -c ^VIOLATION $V/target/caught.$id) violation(s)  $(grep -m1 '^case' $V/target/caught.$id | cut -c1-120)"
done
