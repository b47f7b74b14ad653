#!/bin/bash
# trybug.sh SEED CHECK...: applies the seed to /repo, runs the quick checks, undoes it.
s=$1; shift
git -C /repo diff --quiet || { echo "dirty /repo"; exit 1; }
git -C /repo apply /verif/seeded/$s/patch.diff || exit 1
for c in "$@"; do timeout 900 bash /verif/run.sh $c ${TIER:-quick} >/tmp/trybug.out 2>&1; echo "$s $c exit=$? $(grep -c ^VIOLATION /tmp/trybug.out) $(grep -v KNOWN /tmp/trybug.out|head -1|cut -c1-200)"; done
git -C /repo checkout -q -- .
