#!/bin/bash
# checks/run.sh BIN PROPERTY      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Rebuilds the simulator against /repo's working tree and runs one check.
# Exit 0: held on everything explored. 1: VIOLATION printed. Other: error.
cd "$(dirname "$0")/.." || exit 3
. checks/env.sh || exit 3
bin=$1 prop=$2
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac
checks/build.sh release "$bin" || exit 3
sim/target/release/"$bin" check "$prop" --tier "$tier" --seed "$seed"
rc=$?
if [ $rc -eq 0 ] && [ "$tier" = thorough ]; then
    # Once more against the library as shipped: no debug assertions, wrapping
    # arithmetic, unchecked accesses. (The evidence file keeps the main pass.)
    checks/build.sh shipped "$bin" || exit 3
    cp evidence/"$prop".json evidence/."$prop".main
    sim/target/shipped/"$bin" check "$prop" --tier "$tier" --seed $((seed + 1000000))
    rc=$?
    mv evidence/."$prop".main evidence/"$prop".json
fi
exit $rc
