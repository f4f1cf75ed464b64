#!/bin/bash
# check.sh PROPERTY quick|thorough : rebuilds the canister from /repo's working tree, then searches seeds.
cd "$(dirname "$0")" || exit 2
prop=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
bash tools/build.sh || exit 2
# an interrupted earlier build can leave an image that does not load: build it once more from nothing
sim=build/target-sim/debug/minter_sim lib=/verif/build/target/debug/libcanister.so
if ! $sim probe --lib $lib >/dev/null 2>&1; then
    rm -rf /verif/build/target
    bash tools/build.sh || exit 2
    $sim probe --lib $lib || { echo "the canister's image does not load"; exit 2; }
fi
case $tier in
    thorough) budget="--runs 60000 --time 1500 --shrink 120" ;;
    *) budget="--runs 1800 --time 65 --shrink 25" ;;
esac
mkdir -p evidence build/replay
exec $sim check --prop "$prop" --tier "$tier" --seed "$seed" $budget \
    --workers 8 --lib $lib --known known_findings.txt \
    --out "evidence/$prop.json" --replay-dir /verif/build/replay
