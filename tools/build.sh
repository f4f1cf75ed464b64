#!/bin/bash
# Builds the canister from /repo's working tree and the simulator, offline.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
mkdir -p build
python3 tools/sync.py || exit 2
(cd build/ws/canister && cargo build --offline > ../../canister.log 2>&1) &
a=$!
(cd sim/harness && cargo build --offline --locked --target-dir ../../build/target-sim > ../../build/sim.log 2>&1) &
b=$!
ra=0 rb=0
wait $a || ra=$?
wait $b || rb=$?
if [ $ra != 0 ]; then echo "the canister does not build:"; grep -E '^error' -A8 build/canister.log | head -60; exit 2; fi
if [ $rb != 0 ]; then echo "the simulator does not build:"; grep -E '^error' -A8 build/sim.log | head -60; exit 2; fi
exit 0
