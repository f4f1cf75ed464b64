#!/bin/bash
# replay.sh FILE : rebuilds from /repo and runs exactly the execution in a replay file.
cd "$(dirname "$0")/.." || exit 2
bash tools/build.sh || exit 2
exec build/target-sim/debug/minter_sim replay --plan "$1" --lib build/target/debug/libcanister.so "${@:2}"
