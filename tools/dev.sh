# Development helper: rebuild both sides (not used by the checks).
. /verif/tools/env.sh
python3 /verif/tools/sync.py && (cd /verif/build/ws/canister && cargo build --offline 2>&1 | grep -E "^error" -A7)
(cd /verif/sim/harness && cargo --offline build --target-dir /verif/build/target-sim 2>&1 | grep -E "^error" -A9)
true
