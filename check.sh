#!/bin/bash
# check.sh <property> [quick|thorough]: build the simulator against /repo's working tree, then search.
# Exit 0: no violation on everything explored. 1: VIOLATION line. Anything else: the check itself failed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$seed" in ''|*[!0-9]*) seed=1;; esac
seed=$((seed % 1000000007))
mkdir -p "$here/evidence" "$here/replay"
rm -f "$here/evidence/$prop.json"
export CARGO_NET_OFFLINE=true SIM_REPLAY_DIR="$here/replay"
out="$here/evidence/$prop.json"
case "$prop" in
  C13|C14) # thread-level simulator
    if [ "$tier" = thorough ]; then
      runs=50000000; secs=${VERIF_SECS:-1800}; export SIM_MIN_SECS=120
    else
      runs=400000; secs=${VERIF_SECS:-40}; export SIM_MIN_SECS=40
    fi
    "$here/tsim/run.sh" check "$prop" --runs "$runs" --secs "$secs" --seed "$seed" --workers "${VERIF_WORKERS:-8}" --tier "$tier" --out "$out"
    exit $?
    ;;
  *)
    log="$here/replay/build-$prop.log"
    "$here/sim/build.sh" "$log"
    declared=$?   # 0: everything, 10 / 11: some / all of the macro-declared jobs no longer compile
    case $declared in
      0|10|11) ;;
      *) tail -40 "$log" >&2; echo "build failed" >&2; exit 2;;
    esac
    bin="$here/sim/target/debug/ajsim"
    if [ "$tier" = thorough ]; then
      runs=5000000; secs=${VERIF_SECS:-1800}; export SIM_MIN_SECS=120
    else
      runs=200000; secs=${VERIF_SECS:-45}; export SIM_MIN_SECS=40
    fi
    "$bin" check "$prop" --runs "$runs" --secs "$secs" --seed "$seed" --workers "${VERIF_WORKERS:-8}" --tier "$tier" --out "$out"
    rc=$?
    if [ "$prop" = C19 ] && [ $declared != 0 ] && [ $rc = 0 ]; then
      # the library builds and so do all other users of it, but declared job functions do not
      echo "job functions declared with the macro no longer compile (see the log)"
      echo "VIOLATION property=C19 replay=$log.macros"
      rc=1
    fi
    exit $rc
    ;;
esac
