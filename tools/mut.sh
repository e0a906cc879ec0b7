#!/bin/bash
# mut.sh PATCH "PROPS" [SECS] [RUNS]: run the simulator's checks on a scratch copy of /repo with PATCH applied
# (PATCH may be "revert:<commit>" or "none"). Works in /tmp/mut (or $MUTDIR), with the simulator of /verif (or $SRC); /repo and /verif are not touched.
set -u
M=${MUTDIR:-/tmp/mut}; mkdir -p $M
[ -d $M/repo ] || { git clone -q /repo $M/repo; cp /repo/Cargo.lock $M/repo/ 2>/dev/null; }
git -C $M/repo fetch -q /repo HEAD && git -C $M/repo reset -q --hard FETCH_HEAD
git -C $M/repo reset -q --hard; git -C $M/repo clean -qfd -e target -e Cargo.lock
mkdir -p $M/sim; (cd ${SRC:-/verif}/sim && tar c --exclude target --exclude 'target*' .) | (cd $M/sim && tar x)
sed -i "s#\"/repo/#\"$M/repo/#g" $M/sim/*/Cargo.toml
case "$1" in
 none) ;;
 revert:*) git -C $M/repo diff ${1#revert:} ${1#revert:}~1 | git -C $M/repo apply --3way || { echo "PATCH FAILED"; exit 3; }; git -C $M/repo reset -q ;;
 *) git -C $M/repo apply "$1" || { echo "PATCH FAILED"; exit 3; } ;;
esac
$M/sim/build.sh $M/build.log; r=$?; case $r in 0|10|11) ;; *) tail -20 $M/build.log; echo "BUILD FAILED"; exit 2;; esac
export SIM_REPLAY_DIR=$M/replay SIM_MIN_SECS=${MIN:-3}
for p in $2; do
  case $p in
   C13|C14) [ -x /verif/tsim/run.sh ] && { (cd ${SRC:-/verif}/tsim && tar c --exclude 'target*' .) | (mkdir -p $M/tsim && cd $M/tsim && tar x); sed -i "s#\"/repo/#\"$M/repo/#g" $M/tsim/*/Cargo.toml $M/tsim/Cargo.toml 2>/dev/null; $M/tsim/run.sh check $p --secs ${3:-45} --runs ${4:-200000} --seed ${SEED:-1} 2>&1 | cut -c1-220 | tail -4; } ;;
   *) $M/sim/target/debug/ajsim check $p --runs ${4:-200000} --secs ${3:-45} --seed ${SEED:-1} --workers 8 2>&1 | cut -c1-220 | grep -v ^minimised | tail -3 ;;
  esac
done
