#!/bin/bash
# build.sh LOG: builds the simulator. Exit 0: with all macro-declared jobs; 10: without those of mixed argument
# types; 11: without any (they do not compile against the current tree; their errors are in LOG.macros); else failed.
cd "$(dirname "$0")" || exit 2
log="${1:-/dev/null}"
export CARGO_NET_OFFLINE=true
cargo build --offline -p ajsim >"$log" 2>&1 && exit 0
[ "$log" = /dev/null ] || cp "$log" "$log.macros"
cargo build --offline -p ajsim --no-default-features --features macros >"$log" 2>&1 && exit 10
cargo build --offline -p ajsim --no-default-features >"$log" 2>&1 && exit 11
exit 2
