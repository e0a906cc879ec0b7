#!/bin/bash
# Builds the thread-level simulator against the tree its Cargo.toml names and runs it with the given arguments.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1
log="$here/build.log"
( cd "$here" && RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" cargo build --offline --target x86_64-unknown-linux-gnu >"$log" 2>&1 ) || { tail -40 "$log" >&2; echo "build failed" >&2; exit 2; }
[ "${1:-}" = build ] && exit 0
exec "$here/target/x86_64-unknown-linux-gnu/debug/tsim" "$@"
