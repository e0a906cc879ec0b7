#!/bin/bash
# Builds the simulators from the committed files (every check also does that for itself).
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
mkdir -p replay
./sim/build.sh "$PWD/replay/build-setup.log"
case $? in 0|10|11) ;; *) tail -40 "$PWD/replay/build-setup.log"; exit 1;; esac
./tsim/run.sh build
