#!/bin/bash
# Runs the scenario in crate/src/main.rs against the contracts in /repo (sources are only read).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_INCREMENTAL
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r "$D/crate" "$T/crate" && cd "$T/crate" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet || { echo "build failed"; exit 3; }
timeout 120 "$T/target/debug/demo"
