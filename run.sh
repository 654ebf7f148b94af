#!/bin/bash
# Builds the monitors against /repo's working tree and runs a check.
#   run.sh check P01 quick|thorough     run.sh case P01 quick 123
cd "$(dirname "$0")" || exit 2
export PDDLMON_DIR="$PWD" PDDLMON_SRC=/repo/src CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p target
log=$(mktemp target/build.XXXXXX)
if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
    grep -E -A12 '^error' "$log" | head -60
    echo "INCONCLUSIVE: the harness does not build against /repo"
    rm -f "$PWD/$log"
    exit 2
fi
rm -f "$PWD/$log"
exec target/release/pddlmon "$@"
