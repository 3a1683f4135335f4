#!/bin/bash
# Builds the monitors against /repo's working tree and runs one check.
# usage: check.sh <ID> [--seed N] [--thorough] [--case I]
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
ulimit -c 0
log=$(mktemp)
build() {
    cd harness && cargo build --release --offline --locked || return 1
    # C18 compares with a build in which all self-checks are on.
    [ "$1" != C18 ] || cargo build --profile checked --features slow --offline --locked
}
if ! (build "$1") >"$log" 2>&1; then
    tail -n 40 "$log"; rm -f "$log"
    echo "harness build failed"; exit 2
fi
rm -f "$log"
exec timeout -k 5 880 harness/target/release/lsmon check "$@"
