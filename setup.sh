#!/bin/bash
# Builds the monitors once, offline (the checks rebuild what they need by themselves).
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
cd harness && cargo build --release --offline --locked
