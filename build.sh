#!/bin/bash
# Builds the model checker against /repo's current working tree, offline. Output: $MC_TARGET (default /verif/target).
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$(dirname "$0")/harness" || exit 2
export CARGO_TARGET_DIR="${MC_TARGET:-$(cd .. && pwd)/target}"
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -80 >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
