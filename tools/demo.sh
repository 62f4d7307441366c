#!/bin/bash
# Builds main.rs (beside this script) against the crates in the current directory and runs it: exit 0 iff it holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH="/root/.cargo/bin:$PATH"
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
{
  printf '[package]\nname = "mc"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  sed -n '/^bluejay/s#/repo#'"$repo"'#p; /^serde_json/p' "$here/deps.txt"
} > "$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline >"$d/log" 2>&1 || { tail -40 "$d/log"; exit 4; }
timeout 120 "$d/target/debug/mc"
