#!/bin/bash
# Exit 0: regalloc2 handles the cases beside this file correctly. Nonzero: it does not.
set -u
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
src=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp -r "$src/Cargo.toml" "$src/Cargo.lock" "$src/src" "$work/" || exit 2
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build -q --offline 2>"$work/log" || { tail -20 "$work/log"; exit 2; }
timeout 120 "$work/target/debug/demo" "$src"/*.txt
