#!/bin/bash
# Builds the small program beside this script against /repo and runs it: exit 0 iff the property held.
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-10-01 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR="$W/target" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS
mkdir -p "$W/src"
cp "$D"/*.rs "$W/src/"
cp "$D/Cargo.toml.in" "$W/Cargo.toml"
cp "$D/Cargo.lock.in" "$W/Cargo.lock"
cd "$W" || exit 2
cargo build --offline -q >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 2; }
exec timeout 200 "$W/target/debug/demo"
