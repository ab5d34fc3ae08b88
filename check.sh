#!/bin/bash
# check.sh <property> <quick|thorough>: builds the simulator against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
export CARGO_PROFILE_DEV_DEBUG=0
LOG=$(mktemp)
# cargo goes by time stamps; a copied tree may carry misleading ones, so go by content
SUM=$(cd /repo && find number constraint-solver expression riscv-elf riscv-types isa-utils syscalls autoprecompiles openvm-bus-interaction-handler \
  \( -name '*.rs' -o -name Cargo.toml \) -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
STAMP="$CARGO_TARGET_DIR/repo.sum"
if [ -d "$CARGO_TARGET_DIR" ] && [ "$(cat "$STAMP" 2>/dev/null)" != "$SUM" ]; then
  for p in powdr-number powdr-expression powdr-constraint-solver powdr-autoprecompiles powdr-openvm-bus-interaction-handler powdr-sim; do
    cargo clean --offline --manifest-path sim/Cargo.toml -p $p >/dev/null 2>&1
  done
fi
if ! cargo build --offline --manifest-path sim/Cargo.toml >"$LOG" 2>&1; then
  tail -60 "$LOG"; rm -f "$LOG"; echo "BUILD FAILED"; exit 2
fi
rm -f "$LOG"
echo "$SUM" >"$STAMP"
[ "$1" = --build-only ] && exit 0
exec "$CARGO_TARGET_DIR/debug/sim" check "$1" "${2:-quick}"
