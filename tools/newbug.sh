#!/bin/bash
# newbug.sh ID PROPERTY: takes /repo's uncommitted diff as the patch of seeded bug ID, then undoes it. main.rs must already be in seeded/ID.
V="$(cd "$(dirname "$0")/.." && pwd)"; B="$V/seeded/$1"; mkdir -p "$B"
git -C /repo diff > "$B/patch.diff"; git -C /repo checkout -- .
[ -f "$B/main.rs" ] && { cp "$V/tools/demo_template.sh" "$B/demo.sh"; cp "$V/tools/demo_cargo.toml" "$B/Cargo.toml.in"; cp "$V/sim/Cargo.lock" "$B/Cargo.lock.in"; grep -q "^mod vm;" "$B/main.rs" && cp "$V/tools/demo_vm.rs" "$B/vm.rs"; }
wc -l "$B/patch.diff"
