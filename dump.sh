#!/bin/bash
# usage: dump.sh OUT.json [REPO]   -- build the driver if needed and dump the MIR of REPO's library crate
set -e
V=$(cd "$(dirname "$0")" && pwd); OUT=$(realpath -m "$1"); R=${2:-/repo}
export CARGO_NET_OFFLINE=true; unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
DRV=$V/target/driver/debug/mirdump
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && RUSTFLAGS= cargo +nightly build --offline --quiet --target-dir "$V/target/driver" 1>&2)
fi
TD=${MIR_TARGET:-$V/target/mir}
rm -rf "$TD"/debug/build/redstone-ml "$TD"/debug/.fingerprint/redstone-ml-* "$TD"/debug/incremental
rm -f "$OUT"
export RUSTFLAGS="-Ctarget-cpu=x86-64-v3 -Awarnings"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
export RUSTC_WORKSPACE_WRAPPER="$DRV" MIRDUMP_CRATE=redstone_ml MIRDUMP_OUT="$OUT"
LOG=$(mktemp); trap 'rm -f "$LOG"' EXIT
(cd "$R" && cargo +nightly check --lib --offline --quiet --target-dir "$TD" >"$LOG" 2>&1) || { cat "$LOG" >&2; exit 1; }
test -s "$OUT"
