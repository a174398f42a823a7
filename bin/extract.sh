#!/bin/bash
# Type-checks /repo's working tree with the mirdump driver and writes the MIR dump to build/mir.json.
set -e
cd "$(dirname "$0")/.."
V=$PWD
mkdir -p build
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS
SYS=$(rustc +nightly --print sysroot)
DRV=$V/build/driver/debug/mirdump
exec 9>"$V/build/.lock" ; flock 9
if [ ! -x "$DRV" ] || [ driver/src/main.rs -nt "$DRV" ] || [ driver/src/json.rs -nt "$DRV" ]; then
  cargo +nightly build --offline --manifest-path driver/Cargo.toml --target-dir build/driver >build/driver.log 2>&1 || { cat build/driver.log; exit 3; }
fi
OUT=${MIRCFG_OUT:-$V/build/mir.json}
LOG=${MIRCFG_LOG:-$V/build/check.log}
# MIRCFG_FEATURES with MIRCFG_SELECT=1: one selection of features; otherwise everything
TGT=$V/build/target
if [ -n "$MIRCFG_SELECT" ]; then TGT=$V/build/target-features; SEL=(--no-default-features --features "$MIRCFG_FEATURES"); else SEL=(--all-features); fi
find "$TGT" -depth \( -path "*/build/async_zip/*" -o -path "*/.fingerprint/async_zip-*" \) -delete 2>/dev/null || true
rm -f "$OUT"
export LD_LIBRARY_PATH=$SYS/lib MIRDUMP_OUT=$OUT MIRDUMP_CRATE=async_zip MIRDUMP_SYSROOT=$SYS
RUSTC_WORKSPACE_WRAPPER=$DRV cargo +nightly check --offline --lib "${SEL[@]}" --manifest-path /repo/Cargo.toml --target-dir "$TGT" >"$LOG" 2>&1 || { tail -50 "$LOG"; exit 3; }
[ -s "$OUT" ] || { echo "no dump written"; exit 3; }
