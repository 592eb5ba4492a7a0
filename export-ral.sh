#!/bin/bash
# Export the monomorphic MIR of the example computer (examples/ral1243).
# usage: export-ral.sh OUT [release]
set -e
cd "$(dirname "$0")"
OUT=${1:-work/prog-ral.bin}
case "$OUT" in /*) ;; *) OUT="$PWD/$OUT";; esac
mkdir -p "$(dirname "$OUT")"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib:$LD_LIBRARY_PATH"
export ZDRIVER_OUT="$OUT.tmp"
export RUSTC_WORKSPACE_WRAPPER="$PWD/engine/target/release/zdriver"
if [ "$2" = release ]; then
  PROF="-Coverflow-checks=off -Cdebug-assertions=off"; T=rtarget-rel
else
  PROF="-Coverflow-checks=on -Cdebug-assertions=on"; T=rtarget
fi
export CARGO_TARGET_DIR="$PWD/work/$T"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 $PROF -Zub-checks=no --cap-lints=allow"
rm -f "$OUT.tmp" "$OUT"
cd harness-ral
cargo +nightly clean --offline -q -p z80emu -p ral1243 -p zharness 2>/dev/null || true
cargo +nightly check --offline -q
mv "$OUT.tmp" "$OUT"
