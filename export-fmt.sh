#!/bin/bash
# Export the monomorphic MIR of the formatting and serialization entries; the
# core library is compiled along so that its formatting code is visible.
# usage: export-fmt.sh OUT
set -e
cd "$(dirname "$0")"
OUT=${1:-work/prog-fmt.bin}
case "$OUT" in /*) ;; *) OUT="$PWD/$OUT";; esac
mkdir -p "$(dirname "$OUT")"
SYS=$(rustc +nightly --print sysroot)
HOST=$(rustc +nightly -vV | sed -n 's/^host: //p')
export LD_LIBRARY_PATH="$SYS/lib:$LD_LIBRARY_PATH"
export ZDRIVER_OUT="$OUT.tmp"
export RUSTC_WORKSPACE_WRAPPER="$PWD/engine/target/release/zdriver"
export CARGO_TARGET_DIR="$PWD/work/ftarget"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Zub-checks=no --cap-lints=allow"
rm -f "$OUT.tmp" "$OUT"
cd harness-fmt
cargo +nightly clean --offline -q -p z80emu -p zharness --target "$HOST" 2>/dev/null || true
cargo +nightly check --offline -q -Zbuild-std=core --target "$HOST"
mv "$OUT.tmp" "$OUT"
