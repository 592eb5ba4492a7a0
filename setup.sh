#!/bin/bash
# Build the compiler driver and the analyser (offline).
set -e
cd "$(dirname "$0")/engine"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib:$LD_LIBRARY_PATH"
cargo +nightly build --offline --release -q -p zdriver
cargo +nightly build --offline --release -q -p zcheck
# the core library with its MIR, for the formatting entries
cd ..
./export-fmt.sh work/prog-fmt.bin || true
./export-ral.sh work/prog-ral.bin || true
