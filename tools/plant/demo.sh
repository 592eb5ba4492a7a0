#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE"/*.rs "$T/src/"
cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
z80emu = { path = "$REPO" }
DEPS
[workspace]
EOT
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
timeout 250 cargo +stable run --offline -q --manifest-path "$T/Cargo.toml"
