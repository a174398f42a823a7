#!/bin/bash
# Builds and runs main.rs (beside this file) against the crate in the current directory.
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(mktemp -d)
trap 'rm -rf -- "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
async_zip = { path = "$REPO", features = ["full"] }
futures-lite = "2"
tokio = { version = "1", features = ["full"] }
T
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_INCREMENTAL=0
cargo build --offline --quiet 2> "$D/build.log" || { tail -20 "$D/build.log"; exit 3; }
timeout 120 "$D/target/debug/demo"
