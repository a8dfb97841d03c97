#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async-io = { path = "$repo" }
futures-lite = "2"
[profile.dev]
debug = false
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || true
cd "$d"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
export RUSTFLAGS="${DEMO_RUSTFLAGS:-}"
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
set +e
timeout -k 5 60 "$d/target/debug/demo"
rc=$?
exit $rc
