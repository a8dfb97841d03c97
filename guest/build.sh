#!/bin/bash
# Builds the whole program (harnesses, /repo, dependencies, std) to one LLVM IR file.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${VTARGET:-/verif/.build/guest}"
export RUSTFLAGS="--cfg rustix_use_libc -C no-vectorize-loops -C no-vectorize-slp --emit=llvm-ir"
cargo build --release --offline "$@"
