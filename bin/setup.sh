#!/bin/bash
# Builds the conformance harness offline from the committed files.
set -e
cd "$(dirname "$0")/../harness"
export RUSTFLAGS="--cfg geos_verif" CARGO_TARGET_DIR="$(cd .. && pwd)/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline
