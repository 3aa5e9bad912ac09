#!/bin/bash
# Builds main.rs beside this script against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
w="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'find "$w" -delete' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ngeos-rs = { path = "%s" }\n' "$repo" > "$w/Cargo.toml"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="--cfg geos_verif -Awarnings" CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo run --offline -q
rc=$?
exit $rc
