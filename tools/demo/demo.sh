#!/bin/bash
# Builds main.rs against /repo's working tree (third-party coders stubbed) and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/ebidemo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -r "$here/crate" "$t/crate"
mkdir -p "$t/crate/demo/src"
cp "$here/main.rs" "$t/crate/demo/src/main.rs"
cd "$t/crate/demo"
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build -q --offline
timeout 120 "$t/target/debug/demo"
