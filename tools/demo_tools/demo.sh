#!/bin/bash
# Builds the tools from /repo's working tree and runs them on files in a scratch folder.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/ebidemo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/crate" "$t/work"
cp "$here/crate/"* "$t/crate/"
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
(cd "$t/crate" && cargo build -q --offline)
cd "$t/work"
timeout 120 python3 "$here/check.py" "$t/target/debug"
