#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; builds a small crate against /repo in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf -- "$W"' EXIT
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0
mkdir "$W/src"
cp "$D"/*.rs "$W/src/"
cp "$D/Cargo.toml.in" "$W/Cargo.toml"
cp "$D/Cargo.lock" "$W/Cargo.lock"
cd "$W" && cargo run --offline -q --target-dir "$W/target"
