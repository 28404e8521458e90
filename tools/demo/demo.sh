#!/bin/bash
# builds the small program beside this file against /repo and runs it in the framework's debug VM
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here"/Cargo.toml "$here"/Cargo.lock "$here"/src "$work"/
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work" && RUSTFLAGS="-A warnings" cargo build --offline -q 2>"$work/log" || { cat "$work/log"; exit 3; }
"$CARGO_TARGET_DIR/debug/demo"
