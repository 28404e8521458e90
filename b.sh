#!/bin/bash
# dev build
cd /verif/symvm && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable cargo build --offline --target-dir /tmp/symt 2>&1 | grep -E "^error|^  *--> src|Finished|^  *[|=]|^[0-9 ]+\|" | grep -A12 -E "^error|Finished" | head -${1:-60}
