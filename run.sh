#!/bin/bash
# run.sh build            build the harness (it compiles /repo's current sources)
# run.sh ID quick|thorough check one property; exit 0 held, 1 violation
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
log=$(mktemp)
cargo build --offline --manifest-path symvm/Cargo.toml --target-dir .target >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  # the math and rates checks call library functions by name; when only those names changed, the
  # other checks (which drive the deployed endpoints) still have to run
  cargo build --offline --manifest-path symvm/Cargo.toml --target-dir .target --no-default-features >>"$log" 2>&1
  rc=$?
fi
if [ $rc -ne 0 ]; then cat "$log"; rm -f "$log"; echo "harness does not build against /repo"; exit 2; fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec ./.target/debug/symvm check "$1" --tier "${2:-quick}" --root .
