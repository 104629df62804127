#!/bin/bash
# Builds the demonstration beside this file against /repo and runs it: 0 if the property is seen to hold.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
w=/tmp/elusiv-demo
mkdir -p /tmp/elusiv-demo
rm -rf /tmp/elusiv-demo/crate
mkdir -p /tmp/elusiv-demo/crate
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" /tmp/elusiv-demo/crate/
export CARGO_TARGET_DIR="${DEMO_TARGET:-/tmp/elusiv-demo/target}"
cd /tmp/elusiv-demo/crate && cargo build --offline > /tmp/elusiv-demo/build.log 2>&1 || { tail -30 /tmp/elusiv-demo/build.log; exit 2; }
"$CARGO_TARGET_DIR/debug/elusiv-demo"
r=$?
[ -n "$DEMO_TARGET" ] || rm -rf /tmp/elusiv-demo
exit $r
