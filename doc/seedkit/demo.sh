#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo" || exit 3
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
cd "$work/demo" || exit 3
if ! cargo build --offline $(cat features 2>/dev/null) > "$work/log" 2>&1; then tail -30 "$work/log"; echo "demo did not build"; exit 3; fi
timeout 120 "$work/target/debug/$(cat bin)"
