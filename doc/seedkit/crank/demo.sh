#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 3
log=$(mktemp)
if ! CARGO_TARGET_DIR=/repo/target cargo build --offline -p crank > "$log" 2>&1; then tail -30 "$log"; rm -f "$log"; echo "did not build"; exit 3; fi
rm -f "$log"
export CRANK=/repo/target/debug/crank PYTHONDONTWRITEBYTECODE=1
timeout 200 python3 "$here/demo/scenario.py"
