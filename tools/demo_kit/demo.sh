#!/bin/bash
# Plays a scenario on the blueprints of /repo, built natively; exit 0 if everything is as it should be.
set -e
H=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
tar -C "$W" -xzf "$H/kit.tgz"
export CARGO_TARGET_DIR=${DEMO_TARGET:-/repo/exchange/target}
(cd "$W/h" && cargo build --offline > "$W/log" 2>&1) || { tail -20 "$W/log"; exit 2; }
export HARNESS="$CARGO_TARGET_DIR/debug/surge-harness" PYTHONPATH="$W" PYTHONDONTWRITEBYTECODE=1
cd "$W" && python3 "$H/demo.py"
