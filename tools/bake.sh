#!/bin/bash
# Rebuilds the harness until the addresses compiled into the blueprints are those of the deployment.
# Usage: bake.sh ; rewrites /verif/harness/.cargo/config.toml only when the addresses changed.
. /opt/vp/env.sh
cd /verif/harness; export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/harness/target}
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
  cargo build --offline -q 2>/tmp/bake.err || { cat /tmp/bake.err; exit 1; }
  $CARGO_TARGET_DIR/debug/surge-harness addresses > /tmp/bake.out 2>/tmp/bake.err2; rc=$?
  echo "iter $i rc=$rc $(wc -l < /tmp/bake.out) addresses"; tail -2 /tmp/bake.err2
  [ $rc = 0 ] && exit 0
  { echo "[build]"; echo "incremental = true"; echo "[env]"; sed -E 's/^([A-Z_]+)=(.*)$/\1 = { value = "\2", force = true }/' /tmp/bake.out; } > .cargo/config.toml
  cargo clean --offline -q -p common
done
exit 1
