#!/bin/bash
# packs the kit every demonstration carries: make.sh OUT.tgz
set -e
R=$(cd "$(dirname "$0")/../.." && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir "$W/h"; cp -a "$R"/harness/{Cargo.toml,Cargo.lock,src} "$W/h/"; ls -a "$R/harness" | grep -q '^\.cargo$' && cp -a "$R/harness/.cargo" "$W/h/" || true
cp -a "$R/vendor" "$W/vendor"; cp "$R/tools/demo_kit/d.py" "$W/"
python3 - "$W/h/Cargo.toml" <<'P'
import sys
s=open(sys.argv[1]).read(); a=s.index('[profile.dev]'); b=s.index('[workspace]')
open(sys.argv[1],'w').write(s[:a]+s[b:])
P
tar -C "$W" --sort=name --mtime=2026-01-01 --owner=0 --group=0 -czf "$1" .
