#!/bin/bash
# all quick checks one after another (or those named)
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
  python3 tools/check.py $p > /tmp/check-$p.log 2>&1; echo "$p rc=$? $(tail -1 /tmp/check-$p.log | cut -c1-200)"
  grep -E "^(VIOLATION|NOTE)" /tmp/check-$p.log | cut -c1-300
done
