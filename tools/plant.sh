#!/bin/bash
# tries planted changes in private overlays of /repo and /verif: plant.sh DIR [check ids...]; prints one line
# (demo before, build, stable tests, demo after, checks)
D=$(realpath "$1"); shift; ID=$(basename "$D"); W=/tmp/wk/$ID; rm -rf "$W"; mkdir -p "$W"
PIDS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
export D ID W PIDS
unshare -Urm bash -c '
lay() { mkdir -p "$W/$1/up" "$W/$1/work"; mount -t overlay overlay -o lowerdir=$2,upperdir=$W/$1/up,workdir=$W/$1/work "$2" || { echo "$ID: no overlay on $2"; exit 9; }; }
lay r /repo; lay v /verif; lay o /opt/vp; [ -d /tmp/demo/target ] && { lay d /tmp/demo/target; export DEMO_TARGET=/tmp/demo/target; }
cd /repo
R=""
if [ -z "$NODEMO" ]; then bash "$D/demo.sh" > "$W/demo0.log" 2>&1; R="clean=$?"; fi
git apply "$D/patch.diff" || { echo "$ID: does not apply"; exit 9; }
if [ -z "$NODEMO" ]; then
R="$R build=-"
bash /opt/vp/test.sh "$W/t.json" > "$W/test.log" 2>&1
R="$R tests=$(grep -o "test result: .* passed; [0-9]* failed" /opt/vp/log/test.log | tail -1 | sed "s/test result: //;s/ //g")"
bash "$D/demo.sh" > "$W/demo1.log" 2>&1; R="$R planted=$?"
fi
for p in $PIDS; do s=$SECONDS; (cd /verif && VERIF_SEED=1 python3 tools/check.py $p > "$W/check-$p.log" 2>&1); R="$R $p=$?($(grep -c ^VIOLATION "$W/check-$p.log"),$((SECONDS-s))s)"; done
echo "$ID: $R"
'
for x in r v o d; do rm -rf "/tmp/wk/$ID/$x"; done
