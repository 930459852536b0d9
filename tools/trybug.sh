#!/bin/bash
# trybug.sh ID: applies seeded/ID/patch.diff to /repo, builds, runs tests, demo and the check; undoes it.
ID=$1; V=/verif; S=$V/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
undo() { git -C /repo checkout -- .; }
trap undo EXIT
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
T=$(mktemp -d)
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $T/o.json >$T/log 2>&1
python3 - "$T/o.json" <<'X'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=b.get('passed') or b.get('stable') or list(b.values())[0]
miss=[t for t in base if t not in r['passed']]
print("tests: passed", len(r['passed']), "missing", miss[:4])
X
fi
D=$(mktemp -d); cp -r "$S"/. $D/; rm -f $D/patch.diff $D/meta.json
timeout 300 bash $D/demo.sh >$T/demo 2>&1; echo "$ID demo with patch rc=$? (want nonzero): $(tail -1 $T/demo)"
cd $V; timeout 900 python3 checks/run.py $P >$T/chk 2>&1; rc=$?; echo "$ID check $P rc=$rc: $(grep -v VIOLATION $T/chk | head -1 | cut -c1-200)"
for q in $ALSO; do timeout 900 python3 checks/run.py $q >$T/chk 2>&1; echo "   also $q rc=$?: $(grep -v VIOLATION $T/chk | head -1 | cut -c1-160)"; done
cd /repo; undo; trap - EXIT
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
timeout 300 bash $D/demo.sh >$T/demo 2>&1; echo "$ID demo clean rc=$? (want 0)"
rm -rf "$T" "$D"
