#!/bin/bash
# plant.sh ID [checks...]: validates a planted bug in /repo (applied and undone) and runs checks against it.
id=$1; shift
s=/verif/seeded/$id
[ -e $s/demo.sh ] || cp /verif/tools/demo.sh $s/demo.sh
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
cd /repo
if bash $s/demo.sh > /tmp/demo.clean 2>&1; then echo "demo clean: ok"; else echo "DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/demo.clean; exit 1; fi
git apply $s/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh || { echo BUILD; exit 1; }
if bash $s/demo.sh > /tmp/demo.bug 2>&1; then echo "DEMO PASSES WITH BUG"; else echo "demo bug: fails: $(grep -E 'demo_test.go|panic|RACE' /tmp/demo.bug | head -2)"; fi
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('stable missing', sorted(set(b['stable'])-set(o['passed'])))
P
fi
for c in "$@"; do VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $c 2>&1 | grep -E '^(OK|VIOLATION|ERROR|--)' | cut -c1-250; done
