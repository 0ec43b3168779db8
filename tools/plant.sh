#!/bin/bash
# plant.sh ID [notest]: the uncommitted change in /repo (or the patch of an
# existing seeded/ID) becomes seeded/ID/patch.diff and is tried: demo on the
# clean tree, stable tests and demo with the patch, then the property's check.
id=$1; d=/verif/seeded/$id
mkdir -p $d
if ! git -C /repo diff --quiet; then git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .; fi
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; }
trap undo EXIT
grep -hE '^[-+]' $d/patch.diff | head -40
bash /opt/vp/build.sh > /tmp/plant_build.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/plant_demo0.log 2>&1); echo "demo clean: $?"
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/plant_build.log 2>&1; echo "build: $?"
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/plant_demo1.log 2>&1); echo "demo patched: $?"; tail -3 /tmp/plant_demo1.log
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); n=json.load(open('/tmp/plant.json'))
p=set(n['passed']); print('stable tests missing', [x for x in b['stable'] if x not in p])
P
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; SIM_SHRINK_S=5 ./check.py $prop | tail -4 | cut -c1-300
