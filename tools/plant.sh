#!/bin/bash
# plant.sh ID PROPERTY : validates /verif/seeded/ID in a scratch copy (patch applies, builds, stable
# tests pass, demo 0 without / nonzero with), then runs the property's check against the copy.
ID=$1; PROP=$2; D=/verif/seeded/$ID; W=/tmp/plant_$ID
rm -rf "/tmp/plant_$ID"; cp -a /repo $W; cd $W
sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/plant_$ID.test.sh
run_demo() { cp -a $D/. /tmp/plant_${ID}_demo/ 2>/dev/null; (cd $W && PYTHONPATH=$W timeout 300 bash /tmp/plant_${ID}_demo/demo.sh >/tmp/plant_$ID.demo.out 2>&1); echo $?; }
mkdir -p /tmp/plant_${ID}_demo
a=$(run_demo)
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
b=$(run_demo)
if [ -z "$NOTEST" ]; then
bash /tmp/plant_$ID.test.sh /tmp/plant_$ID.json >/dev/null 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/plant_$ID.json'))
print(len(set(b['stable'])-set(t['passed'])))")
else t=skipped; fi
c=$(VERIF_REPO=$W /opt/venv/bin/python /verif/run_check.py $PROP --tier quick 2>&1 | grep -c "^VIOLATION property=$PROP")
echo "$ID $PROP: demo clean=$a patched=$b lost_tests=$t violations=$c"
rm -rf "/tmp/plant_$ID" "/tmp/plant_${ID}_demo" "/tmp/plant_$ID.test.sh"
