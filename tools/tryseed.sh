#!/bin/bash
# tryseed.sh ID [check]: demo clean, demo/tests/check with the patch, then undone
id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "repo dirty"; exit 9; }
bash /verif/seeded/$id/demo.sh >/tmp/d0.log 2>&1; echo "$id demo clean: $?"
git apply /verif/seeded/$id/patch.diff || exit 9
bash /verif/seeded/$id/demo.sh >/tmp/d1.log 2>&1; echo "$id demo patched: $?"
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/o.json'))
print('$id stable tests broken:', sorted(b-set(o['passed'])))"
fi
cd /verif; python3 check.py ${2:-$p} 2>&1 | tail -4; 
git -C /repo checkout -q -- .
