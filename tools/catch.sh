#!/bin/bash
# run each seeded bug: stable tests + its check in /tmp/wt ; args = ids (default all)
cd /verif/seeded; ids="$@"; [ -z "$ids" ] && ids=$(ls)
for b in $ids; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])"); c=$(echo $p | tr C c)
 cd /tmp/wt && git checkout -q -- . && git apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
 s=$(date +%s); out=$(cd /verif && VERIF_REPO=/tmp/wt timeout 900 /opt/venv/bin/python checks/$c.py 2>&1); rc=$?
 echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
 cd /tmp/wt && git checkout -q -- .
done
