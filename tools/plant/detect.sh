#!/bin/bash
# detect.sh ID [PROP...]: runs checks (default: that of its property) with a planted bug applied to /repo
id=$1; shift; d=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
for q in $p; do s=$(date +%s); timeout 900 /verif/check.sh $q >/tmp/w/det.$id.$q.log 2>&1; r=$?
echo "$id $q rc=$r $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/w/det.$id.$q.log)"; done
git -C /repo checkout -q -- .
