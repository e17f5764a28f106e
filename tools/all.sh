#!/bin/bash
# usage: all.sh SEED...: the quick tier of all checks
cd "$(dirname "$0")/.."
for s in "$@"; do for i in $(/opt/venv/bin/python -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
 out=$(timeout 900 /opt/venv/bin/python check.py $i --tier ${TIER:-quick} --seed $s 2>&1); rc=$?
 echo "$i seed $s rc $rc: $(echo "$out" | grep "abandoned" | tail -1)"; [ $rc = 0 ] || echo "$out" | tail -40
done; done
