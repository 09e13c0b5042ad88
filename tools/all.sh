#!/bin/bash
# run every registered check (quick unless an argument says otherwise), one summary line each
cd /verif; for p in $(python3 -c 'import json;print(*[c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]])'); do s=$(date +%s); python3 check.py $p ${1:-quick} > /tmp/all.$p.log 2>&1; r=$?; echo "$p rc=$r $(( $(date +%s)-s ))s $(grep -c INCOMPLETE /tmp/all.$p.log) incomplete $(grep -m1 VIOLATION /tmp/all.$p.log)"; done
