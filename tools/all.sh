#!/bin/bash
# all.sh [tier]: every registered check, strictly, four at a time
cd /verif
python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])" 2>/dev/null | xargs -P 3 -I{} bash -c 'SYMX_STRICT=1 ./check.sh {} '${1:-quick}' 2>&1 | tail -1; echo "{} rc=${PIPESTATUS[0]}"' | tee /tmp/all.log | grep rc= | grep -v rc=0
echo done $(grep -c rc=0 /tmp/all.log)
