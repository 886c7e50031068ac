#!/bin/bash
# seedcheck.sh ID [PROP]: apply to /repo, run the property's quick check, undo
ID=$1
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
timeout 900 bash /verif/check.sh $P quick > /tmp/sc.$ID.$P 2>&1; rc=$?
git -C /repo checkout -- .
echo "$ID $P rc=$rc $(grep -c ^VIOLATION /tmp/sc.$ID.$P) violations; $(tail -1 /tmp/sc.$ID.$P | cut -c1-200)"
