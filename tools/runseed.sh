#!/bin/bash
# runseed.sh ID [PROPS..]: apply a seeded bug, run the check(s), undo
ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
for p in $P; do timeout 900 python3-vt /verif/check.py $p quick 2>&1 | grep -v "^note" | tail -4 | cut -c1-260; done
