#!/bin/bash
# seedtest.sh ID: checks one planted bug: it compiles, the tests still pass, the demonstration tells.
S=/verif/seeded/$1
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo apply $S/patch.diff || exit 2
echo "== $1 with patch"; bash /verif/tools/reptest.sh
(cd /repo; bash $S/demo.sh); echo "demo with patch: $?"
if [ -n "$2" ]; then P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); (cd /verif; timeout 900 python3 check.py $P | tail -4 | cut -c1-400); fi
git -C /repo checkout -- .
bash /opt/vp/build.sh > /dev/null 2>&1
(cd /repo; bash $S/demo.sh > /dev/null); echo "demo without patch: $?"
