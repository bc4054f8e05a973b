#!/bin/bash
# runseed.sh <seed> [property]: run a check with a seed applied to /repo, and undo it
s=$1; p=${2:-$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif && ./check.sh $p quick | grep -E "VIOLATION|NOTE|REDUCED|not reproduced|^  [A-Z]" | cut -c1-220 | sed "s/^/$s: /"
exit ${PIPESTATUS[0]}
