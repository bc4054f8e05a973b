#!/bin/bash
# mkseed.sh <id> <property>: turn the edits in /tmp/seedrepo and the demo /tmp/demo/main.go into seeded/<id>
set -e
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seedrepo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /verif/tools/demo/demo.sh /verif/tools/demo/lib.go $d/
[ -f /tmp/demo/main.go ] && cp /tmp/demo/main.go $d/main.go
gofmt -l $d/*.go
python3 - "$d" "$prop" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
# unchanged tree: 0; changed: nonzero; stable tests pass
(cd /repo && bash $d/demo.sh) || { echo "DEMO FAILS ON UNCHANGED"; exit 1; }
(cd /tmp/seedrepo && if bash $d/demo.sh; then echo "DEMO PASSES WITH PATCH"; exit 1; fi)
(cd /tmp/seedrepo && . /opt/vp/env.sh && go build ./... && go vet ./translator >/dev/null 2>&1; go test ./translator 2>&1 | tail -3)
git -C /tmp/seedrepo checkout -q -- .
echo "seed $id ok"
