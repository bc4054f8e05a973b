#!/bin/bash
# native.sh <id> <func> [values.json]: build a harness natively and run one function
. /opt/vp/env.sh
id=$1; fn=$2; vals=${3:-}
d=$(mktemp -d)
python3 - "$id" "$d" <<'P'
import json,sys,glob,os
id,d=sys.argv[1:]
r={}
def add(src,dst):
    for f in glob.glob(src+'/*.go'): r[dst+'/'+os.path.basename(f)]=f
add('/verif/harness/rt','/repo/verifrt'); add('/verif/harness/hx','/repo/verifhx')
dst='/repo/verifharness/'+id
p='/verif/harness/'+id+'/INPACKAGE'
if os.path.exists(p): dst='/repo/'+open(p).read().strip()
add('/verif/harness/'+id,dst)
json.dump({"Replace":r},open(d+'/ov.json','w'))
P
pat=./verifharness/$id; [ -f /verif/harness/$id/INPACKAGE ] && pat=./$(cat /verif/harness/$id/INPACKAGE)
cd /repo && go build -overlay $d/ov.json -o $d/h $pat && VERIF_FUNC=$fn VERIF_VALUES=$vals $d/h
rc=$?
rm -rf "$d"
exit $rc
