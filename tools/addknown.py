#!/usr/bin/env python3
"""addknown.py <property> <function> <rules.json> < debug log of vengine run: append the CAND messages as known findings.
rules.json: list of [regular expression, what]; a message that no expression matches is printed and left out."""
import json,re,sys
prop,fn,rules=sys.argv[1],sys.argv[2],json.load(open(sys.argv[3]))
kf='/verif/known_findings.jsonl'
have=set()
for l in open(kf):
    if l.startswith('{'):
        d=json.loads(l); have.add((d['property'],d['function'],d['msg']))
out=open(kf,'a'); n=0
for l in sys.stdin:
    m=re.match(r'  CAND (\w+) (.*?) \{".*',l)
    if not m: continue
    msg=m.group(2)
    for rx,what in rules:
        if re.search(rx,msg): break
    else:
        print('NOT LISTED',msg); continue
    if (prop,fn,msg) in have: continue
    have.add((prop,fn,msg)); n+=1
    out.write(json.dumps({'property':prop,'function':fn,'msg':msg,'what':what})+'\n')
print(n,'added')
