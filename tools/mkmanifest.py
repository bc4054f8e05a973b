import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA={}
nf=root+'/tools/not_applicable.json'
if os.path.exists(nf): NA=json.load(open(nf))
checks=[];na=[]
for p in props:
    i=p['id']; d=f'{root}/harness/{i}'
    if os.path.exists(d+'/spec.json') and i not in NA:
        sp=json.load(open(d+'/spec.json'))
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"symbolic execution of the repository's Go SSA (go/ssa, rebuilt from /repo on every run) with z3 deciding every branch and assertion over all values within the bounds; counterexamples are replayed on the natively compiled code",
          "level":"model_checking",
          "level_note":"bounded: "+"; ".join(sp["bounds"])+(". Outside: "+"; ".join(sp["outside"]) if sp.get("outside") else "")})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check yet (work in progress)")})
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na,
 "notes":"One engine (engine/) serves all checks; harness/<id> states a property over the real code, harness/rt is the interface between the two. See DESIGN.md."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
