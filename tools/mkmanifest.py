#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below and properties.jsonl"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V,'tools','claims.py')).read())
props=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
checks=[]
na=[]
for p in props:
    if p in CLAIMS:
        assert p not in NA
        checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":"contract-based deductive verification (govc: contracts on the real functions, verification conditions from go/ssa, SMT)","level":"proof","level_note":CLAIMS[p]})
    else:
        na.append({"property":p,"reason":NA.get(p,"check under construction")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na}
open(os.path.join(V,'MANIFEST.json'),'w').write(json.dumps(m,indent=1)+"\n")
