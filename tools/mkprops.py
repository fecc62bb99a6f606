#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the table below
import json
P=[]
NA=[]
def prop(id,title,statement,over,qtext,why,files,mech,note,state=None,level="proof",technique="contracts on the real functions (govc: verification conditions from go/ssa, cvc5/z3)"):
    P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,note=note,state=state,level=level,technique=technique))
def na(id,title,statement,over,qtext,why,files,mech,reason):
    P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,note=None,state=None))
    NA.append(dict(property=id,reason=reason))
exec(open('/verif/tools/props.py').read())
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        a={"files":p['files'],"mechanism":[{"name":n,"where":w} for n,w in p['mech']]}
        if p['state']: a["state"]=p['state']
        f.write(json.dumps({"id":p['id'],"title":p['title'],"statement":p['statement'],"quantifier":{"over":p['over'],"text":p['qtext']},"why_tests_cant":p['why'],"anchors":a})+"\n")
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":NA,
 "notes":"No hooks in /repo; contracts live in /verif/contracts (comment-free side files keyed by function name), the verifier govc is in /verif/govc. known-findings.txt lists genuine defects (fixed and recorded)."}
for p in P:
    if p['note'] is None: continue
    m["checks"].append({"property":p['id'],"quick_cmd":"bin/govc check -prop "+p['id'],"thorough_cmd":"bin/govc check -tier thorough -prop "+p['id'],"evidence_file":"evidence/%s.json"%p['id'],"technique":p['technique'],"level":p['level'],"level_note":p['note']})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
