#!/usr/bin/env python3
"""Behaviour-preserving rewrites (tools/refactorings.py): each is applied to /repo, the property's check must stay quiet, then undone."""
import subprocess,sys,time,re
ns={}
exec(open('/verif/tools/refactorings.py').read(),ns)
ids=sys.argv[1:]
for id,prop,edits in ns['REFS']:
    if ids and id not in ids and prop not in ids: continue
    bad=False
    try:
        for f,old,new in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(old)!=1: print(id,'matches',s.count(old),f); bad=True; break
            open(p,'w').write(s.replace(old,new))
        if bad: continue
        pk=sorted({'./'+f.rsplit('/',1)[0] for f,_,_ in edits})
        b=subprocess.run(['go','build','-modfile=/verif/stubs/repo.mod']+pk,cwd='/repo',capture_output=True,text=True)
        if b.returncode: print(id,'BUILD',b.stderr[:500]); continue
        t=time.time()
        r=subprocess.run(['/verif/bin/govc','check','-prop',prop],capture_output=True,text=True)
        print(id,prop,'rc=%d %.0fs'%(r.returncode,time.time()-t), '' if r.returncode==0 else '\n   '+'\n   '.join(l[:260] for l in r.stdout.splitlines() if re.match('proof|input|VIOL|FAIL',l)),flush=True)
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
