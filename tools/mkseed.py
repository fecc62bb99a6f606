#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a seed description, after confirming it in a scratch copy of /repo:
builds, stable tests pass, demo exits 0 without and nonzero with the change."""
import json, os, shutil, subprocess, sys, tempfile
ENV=dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
PKGS=[l.strip() for l in open('/opt/vp/packages.txt') if l.strip()]
def sh(cmd,cwd): return subprocess.run(cmd,cwd=cwd,env=ENV,shell=isinstance(cmd,str),capture_output=True,text=True)
def make(id,property,edits,pkg,imports,body,needs,breaks):
    dst='/verif/seeded/'+id
    w=tempfile.mkdtemp(prefix='seed')
    try:
        r=w+'/repo'; sh(['cp','-a','/repo',r],'/')
        sh('git checkout -q -- . && git clean -fdq',r)
        out=w+'/out'; os.mkdir(out)
        pk=open(r+'/'+[f for f,_,_ in edits if True][0]).read()
        import re
        src=None
        for f in os.listdir(r+'/'+pkg):
            if f.endswith('.go') and not f.endswith('_test.go'):
                src=re.search(r'^package (\w+)',open(r+'/'+pkg+'/'+f).read(),re.M).group(1)
        imp=''.join('\t"%s"\n'%i for i in ['testing']+imports)
        open(out+'/demo_test.go.txt','w').write('package %s\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'%(src,imp,body))
        open(out+'/demo.sh','w').write(DEMO%dict(pkg=pkg)); os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=property,needs=needs,what_it_breaks=breaks),open(out+'/meta.json','w'),indent=1)
        a=sh(['bash',out+'/demo.sh'],r)
        if a.returncode!=0: print(id,'DEMO FAILS ON CLEAN',a.stdout[-1500:],a.stderr[-500:]); return False
        for f,old,new in edits:
            s=open(r+'/'+f).read()
            if s.count(old)!=1: print(id,'edit matches',s.count(old),'times',f); return False
            open(r+'/'+f,'w').write(s.replace(old,new))
        d=sh('git diff',r).stdout
        open(out+'/patch.diff','w').write(d)
        b=sh(['go','build']+PKGS,r)
        if b.returncode: print(id,'BUILD',b.stderr); return False
        t=sh(['go','test','-vet=off','-count=1']+[p for p in PKGS if p!='./internal/hexconv'],r)
        if t.returncode: print(id,'TESTS CATCH IT',t.stdout[-800:]); return False
        a=sh(['bash',out+'/demo.sh'],r)
        if a.returncode==0: print(id,'DEMO DOES NOT FAIL'); return False
        if 'build failed' in a.stdout: print(id,'DEMO BUILD',a.stdout[-600:]); return False
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
        print(id,'ok'); return True
    finally: shutil.rmtree(w)
if __name__=='__main__':
    ids=sys.argv[2:]
    ns={}
    exec(open(sys.argv[1]).read(),ns)
    for s in ns['SEEDS']:
        if not ids or s[0] in ids: make(*s)
