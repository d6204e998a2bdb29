#!/usr/bin/env python3
"""Development aid: plant.py spec.py — makes seeded/<id> from edits, confirms build, tests, demo; runs the property's check with -c."""
import sys,os,subprocess,json,shutil
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
echo '{"Replace": {"'"$PWD"'/%(pkg)s/zz_demo_test.go": "'"$here"'/demo_test.go"}}' > "$tmp/o.json"
go%(ver)s test -vet=off %(race)s-overlay "$tmp/o.json" -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
def clean(): sh('git -C /repo checkout -- .')
def plant(id,prop,pkg,edits,demo,needs,breaks,race=False,check=True):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout, 'repo dirty'
    try:
        for f,old,new in edits:
            p=R+'/'+f; s=open(p).read()
            assert s.count(old)==1,(f,old,s.count(old))
            open(p,'w').write(s.replace(old,new))
        sh('gofmt -l /repo/internal')
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(demo)
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg,ver='1.24',race='-race ' if race else ''))
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        ok=True
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: print(id,'BUILD FAILS',b.stderr[-500:]); ok=False
        t=sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        tail=(t.stdout+t.stderr).strip().splitlines()[-1:]
        if '0 failed' not in str(tail): print(id,'TESTS',tail); ok=False
        r=sh(d+'/demo.sh',cwd=R)
        if r.returncode==0: print(id,'DEMO PASSES WITH BUG'); ok=False
        elif 'panic' not in r.stdout+r.stderr and 'FAIL' not in r.stdout: print(id,'demo odd',(r.stdout+r.stderr)[-600:])
        if check and ok:
            c=sh('/verif/check.sh '+prop)
            v=[l for l in c.stdout.splitlines() if 'VIOLATION' in l]
            print(id,prop,'rc',c.returncode,v,'' if c.returncode==1 else c.stdout[-300:])
    finally: clean()
    r=sh(d+'/demo.sh',cwd=R)
    if r.returncode: print(id,'DEMO FAILS ON CLEAN',(r.stdout+r.stderr)[-800:])
    return ok
