#!/usr/bin/env python3
"""Creates and validates planted bugs from tools/seeds/*.py (development helper, not used by any check)."""
import os, subprocess, sys, json, tempfile, glob
R='/repo'; S='/verif/seeded'
DEMO='''#!/bin/bash
# Runs a test against the working tree; the test file is overlaid, nothing is written into the repository.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test -count=1 %(flags)s-overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
seeds=[]
def seed(id, prop, needs, what, edits, pkg, test, flags=''):
    seeds.append(dict(id=id,prop=prop,needs=needs,what=what,edits=edits,pkg=pkg,test=test,flags=flags))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh('git -C %s checkout -q -- .'%R)
def make(s, tests=True):
    assert sh('git -C %s status --porcelain'%R).stdout=='', 'repo dirty'
    d=os.path.join(S,s['id']); os.makedirs(d,exist_ok=True)
    try:
        for f,a,b in s['edits']:
            p=os.path.join(R,f); t=open(p).read()
            assert t.count(a)==1,(s['id'],f,a,t.count(a))
            open(p,'w').write(t.replace(a,b))
        diff=subprocess.run('git -C %s diff'%R,shell=True,stdout=subprocess.PIPE).stdout
        open(d+'/patch.diff','wb').write(diff)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['what']),open(d+'/meta.json','w'),indent=1)
        open(d+'/demo_test.go','w').write(s['test'])
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=s['pkg'],flags=s['flags']))
        os.chmod(d+'/demo.sh',0o755)
        env='. /opt/vp/env.sh; cd %s; '%R
        r=sh(env+'go build ./... && go vet ./%s >/dev/null 2>&1; go build ./...'%s['pkg'])
        if r.returncode: return 'BUILD '+r.stdout
        if tests:
            r=sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            if '36 passed' not in r.stdout: return 'TESTS '+r.stdout[-800:]
        r=sh('cd %s; timeout 300 bash %s/demo.sh'%(R,d))
        if r.returncode==0: return 'DEMO passes with the bug: '+r.stdout[-1500:]
        bugout=r.stdout
        ck=sh('/verif/run.sh %s'%s['prop'])
    finally:
        clean()
    r=sh('cd %s; timeout 300 bash %s/demo.sh'%(R,d))
    if r.returncode: return 'DEMO fails unchanged: '+r.stdout[-1500:]
    return 'ok, check exit %d%s | %s'%(ck.returncode, '' if ck.returncode==1 else ' MISSED', [l for l in bugout.splitlines() if 'demo' in l or 'panic' in l or 'RACE' in l][:1])
if __name__=='__main__':
    for f in sorted(glob.glob('/verif/tools/seeds/*.py')): exec(open(f).read())
    tests='-n' not in sys.argv; want=[a for a in sys.argv[1:] if a!='-n']
    ids=[s['id'] for s in seeds]; assert len(set(ids))==len(ids)
    for s in seeds:
        if want and not any(s['id'].startswith(w) for w in want): continue
        print(s['id'], make(s,tests), flush=True)
