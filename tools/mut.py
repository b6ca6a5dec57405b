#!/usr/bin/env python3
"""Sensitivity and stability of the checks (development helper).

tools/mutants/*.py call
  m(props, file, old, new)   a faulty edit: at least one of props (space separated) must alarm
  r(name, [(file, old, new), ...])   a behaviour-preserving edit: no check may alarm
Edits are given to the analyzer as overlays; the repository is not touched.
usage: mut.py [-m] [-r] [prop or file substring ...]"""
import os, subprocess, sys, json, tempfile, glob, concurrent.futures as cf, shutil
R=os.environ.get('REPO','/repo').rstrip('/')+'/'; SA=os.environ.get('SA','/tmp/sa')
ms=[]; rs=[]
def m(props, file, old, new, n=1): ms.append((props.split(), [(file, old, new)], n))
def m2(props, edits): ms.append((props.split(), edits, 1))
def r(name, edits, n=1): rs.append((name, edits, n))
def run(i, props, edits, n):
    d=tempfile.mkdtemp(prefix='mut')
    try:
        ov={}; txt={}
        for f,a,b in edits:
            p=R+f
            t=txt.get(p) or open(p).read()
            if t.count(a)!=n: return 9,'edit matches %d times: %s %r'%(t.count(a),f,a[:60])
            txt[p]=t.replace(a,b)
        for k,(p,t) in enumerate(txt.items()):
            q='%s/f%d.go'%(d,k); open(q,'w').write(t); ov[p]=q
        json.dump(ov,open(d+'/o.json','w'))
        x=subprocess.run([SA,'-repo',R[:-1],'-prop',props,'-v','-overlay',d+'/o.json','-known','/verif/KNOWN_FINDINGS'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,TMPDIR=d))
        return x.returncode,x.stdout
    finally: shutil.rmtree(d)
for f in sorted(glob.glob('/verif/tools/mutants/'+os.environ.get('MUTF','*')+'.py')): exec(open(f).read(),dict(globals()))
def main():
    a=sys.argv[1:]; dm='-r' not in a; dr='-m' not in a; want=[x for x in a if x[0]!='-']
    bad=0
    with cf.ThreadPoolExecutor(8) as ex:
        jobs=[]
        if dm:
            for i,(props,e,n) in enumerate(ms):
                if want and not any(w in props or any(w in f for f,_,_ in e) for w in want): continue
                jobs.append(('m',props,e,ex.submit(run,i,','.join(props),e,n)))
        if dr:
            for i,(name,e,n) in enumerate(rs):
                if want and not any(w in name or any(w in f for f,_,_ in e) for w in want): continue
                jobs.append(('r',name,e,ex.submit(run,i,'all',e,n)))
        for k,w,e,j in jobs:
            rc,out=j.result()
            tag='%s %s %s'%(k,' '.join(w) if k=='m' else w, e[0][0])
            if k=='m' and rc==1:
                l=[x for x in out.splitlines() if ' [' in x][0]
                if '[undecided]' in l or '[coverage]' in l: tag='WEAK '+tag
                if os.environ.get('V') or tag[0]=='W': print('caught',tag,'|',l[:230])
                continue
            if k=='r' and rc==0: continue
            bad+=1
            print('*** %s rc=%d\n      %r -> %r\n%s'%(tag,rc,e[0][1][:150],e[0][2][:150],'\n'.join('      '+x for x in out.splitlines() if rc==9 or 'load' in x or (' [' in x and ' violations, ' not in x))[:2500]))
        print('%d jobs, %d need attention'%(len(jobs),bad))
main()
