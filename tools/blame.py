#!/usr/bin/env python3
"""Lines a planted bug removes must be lines of the original repository."""
import glob,re,subprocess
for f in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    cur=None; n=0
    for l in open(f):
        if l.startswith('--- a/'): cur=l[6:].strip(); continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if cur is None or l.startswith('+'): continue
        if l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{n},{n}',cur],capture_output=True,text=True).stdout
            if not b.startswith('^'): print(f,b.strip())
        n+=1
