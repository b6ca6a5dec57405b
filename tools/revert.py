#!/usr/bin/env python3
"""Undo each fix: commit of /repo in turn and list the checks that alarm.

usage: revert.py [-p PROPS] [substring of subject...]
Works on a scratch clone and hands the files to the analyzer as an overlay.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
props = 'all'
if args[:1] == ['-p']:
    props, args = args[1], args[2:]
SA = os.environ.get('SA', '/tmp/sa')
tmp = tempfile.mkdtemp(prefix='revert-')
git = lambda *a, **k: subprocess.run(['git', '-C', tmp + '/c', *a], capture_output=True, text=True, **k)
try:
    subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/c'], check=True)
    log = git('log', '--format=%h %s', '--grep=^fix:').stdout.splitlines()
    jobs = []
    for n, l in enumerate(reversed(log)):
        h, subj = l.split(' ', 1)
        if args and not any(a in l for a in args):
            continue
        r = git('revert', '-n', h)
        if r.returncode:
            git('revert', '--abort'); git('reset', '-q', '--hard')
            print(f'{h} {subj}: later commits depend on it, not undone'); continue
        ov = {}
        for f in git('diff', '--name-only', 'HEAD').stdout.split():
            d = f'{tmp}/{h}/{f}'
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(f'{tmp}/c/{f}', d)
            ov[f] = d
        git('reset', '-q', '--hard')
        j = f'{tmp}/{h}.json'
        json.dump({'/repo/' + k: v for k, v in ov.items()}, open(j, 'w'))
        jobs.append((h, subj, j))
    def run(job):
        h, subj, j = job
        r = subprocess.run([SA, '-prop', props, '-overlay', j, '-evidence', f'{tmp}/ev-{h}'], capture_output=True, text=True, cwd=tmp)
        hits = sorted(set(re.findall(r'VIOLATION property=(P\d+)', r.stdout)))
        lines = [x for x in r.stdout.splitlines() if ': [' in x]
        weak = all(re.search(r'\[(undecided|coverage)\]', x) for x in lines)
        return h, subj, r.returncode, hits, weak, lines
    with ThreadPoolExecutor(4) as ex:
        for h, subj, rc, hits, weak, lines in ex.map(run, jobs):
            print(f'{h} {subj}: {" ".join(hits) or "MISSED"}{" WEAK" if hits and weak else ""}{"" if rc in (0,1) else f" rc={rc}"}')
            if os.environ.get('V'):
                for x in lines: print('      ', x)
finally:
    shutil.rmtree(tmp)
