#!/usr/bin/env python3
"""run.py [--test] [--all] BATCH… | BATCH:NAME…   applies behaviour-preserving edits to /tmp/seedrepo (a scratch copy of /repo)
and runs the proof part of the checks on it"""
import sys,os,subprocess
sys.path.insert(0,os.path.dirname(__file__))
from edits import BATCHES
R=os.environ.get('R','/tmp/seedrepo')
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
a=[x for x in sys.argv[1:] if not x.startswith('--')]
for b in a:
    b,_,only=b.partition(':')
    sh(f'git -C {R} checkout -q -- .')
    n=0
    for name,f,old,new in BATCHES[b]:
        if only and not name.startswith(only): continue
        t=open(f'{R}/{f}').read()
        if t.count(old)<1: print('NO MATCH',name); continue
        open(f'{R}/{f}','w').write(t.replace(old,new,1)); n+=1
    print(f'batch {b}: {n} edits')
    if '--test' in sys.argv:
        p=sh('cargo test --offline -q 2>&1 | grep -E "^error|^test result|FAILED|-->" | head -30',cwd=R); print(p.stdout)
    p=sh(f'SIA_REPO={R} python3 /verif/driver/check.py --proof'); print(p.stdout[-14000:]); print(p.stderr[-1500:])
    if '--keep' not in sys.argv: sh(f'git -C {R} checkout -q -- .')
