#!/usr/bin/env python3
# mut.py PROPS FILE  <<< lines "old ==> new" ; each mutant checked with VP_REPO
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
props=sys.argv[1].split(','); file=sys.argv[2]
muts=[l.rstrip('\n') for l in sys.stdin if ' ==> ' in l]
def one(m):
    old,new=m.split(' ==> ')
    nth=0
    if old.startswith('@'):
        nth=int(old[1:old.index(' ')]); old=old[old.index(' ')+1:]
    d=tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run('cp -a /repo/src %s/src'%d,shell=True,check=True)
        p=os.path.join(d,'src/DRAMPower/DRAMPower',file)
        if not os.path.exists(p): p=os.path.join(d,file)
        s=open(p).read()
        parts=s.split(old)
        if len(parts)<2: return 'NOMATCH %s'%m
        s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
        open(p,'w').write(s)
        out=[]
        for pr in props:
            r=subprocess.run(['python3','/verif/check.py',pr],capture_output=True,text=True,env=dict(os.environ,VP_REPO=d,VP_EVID='/tmp/evid'))
            out.append('%s rc=%d %s'%(pr,r.returncode,'conf' if [l for l in r.stdout.split('\n') if l.startswith('VIOLATION') and 'no-failing' not in l] else ('nofail' if r.returncode==1 else r.stdout[-200:])))
        return '%s | %s'%(m,'; '.join(out))
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for r in ex.map(one,muts): print(r,flush=True)
