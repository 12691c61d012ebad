import sys, os, time, traceback
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/engine')
import check, tempfile
from engine import Engine
sys.setrecursionlimit(20000)
work=tempfile.mkdtemp(prefix='dbg-')
d,msg=check.extract('/verif/specs/'+sys.argv[1],work)
if d is None: print(msg); sys.exit(1)
for fid in d['roots']:
    n=d['functions'][fid]['n']
    if not n.startswith('vp_lemma_') or (len(sys.argv)>2 and sys.argv[2] not in n): continue
    try:
        t=time.time(); E=Engine(d); E.solver=__import__("solve").Solver(work,timeout=1.0); E.lemma(fid); print(n,"obls",len(E.obls),"sum",sum("summary" in o.name for o in E.obls),'%.1fs'%(time.time()-t))
    except Exception as e:
        print(n,'EXC',type(e).__name__,e)
        tb=traceback.format_exc().split('\n')
        print('\n'.join(tb[-8:]))
