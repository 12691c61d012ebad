import sys, os, time, traceback
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/engine')
import check, tempfile, solve
from engine import Engine
sys.setrecursionlimit(20000)
work=tempfile.mkdtemp(prefix='dbg-')
d,msg=check.extract('/verif/specs/'+sys.argv[1],work)
for fid in d['roots']:
    n=d['functions'][fid]['n']
    if not n.startswith('vp_lemma_') or (len(sys.argv)>2 and sys.argv[2] not in n): continue
    E=Engine(d); E.solver=__import__("solve").Solver(work,timeout=1.0); E.lemma(fid); S=solve.Solver(work,timeout=8)
    for o in E.obls:
        if len(sys.argv)>3 and sys.argv[3] not in o.name: continue
        t=time.time(); r=S.prove(o.pc,o.goal,E.facts)
        print('%.2f %s %s %s %s L%s'%(time.time()-t,r.status,r.by,o.name,o.fn,o.loc),flush=True)
        if r.status!='proved':
            for p in o.pc: print("   PC",repr(p)[:150]) if len(sys.argv)>4 else None
            import terms; print('   GOAL',terms.show(o.goal,30)[:9000])
