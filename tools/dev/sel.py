import sys, os, time
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/engine')
import check, tempfile, solve
from engine import Engine
from terms import *
sys.setrecursionlimit(20000)
work=tempfile.mkdtemp(prefix='dbg-')
d,msg=check.extract('/verif/specs/C06.cpp',work)
for fid in d['roots']:
    n=d['functions'][fid]['n']
    if n!='vp_lemma_encode': continue
    E=Engine(d); E.lemma(fid); S=solve.Solver(work,timeout=8)
    for o in E.obls:
        if 'every desc' not in o.name: continue
        pc,g=solve.normal(o.pc,o.goal)
        s=solve.selectors(pc,g)
        print(s); import collections; print(collections.Counter((x.args[0].sort if isinstance(x.args[0].sort,tuple) else str(x.args[0].sort)) for x in subterms([g]).values() if x.op=='eq')); print([repr(x) for x in subterms([g]).values() if x.op=='eq'][:80])
        if s is None: pass
        cs=[] if s is None else s(); t=0; print(len(cs),time.time()-t)
        for p,gg in cs[3:5]:
            t=time.time(); r=S.prove(p,gg,E.facts,split=False) if 0 else S.query(p,gg,E.facts,8); print(r.status,r.by,'%.2f'%(time.time()-t)); print('  ',len(subterms([gg])),repr(gg)[:1500])
        g2=g
        while g2.op=='all':
            v,nn,b=solve.openb(g2,'sk'); g2=b; print(v, nn)
        c=0
        for x in subterms([g2]).values():
            if x.op=='eq' and x.args[0].sort==(64,0):
                dd,cc=solve.tolin(solve.sub(x.args[0],x.args[1])); c+=1
                if c<5: print(repr(x), dd, cc, [str(byid(i).val) for i in solve.fv(x)])
