import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/engine')
sys.setrecursionlimit(100000)
import loops
from terms import *
o=loops.Loops.solve1 if hasattr(loops,'Loops') else None
cls=[c for c in vars(loops).values() if isinstance(c,type) and hasattr(c,'solve1')][0]
o=cls.solve1
cnt=[0]
def f(self,nm,L,t,k):
    r=o(self,nm,L,t,k)
    if r is None and cnt[0]<6:
        cnt[0]+=1
        print('UNSOLVED',nm,L['sort'],L['stars'])
        print('   ',repr(t)[:1500])
        w=app(nm,(),L['sort'])
        for y in subterms([t]).values():
            if y.op=='eq' and isinstance(y.args[0].sort,tuple) and k.id in fv(y): 
                print('   eq',repr(y)[:200], w.id in fv(y), repr(subst(t,{y.id:FALSE}))[:200], self.solve_eq(y,k))
    return r
cls.solve1=f
sys.argv=sys.argv
exec(open('/tmp/dbg.py').read())
