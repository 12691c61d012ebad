# args: SPEC LEMMA OBLNAME : print python stack when an obligation with that name and a false goal is emitted
import sys, traceback
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/engine')
import engine as EN
from terms import *
o=EN.Engine.oblige
n=[0]
def f(self,st,g,name,kind,*a,**k):
    if sys.argv[3] in name and g is FALSE and n[0]<2:
        n[0]+=1
        for fr in traceback.extract_stack():
            if 'engine' in fr.filename and fr.name not in('stmt','st_block','ev','rvalue'): print('  ',fr.name,fr.lineno,fr.filename[-12:])
        fr=sys._getframe(1)
        for _ in range(14):
            if fr is None: break
            e=fr.f_locals.get('e')
            if isinstance(e,dict): print('   E',fr.f_code.co_name,str(e)[:300])
            fr=fr.f_back
    return o(self,st,g,name,kind,*a,**k)
EN.Engine.oblige=f
exec(open('/tmp/dbg.py').read())
