import sys,time; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/specs')
import ir,build,exec as X,check,contract as K,lib
sys.modules['check']=check
from dom import *
import z3
X.DEBUG=True
check.load_specs()
name=sys.argv[1]
b=build.build()
mod=check.get_module(b['ll'])
orig=X.Engine.sat
def sat(self,st,extra,want_model=False):
    t=time.time(); r=orig(self,st,extra,want_model); dt=time.time()-t
    if dt>0.5:
        import traceback
        fr=[f"{f.name}:{f.lineno}" for f in traceback.extract_stack()[-7:-1]]
        print('%.1fs %s %s pc=%d %s'%(dt,r[0],self.site(st),len(st.pc),fr),flush=True)
    return r
X.Engine.sat=sat
op=X.Engine.prove
def prove(self,st,goal,ms=None):
    t=time.time(); r=op(self,st,goal,ms); dt=time.time()-t
    if dt>0.5: print('   prove %.1fs %s %s'%(dt,r[0],r[2]),flush=True)
    return r
X.Engine.prove=prove
s=[s for s in check.SPECS if s.name==name][0]
tl=float(sys.argv[2]) if len(sys.argv)>2 else 100
r=check.run_deductive(s,b['ll'],b['key'],build.CACHE,tl)
for f in r.get('failures',()):
    print({k:str(v)[:300] for k,v in f.items()})
for k in ('missing','error','unsupported','nob','kinds','backs','solver','wall','returns','ensured','covers','checks'):
    print(k, str(r.get(k))[:800])
