import sys
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings; warnings.simplefilter('ignore')
from vc import patch, ob, universe, ctx, symarr as S
patch.install()
import traceback
sys.setrecursionlimit(400)
o=[o for o in ob.book(sys.argv[1]) if o.name==sys.argv[2]][0]
orig=S.Refine.__init__
log=[]
def init(self,v,alts,why=''):
    orig(self,v,alts,why); 
    log.append((v.name,str(v.hi),[(str(a[0]),[(x.name,str(x.hi)) for x in a[1]]) for a in alts],why, [f"{f.filename.split('/')[-1]}:{f.lineno}:{f.name}" for f in traceback.extract_stack()[-7:-2]]))
S.Refine.__init__=init
universe.fresh_state(((),(),()),1500)
try: o.fn(universe.Sym(ctx.cur))
except BaseException as e:
    print(type(e),str(e)[:300]); print(len(log))
    for l in log[:3]+log[-6:]: print(l)
    for f in traceback.extract_tb(e.__traceback__)[10:40]: print(f"   {f.filename.split('/')[-1]}:{f.lineno}:{f.name}: {f.line[:100]}")
