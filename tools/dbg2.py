import sys
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings; warnings.simplefilter('ignore')
from vc import patch, ob, universe, ctx, symarr as S, poly
patch.install()
import traceback
pid,name,pat=sys.argv[1:4]
o=[o for o in ob.book(pid) if o.name==name][0]
orig=S.Refine.__init__
log=[]
def init(self,v,alts,why=''):
    orig(self,v,alts,why); 
    log.append((v.name,str(v.hi),[(str(a[0]),[(x.name,str(x.hi)) for x in a[1]]) for a in alts],why, [f"{f.filename.split('/')[-1]}:{f.lineno}:{f.name}" for f in traceback.extract_stack()[-9:-2]]))
S.Refine.__init__=init
todo=[((),(),())]
while todo:
    universe.fresh_state(todo.pop(),1500)
    try: o.fn(universe.Sym(ctx.cur))
    except ctx.Restart as e: todo.append(e.item)
    except (ctx.Abort,): pass
    except BaseException as e:
        print(type(e),str(e)[:600]); print(ctx.cur.facts)
        for f in traceback.extract_tb(e.__traceback__)[-25:]: print(f"   {f.filename.split('/')[-1]}:{f.lineno}:{f.name}")
        for l in log[-int(pat):]: print(l)
        break
    todo.extend(ctx.cur.pending)
