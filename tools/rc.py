import sys, os, traceback
os.environ['JAX_ENABLE_X64']=os.environ.get('X64','1')
sys.path.insert(0,'/verif')
import warnings; warnings.simplefilter('ignore')
from vc import ob, universe
pid=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''; N=int(sys.argv[3]) if len(sys.argv)>3 else 4
for o in ob.book(pid):
    if pat and pat not in o.name: continue
    bad=None; sk=0
    for s in range(N):
        U=universe.Conc(s)
        try: o.fn(U)
        except universe.Skip: sk+=1
        except Exception as e: bad=(s,U.dims,traceback.format_exc()[-900:]); break
    print(o.name, 'OK' if not bad else bad, f'skip {sk}' if sk else '', flush=True) if (bad or sk==N) else None
