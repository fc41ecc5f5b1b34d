import sys
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings; warnings.simplefilter('ignore')
from vc import patch, ob, universe, ctx, symarr as S
patch.install()
import cProfile, pstats
o=[o for o in ob.book(sys.argv[1]) if o.name==sys.argv[2]][0]
pr=cProfile.Profile(); pr.enable()
r=universe.run_symbolic(o.fn,60)
pr.disable(); print({k:r[k] for k in ('status','t','paths','stats')})
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
