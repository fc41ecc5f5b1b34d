import sys, io, json, os
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings; warnings.simplefilter('ignore')
pid=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
from vc import patch, ob, universe
patch.install()
import time
for o in ob.book(pid):
    if pat and pat not in o.name: continue
    r=universe.run_symbolic(o.fn,o.limit)
    s=universe.run_symbolic(o.fn,15,max_paths=3,sentinel=True) if r['status']=='proved' else {'broken':'-'}
    print(f"{o.name:45s} {r['status']:10s} t={r['t']} paths={r['paths']} goals={r['goals']} pieces={r['pieces']} sent={s['broken']} {r['detail'][:700] if r['status']!='proved' else ''}", (r['model'],r['choices']) if r['status']=='candidate' else '',flush=True)
