"""Runs the deductive obligations of a property (see universe.py) and reports them."""
import json, os, time, sys


def main(pid, shard, n, tier, seed, budget, out):
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3   # fail early if the back end is missing
    from . import patch, ob, universe
    patch.install()
    t0 = time.time()
    obs = [o for o in ob.book(pid) if tier == 'thorough' or o.tier == 'quick']
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), [x for x in names if names.count(x) > 1]
    claims = os.path.join(os.path.dirname(out.name), 'claims')   # the shards share one queue, long obligations first
    os.makedirs(claims, exist_ok=True)
    for i, o in sorted(enumerate(obs), key=lambda io: -io[1].limit):
        try: os.close(os.open(os.path.join(claims, str(i)), os.O_CREAT | os.O_EXCL))
        except FileExistsError: continue
        if time.time() - t0 > budget:
            rec = dict(kind='oblig', name=o.name, functions=o.functions, status='undecided', detail='not attempted within the time budget', bound=o.bound)
            print(json.dumps(rec), file=out, flush=True)
            continue
        lim = max(5., min(o.limit * (1 if tier == 'quick' else 4), budget - (time.time() - t0) + 10))
        print(json.dumps(dict(kind='ostart', name=o.name)), file=out, flush=True)
        r = universe.run_symbolic(o.fn, lim, z3_ms=1500 if tier == 'quick' else 5000, max_paths=400 if tier == 'quick' else 4000)
        rec = dict(kind='oblig', name=o.name, functions=o.functions, status=r['status'], detail=r['detail'], paths=r['paths'], goals=r['goals'],
                   pieces=r['pieces'], bound=o.bound, stats=r['stats'], t=r['t'], model=r['model'], choices=r['choices'], definite=r['definite'])
        if r['status'] == 'proved':
            s = universe.run_symbolic(o.fn, min(lim, 15), z3_ms=500, max_paths=3, sentinel=True)
            if not s['broken']:
                rec['status'], rec['detail'] = 'undecided', 'vacuous: the negated goal was not refuted'
            rec['sentinel'] = s['broken']
        print(json.dumps(rec), file=out, flush=True)
