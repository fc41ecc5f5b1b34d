"""python -m vc.worker PID conc SHARD NSHARDS TIER SEED BUDGET_S OUT   (concrete cases)
   python -m vc.worker PID sym  SHARD NSHARDS TIER SEED BUDGET_S OUT   (deductive obligations)
   python -m vc.worker PID replay FILE"""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def concrete(pid, shard, n, tier, seed, budget, out):
    from . import case
    mod = importlib.import_module(f"props.{pid.lower()}")
    t0 = time.time()
    for i, (fn, params) in enumerate(allcases(mod, pid, tier, seed)):
        if i % n != shard: continue
        if time.time() - t0 > budget:
            print(json.dumps(dict(kind='cut', at=i)), file=out, flush=True)
            break
        t = time.time()
        print(json.dumps(dict(kind='start', fn=fn, params=params)), file=out, flush=True)
        st, msg = case.run_case(mod, fn, json.loads(json.dumps(params)))
        print(json.dumps(dict(kind='case', fn=fn, params=params, status=st, msg=msg, t=round(time.time() - t, 3))), file=out, flush=True)


def allcases(mod, pid, tier, seed):
    yield from mod.cases(tier, seed)
    from . import ob
    for o in ob.book(pid):   # every contract is also executed on concrete instances (cross-check of the deductive engine)
        for k in range(o.conc if tier == 'quick' else 8 * o.conc):
            yield '__oblig__', dict(pid=pid, name=o.name, seed=1000 * seed + k, big=3 if k % 3 else 4)


def concretise(pid, file):
    """look for a concrete instance on which a refuted contract fails on the real code"""
    from . import case
    d = json.load(open(file))
    t0 = time.time()
    tries = [dict(pid=pid, name=d['name'], seed=s, dims=d.get('model') or {}, choices=d.get('choices') or []) for s in range(4)]
    tries += [dict(pid=pid, name=d['name'], seed=s, big=b) for b in (3, 4, 6) for s in range(12)]
    for p in tries:
        if time.time() - t0 > d.get('limit', 50): break
        st, msg = case.run_case(None, '__oblig__', p)
        if st == 'fail':
            print('FOUND ' + json.dumps(dict(fn='__oblig__', params=p, msg=msg)))
            sys.stdout.flush()
            os._exit(0)
    os._exit(0)


def main():
    pid, mode = sys.argv[1:3]
    if mode == 'replay':
        from . import case
        d = json.load(open(sys.argv[3]))
        mod = importlib.import_module(f"props.{pid.lower()}")
        for h in (d.get('history') or [])[:-1]: case.run_case(mod, h['fn'], h['params'])   # what ran before in the process
        st, msg = case.run_case(mod, d['fn'], d['params'])
        print(st, msg)
        sys.exit(1 if st == 'fail' else 0)
    if mode == 'concretise': concretise(pid, sys.argv[3])
    shard, n, tier, seed, budget = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], int(sys.argv[6]), float(sys.argv[7])
    out = open(sys.argv[8], 'w')
    if mode == 'conc': concrete(pid, shard, n, tier, seed, budget, out)
    else:
        from . import symrun
        symrun.main(pid, shard, n, tier, seed, budget, out)
    print(json.dumps(dict(kind='done')), file=out, flush=True)
    out.close()
    os._exit(0)


if __name__ == '__main__':
    if not os.environ.get('VERIF_DEBUG'):
        import warnings, logging
        warnings.simplefilter('ignore')
        logging.disable(logging.CRITICAL)
    main()
