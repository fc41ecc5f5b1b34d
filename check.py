"""check.py PID [--tier quick|thorough] [--replay FILE]
Decides one property on /repo's current working tree. Exit 0: held on everything explored/proved;
exit 1 with a VIOLATION line otherwise; exit 2: no answer."""
import argparse, hashlib, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)

NCPU = 8


def env_for(extra):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3', PYTHONPATH='/repo',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    e.update(extra or {})
    return e


def known():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []


def matches(finding, pid, item):
    if finding['property'] != pid: return False
    m = finding['match']
    if m.get('fn') != item.get('fn'): return False
    return all(item.get('params', {}).get(k) == v for k, v in m.get('params', {}).items()) and m.get('msg', '') in item.get('msg', '')


class Job:
    def __init__(self, pid, mode, shard, n, tier, seed, budget, tmp, env, tag):
        self.mode, self.shard, self.tag, self.budget = mode, shard, tag, budget
        self.out = os.path.join(tmp, f"{mode}-{tag}-{shard}.jsonl")
        self.err = open(os.path.join(tmp, f"{mode}-{tag}-{shard}.err"), 'wb')
        self.env = env
        self.cwd = os.path.join(tmp, f"cwd-{mode}-{tag}-{shard}")
        os.makedirs(self.cwd, exist_ok=True)
        self.cmd = [PY, '-m', 'vc.worker', pid, mode, str(shard), str(n), tier, str(seed), str(budget), self.out]
        self.p = None

    def start(self):
        e = dict(self.env)
        e['PYTHONPATH'] = HERE + ':' + e.get('PYTHONPATH', '')
        e['HOME'] = self.cwd          # nothing the code under test writes lands outside the scratch folder
        self.t0 = time.time()
        self.p = subprocess.Popen(self.cmd, cwd=self.cwd, env=e, stdout=self.err, stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except Exception: pass

    def events(self):
        ev = []
        if os.path.exists(self.out):
            for line in open(self.out):
                try: ev.append(json.loads(line))
                except ValueError: pass
        return ev

    def errtail(self):
        self.err.flush()
        return open(self.err.name, 'rb').read()[-2000:].decode(errors='replace')


def run_jobs(jobs, deadline):
    queue, running = list(jobs), []
    while queue or running:
        while queue and len(running) < NCPU:
            j = queue.pop(0)
            j.start()
            running.append(j)
        time.sleep(.05)
        for j in list(running):
            if j.p.poll() is not None: running.remove(j)
            elif time.time() > deadline or time.time() - j.t0 > j.budget + 100:
                j.kill()
                j.p.wait()
                j.killed = True
                running.remove(j)
        if time.time() > deadline:
            queue.clear()


def rerun(pid, item, tmp, env, limit=150):
    """re-execute one case alone in a fresh process -> (fails?, text)"""
    f = os.path.join(tmp, 'replay.json')
    json.dump(item, open(f, 'w'))
    cwd = os.path.join(tmp, 'cwd-replay')
    os.makedirs(cwd, exist_ok=True)
    e = dict(env)
    e['PYTHONPATH'] = HERE + ':' + e.get('PYTHONPATH', '')
    e['HOME'] = cwd
    try:
        r = subprocess.run([PY, '-m', 'vc.worker', pid, 'replay', f], cwd=cwd, env=e, capture_output=True, text=True, timeout=limit)
        return r.returncode == 1 or r.returncode < 0, (r.stdout + r.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return True, f"no termination within {limit} s"


def concretise(pid, o, tmp, env, limit=60):
    f = os.path.join(tmp, 'cand.json')
    json.dump(dict(name=o['name'], model=o.get('model'), choices=o.get('choices'), limit=limit - 10), open(f, 'w'))
    cwd = os.path.join(tmp, 'cwd-replay')
    os.makedirs(cwd, exist_ok=True)
    e = dict(env)
    e['PYTHONPATH'] = HERE + ':' + e.get('PYTHONPATH', '')
    e['HOME'] = cwd
    try: r = subprocess.run([PY, '-m', 'vc.worker', pid, 'concretise', f], cwd=cwd, env=e, capture_output=True, text=True, timeout=limit + 60)
    except subprocess.TimeoutExpired: return None
    for line in r.stdout.splitlines():
        if line.startswith('FOUND '): return json.loads(line[6:])
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 0))
    ap.add_argument('--replay')
    ap.add_argument('--only', choices=['conc', 'sym'])
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.pid.upper()
    from props.meta import META
    meta = META[pid]
    env = env_for(meta.get('env'))
    if a.replay:
        d = json.load(open(a.replay))
        e = dict(env_for(d.get('env')))
        e['PYTHONPATH'] = HERE + ':' + e.get('PYTHONPATH', '')
        sys.exit(subprocess.run([PY, '-m', 'vc.worker', pid, 'replay', os.path.abspath(a.replay)], env=e, cwd=HERE).returncode)
    t0 = time.time()
    budget = meta.get('budget', 170) if tier == 'quick' else meta.get('budget_thorough', 560)
    deadline = t0 + (420 if tier == 'quick' else 800)
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        code = go(pid, tier, a.seed, meta, env, t0, budget, deadline, tmp, a.only)
    finally:
        if a.keep: print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def go(pid, tier, seed, meta, env, t0, budget, deadline, tmp, only):
    jobs = []
    nsym = meta.get('sym', 0)
    symenv = env_for(meta.get('symenv'))
    if only != 'conc':
        for s in range(nsym): jobs.append(Job(pid, 'sym', s, nsym, tier, seed, budget, tmp, symenv, 'main'))
    if only != 'sym':
        nc = meta.get('shards', 8)
        for k, extra in enumerate(meta.get('envs', [meta.get('env')])):
            for s in range(nc): jobs.append(Job(pid, 'conc', s, nc, tier, seed, budget, tmp, env_for(extra), f"env{k}"))
    run_jobs(jobs, deadline)

    cases, obligs, fails, notes, broken = [], [], [], [], []
    for j in jobs:
        ev = j.events()
        done = any(e['kind'] == 'done' for e in ev)
        last = None
        for e in ev:
            if e['kind'] == 'start': last = e
            if e['kind'] == 'case':
                last = None
                e['env'] = {k: j.env[k] for k in ('JAX_ENABLE_X64', 'PYTHONHASHSEED') if k in j.env}
                cases.append(e)
                if e['status'] == 'fail': fails.append((e, j))
            if e['kind'] == 'oblig': obligs.append(e)
            if e['kind'] == 'cut': notes.append(f"shard {j.mode}/{j.tag}/{j.shard} stopped at its time budget after case {e['at']}")
            if e['kind'] == 'note': notes.append(e['text'])
        if not done:
            if j.p is None: notes.append(f"shard {j.mode}/{j.tag}/{j.shard} not started: out of time")
            elif j.mode == 'conc' and last is not None:
                bad, text = rerun(pid, last, tmp, j.env)
                if bad: fails.append((dict(last, status='fail', msg='the process died or did not terminate: ' + text), j))
                else: notes.append(f"shard {j.mode}/{j.tag}/{j.shard} ended early in {last['fn']} (passes alone)")
            else:
                broken.append(f"shard {j.mode}/{j.tag}/{j.shard} ended early: {j.errtail()}")
    # --- deductive obligations whose proof failed: look for a failing input on the real code
    cand = [o for o in obligs if o['status'] == 'candidate']
    for o in cand[:12]:
        o['env'] = meta.get('env') or (meta.get('envs') or [{}])[0] or {}
        o['found'] = concretise(pid, o, tmp, env_for(o['env'])) if time.time() < deadline + 120 else None
    for o in cand:
        if o.get('found'):
            o['status'], o['replay'] = 'refuted', dict(o['found'], env=o['env'])
            o['detail'] = f"{o['detail']} -- on the real code: {o['found']['msg']}"
        else: o['status'] = 'refuted' if o.get('definite') else 'undecided'
    violations, kn = [], []
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    seen = set()
    reported = set()
    for e, j in fails:
        f = [x for x in known() if matches(x, pid, e)]
        if f:
            kn.append(f[0]['what'])
            continue
        key = e['fn']
        if key in seen and len(violations) >= 3: continue
        seen.add(key)
        ok, text = rerun(pid, e, tmp, j.env) if len(violations) < 3 else (True, '')
        hist = None
        if not ok:   # depends on what ran before in the process: keep the history
            hist = [dict(fn=x['fn'], params=x['params']) for x in j.events() if x['kind'] == 'start']
            hist = hist[:next((i for i, x in enumerate(hist) if x['fn'] == e['fn'] and x['params'] == e['params']), len(hist)) + 1]
        path = os.path.join(HERE, 'replays', f"{pid}-{hashlib.sha1(json.dumps([e['fn'], e['params']], sort_keys=True).encode()).hexdigest()[:10]}.json")
        json.dump(dict(property=pid, fn=e['fn'], params=e['params'], env=e.get('env') or {}, msg=e['msg'], replay_output=text, history=hist,
                       how=f"python3 /verif/check.py {pid} --replay {path}"), open(path, 'w'), indent=1)
        violations.append((path, e['msg'], ''))
    refuted = [o for o in obligs if o['status'] == 'refuted']
    for o in refuted:
        if len(violations) >= 4 or violations and o.get('replay') is None: continue
        path = os.path.join(HERE, 'replays', f"{pid}-{hashlib.sha1(o['name'].encode()).hexdigest()[:10]}.json")
        if o.get('replay'):
            json.dump(dict(property=pid, obligation=o['name'], fn=o['replay']['fn'], params=o['replay']['params'], env=o['replay'].get('env') or {},
                           msg=o['detail'], functions=o.get('functions'), how=f"python3 /verif/check.py {pid} --replay {path}"), open(path, 'w'), indent=1)
            violations.append((path, o['detail'], ''))
        else:
            json.dump(dict(property=pid, obligation=o['name'], verifier_output=o['detail'], functions=o.get('functions'),
                           no_failing_input_found=True), open(path, 'w'), indent=1)
            violations.append((path, f"obligation {o['name']} fails: {o['detail']}", ' no-failing-input-found'))
    for w in sorted(set(kn)): print(f"KNOWN-FINDING: property={pid} {w}")
    write_evidence(pid, tier, seed, meta, cases, obligs, notes + broken, violations, t0)
    for path, msg, suffix in violations[:5]:
        print(f"--- {pid}: {msg[:800]}")
        print(f"VIOLATION property={pid} replay={path}{suffix}")
    nob = len([o for o in obligs if o['status'] == 'proved'])
    print(f"{pid} {tier}: {len(cases)} concrete cases, {nob}/{len(obligs)} obligations discharged, {len(violations)} violations, {time.time()-t0:.0f} s")
    for n in (notes + broken)[:10]: print('note:', n[-600:])
    if violations: return 1
    if not [c for c in cases if c['status'] == 'ok'] and not nob:
        print(f"{pid}: nothing was checked")
        return 2
    return 0


def write_evidence(pid, tier, seed, meta, cases, obligs, notes, violations, t0):
    ok = [c for c in cases if c['status'] == 'ok']
    distinct = {json.dumps([c['fn'], c['params'], c.get('env')], sort_keys=True) for c in ok}
    proved = [o for o in obligs if o['status'] == 'proved']
    und = [o for o in obligs if o['status'] not in ('proved', 'sentinel')]
    fns = sorted({f for o in proved for f in o.get('functions', [])})
    backends = {}
    for o in proved:
        for k, v in o.get('stats', {}).items(): backends[k] = round(backends.get(k, 0) + v, 3)
    bounded = dict(label='bounded, not proved: concrete executions of the real code against an independent oracle',
                   evaluations=len(cases), distinct_nontrivial=len(distinct), skipped=len([c for c in cases if c['status'] == 'skip']),
                   rule=meta.get('rule', ''), samples=[dict(fn=c['fn'], params=c['params']) for c in ok[:1] + ok[len(ok) // 2:len(ok) // 2 + 1] + ok[-1:]],
                   by_function={f: len([c for c in cases if c['fn'] == f]) for f in sorted({c['fn'] for c in cases})})
    cov = {}
    if meta['level'] == 'proof':
        cov = dict(obligations=len(proved) + len(und), discharged=len(proved), checker_cmd=f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier}",
                   trusted_base=meta.get('trusted', []) , functions_under_contract=fns,
                   undischarged=[dict(name=o['name'], status=o['status'], why=o.get('detail', '')[:300]) for o in und],
                   discharged_obligations=[dict(name=o['name'], functions=o.get('functions', []), paths=o.get('paths'), goals=o.get('goals'),
                                                bound=o.get('bound', 'none'), seconds=o.get('t')) for o in proved],
                   vacuity_sentinels=len([o for o in obligs if o['status'] == 'sentinel']), backends=backends,
                   evaluations=len(cases), distinct_nontrivial=len(distinct), rule=bounded['rule'], samples=bounded['samples'], bounded=bounded)
    else:
        cov = dict(bounded)
        cov['explanation'] = meta.get('explanation', '')
        if obligs:
            cov.update(obligations=len(proved) + len(und), discharged=len(proved), functions_under_contract=fns, backends=backends,
                       undischarged=[dict(name=o['name'], status=o['status'], why=o.get('detail', '')[:300]) for o in und],
                       discharged_obligations=[dict(name=o['name'], functions=o.get('functions', []), bound=o.get('bound', 'none'), seconds=o.get('t')) for o in proved])
    if notes: cov['notes'] = [n[-400:] for n in notes[:20]]
    ev = dict(property=pid, tier=tier, seed=seed, level=meta['level'], coverage=cov, assumptions=meta.get('assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f"{pid}.json"), 'w'), indent=1)


if __name__ == '__main__': main()
