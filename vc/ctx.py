"""Path context: facts, decisions, forking by re-execution."""
import time, itertools


class Abort(BaseException):
    """this path is infeasible"""


class Restart(BaseException):
    """re-execute with a dimension substituted"""
    def __init__(self, item): self.item = item


class Diverged(Exception):
    pass


class Context:
    """One path: the nondeterministic choices taken so far (replayed in order), the facts assumed (branch conditions on
    dimensions) and the dimensions that a branch condition determined (they are substituted from the start)."""
    def __init__(self, item=((), (), ()), z3_ms=3000):
        self.prefix, facts, self.dimsub = list(item[0]), list(item[1]), dict(item[2])
        self.taken = []
        self.facts = facts    # list of (kind, Poly) known true:  kind in ge, eq, ne
        self.path = list(facts)
        self.pending = []     # alternative paths to explore
        self.z3_ms = z3_ms
        self.nforks = 0
        self.temp = 0         # facts about goal indices are in force
        self.freeze = False   # no forking (inside spec evaluation)


cur = None
stats = dict(z3=0, z3_s=0.0, structural=0, forks=0)
_cache = {}


def set(c):
    global cur
    cur = c
    _cache.clear()


def assume(kind, p):
    from .poly import Poly
    p = Poly.of(p)
    if any(k == kind and q.skey() == p.skey() for k, q in cur.facts): return
    add_fact(kind, p)


def choose(n, label=''):
    """nondeterministic choice among range(n): explored exhaustively"""
    i = len(cur.taken)
    if i < len(cur.prefix):
        v, n0, l0 = cur.prefix[i]
        if (n0, l0) != (n, label):
            from .poly import Unsupported
            raise Unsupported("replay of a path diverged")
    else:
        v = 0
        for k in range(n - 1, 0, -1): cur.pending.append((cur.taken + [(k, n, label)], cur.path, tuple(cur.dimsub.items())))
    cur.taken.append((v, n, label))
    return v


def decide(kind, p):
    """truth value of p>=0 / p==0: proved, refuted, or chosen by forking the path"""
    from .poly import Poly, nonneg, Unsupported
    c = p.const()
    if c is not None: return c >= 0 if kind == 'ge' else c == 0
    if kind == 'eq':
        if prove('eq', p): return True
        if prove('ne', p): return False
    else:
        if nonneg(p): stats['structural'] += 1; return True
        n = Poly({m: -k for m, k in p.t.items()})._add(Poly.of(1), -1)
        if nonneg(n): stats['structural'] += 1; return False
        if prove('ge', p): return True
        if prove('ge', n): return False
    if any(a.bound for a in p.allatoms()):
        raise Unsupported(f"undecided condition on a summation index: {kind} {p}")
    if cur is None or cur.freeze: raise Unsupported(f"undecided: {kind} {p}")
    cur.nforks += 1
    stats['forks'] += 1
    if cur.nforks > 60: raise Unsupported("too many path forks")
    n = Poly({m: -k for m, k in p.t.items()})._add(Poly.of(1), -1)
    fork(('eq', p) if kind == 'eq' else ('ge', p), ('ne', p) if kind == 'eq' else ('ge', n))
    return True


def fork(yes, no):
    """explore the path with ``no`` later; go on with ``yes``"""
    cur.pending.append((list(cur.taken), cur.path + [no], tuple(cur.dimsub.items())))
    add_fact(*yes)


def add_fact(kind, p):
    from .poly import Poly, lincoef, subs
    if kind == 'eq':   # a determined dimension is substituted everywhere: start again
        p = content(p)
        forced(p)
        for d in sorted((a for a in p.atoms() if a.kind == 'dim'), key=lambda a: a.name, reverse=True):
            if any(e > 1 for m in p.t for a, e in m if a == d): continue
            A, B = lincoef(p, d)
            if A.const() not in (1, -1) or d in B.allatoms(): continue
            substitute(d, Poly({m: (-k if A.const() == 1 else k) for m, k in B.t.items()}))
    cur.facts.append((kind, p))
    cur.path.append((kind, p))
    _cache.clear()


def substitute(d, e):
    """raise Restart with the dimension d replaced by e"""
    from .poly import Poly, subs
    mp = {d: e.norm()}
    facts = [(k, Poly.of(subs(q, mp))) for k, q in cur.path] + [('ge', e._add(Poly.of(d.lo), -1))]
    facts = [(k, q) for k, q in facts if q.const() is None]
    ds = {n: subs(v, mp) if type(v) is Poly else v for n, v in cur.dimsub.items()}
    ds[d.name] = e.norm()
    raise Restart((list(cur.taken), facts, tuple(ds.items())))


def content(p):
    """p divided by the dimensions (all positive) common to every term"""
    from .poly import Poly
    if not p.t: return p
    common = None
    for m in p.t:
        c = {a: e for a, e in m if a.kind == 'dim' and type(a.lo) is int and a.lo >= 1}
        common = c if common is None else {a: min(e, c[a]) for a, e in common.items() if a in c}
    if not common: return p
    return Poly({tuple((a, e - common.get(a, 0)) for a, e in m if e > common.get(a, 0)): k for m, k in p.t.items()})


def forced(p):
    """a dimension that the equation p == 0 forces to its least value is substituted"""
    from .poly import Poly
    if any(a.kind != 'dim' or type(a.lo) is not int for a in p.atoms()): return
    ds = sorted(p.atoms(), key=lambda a: a.name)
    if not any(len(m) > 1 or any(e > 1 for a, e in m) for m in p.t): return
    import z3
    for d in ds:
        s, env = solver([('eq', p)])
        if d not in env: continue
        s.add(env[d] != d.lo)
        s.set('timeout', 2000)
        stats['z3'] += 1
        t = time.time()
        r = s.check()
        stats['z3_s'] += time.time() - t
        if r == z3.unsat: substitute(d, Poly.of(d.lo))


def to_z3(p, z3, env, side):
    from .poly import Poly
    e = z3.IntVal(0)
    for m, c in Poly.of(p).t.items():
        t = z3.IntVal(c)
        for a, k in m:
            x = atom_z3(a, z3, env, side)
            for _ in range(k): t = t * x
        e = e + t
    return e


def atom_z3(a, z3, env, side):
    if a in env: return env[a]
    if a.kind == 'app':
        f = z3.Function(a.name, *([z3.IntSort()] * (len(a.args) + 1)))
        x = f(*[to_z3(y, z3, env, side) for y in a.args])
    elif a.kind == 'pow':
        f = z3.Function('pow', z3.IntSort(), z3.IntSort(), z3.IntSort())
        x = f(*[to_z3(y, z3, env, side) for y in a.args])
    else:
        x = z3.Int(f"{a.kind}!{a.name}!{len(env)}" if a.args else a.name)
    env[a] = x
    if a.kind in ('div', 'mod'):
        from .poly import Atom
        pp, mm = [to_z3(y, z3, env, side) for y in a.args]
        da, ma = Atom('div', 'div', 0, None, a.args), Atom('mod', 'mod', 0, a.args[1], a.args)
        d = env.setdefault(da, z3.Int(f"div!{len(env)}"))
        m = env.setdefault(ma, z3.Int(f"mod!{len(env)}"))
        side += [pp == d * mm + m, m >= 0, m < mm]
    if a.lo is not None: side.append(x >= (a.lo if type(a.lo) is int else to_z3(a.lo, z3, env, side)))
    if a.hi is not None: side.append(x < to_z3(a.hi, z3, env, side))
    return x


def relevant(p, facts):
    return facts


def solver(extra=()):
    import z3
    s = z3.Solver()
    env, side = {}, []
    cs = []
    for k, q in list(cur.facts if cur else []) + list(extra):
        e = to_z3(q, z3, env, side)
        cs.append(e >= 0 if k == 'ge' else e == 0 if k == 'eq' else e != 0)
    s.add(*side)
    s.add(*cs)
    return s, env


def prove(kind, p):
    """z3 proof of the fact from ranges and path facts"""
    from .poly import Poly, nonneg
    p = Poly.of(p)
    if not p.t: return kind in ('ge', 'eq')
    c = p.const()
    if c is not None: return {'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[kind]
    neg = Poly({m: -k for m, k in p.t.items()})
    if kind == 'ge' and nonneg(p): return True
    if kind == 'ne' and (nonneg(p._add(Poly.of(1), -1)) or nonneg(neg._add(Poly.of(1), -1))): return True
    if kind == 'eq' and (nonneg(p._add(Poly.of(1), -1)) or nonneg(neg._add(Poly.of(1), -1))): return False
    key = (kind, p.skey() if cur is None or cur.temp else alpha(p), len(cur.facts) if cur else 0)
    if key in _cache: return _cache[key]
    if cur is None or (not cur.facts and kind == 'eq' and len(p.atoms()) and not any(a.args for a in p.atoms())
                       and all(a.kind in ('dim', 'var') for a in p.atoms())):
        # an equation between free symbols without facts is not valid unless ranges are singletons
        if kind == 'eq':
            _cache[key] = False
            return False
    import z3
    ng = {'ge': ('ge', neg._add(Poly.of(1), -1)), 'eq': ('ne', p), 'ne': ('eq', p)}[kind]
    s, env = solver([ng])
    s.set('timeout', cur.z3_ms if cur else 2000)
    t = time.time()
    r = s.check()
    stats['z3'] += 1
    stats['z3_s'] += time.time() - t
    _cache[key] = (r == z3.unsat)
    return _cache[key]


def alpha(p):
    """key of p up to the names of index variables (the facts in force mention dimensions only)"""
    from .poly import Poly, subs
    vs = sorted((a for a in p.allatoms() if a.kind == 'var'), key=lambda a: (len(a.name), a.name))
    if not vs: return p.skey()
    if any(a.kind in ('var', 'app', 'mod', 'div') for v in vs for a in Poly.of(v.hi).allatoms()): return p.skey()
    mp = {v: Poly.atom(avar(i, v.hi)) for i, v in enumerate(vs)}
    q = subs(p.norm(), mp)
    return (tuple((i, Poly.of(v.hi).skey()) for i, v in enumerate(vs)), Poly.of(q).skey())


_avars = {}


def avar(i, hi):
    from .poly import Poly, Atom
    k = (i, Poly.of(hi).skey())
    if k not in _avars: _avars[k] = Atom('var', f"@{i}", 0, hi, ())
    return _avars[k]


def feasible():
    import z3
    s, env = solver()
    s.set('timeout', 3000)
    t = time.time()
    r = s.check()
    stats['z3'] += 1
    stats['z3_s'] += time.time() - t
    return r != z3.unsat


def model(extra=(), small=6):
    """concrete values of the dimension symbols satisfying the path facts (small ones preferred)"""
    import z3
    s, env = solver(extra)
    dims = {a.name: x for a, x in env.items() if a.kind == 'dim'}
    s.set('timeout', 3000)
    s.push()
    s.add(*[x <= small for x in dims.values()])
    r = s.check()
    if r != z3.sat:
        s.pop()
        r = s.check()
    if r != z3.sat: return None
    m = s.model()
    return {n: m.eval(x, model_completion=True).as_long() for n, x in dims.items()}
