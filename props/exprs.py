"""Random representation expressions, and their construction with the real library."""
import numpy as np
from vc import oracle
from vc.zoo import Rec, CUSTOM, V, Scalar, T


def rand_expr(rng, gis, depth, budget, recs, custom=True, ints=True, dual=True, allow_prod=True):
    """expression over the groups gis with size <= budget"""
    for _ in range(200):
        e = _rand(rng, gis, depth, recs, custom, ints, dual, allow_prod)
        if oracle.size(e, recs) <= budget: return e
    return ['V', gis[0]]


def _rand(rng, gis, depth, recs, custom, ints, dual, ap):
    R = lambda: _rand(rng, gis, depth - 1, recs, custom, ints, dual, ap)
    gi = int(rng.choice(gis))
    if depth == 0:
        x = rng.random()
        if x < .12: return ['S']
        if x < .2 and custom: return ['C', gi, str(rng.choice(list(CUSTOM)))]
        if x < .3: return ['T', int(rng.integers(0, 3)), int(rng.integers(0, 2)) if dual else 0, gi]
        if x < .45 and dual: return ['D', ['V', gi]]
        return ['V', gi]
    ops = ['+'] * 6 + (['*'] * 4 if ap else []) + (['^'] if ap else []) + (['n*', '*n', 'n+', '+n'] if ints else []) + \
        (['D'] * 2 + (['>>', '<<'] if ap else []) if dual else []) + ['leaf']
    k = str(rng.choice(ops))
    if k == 'leaf': return _rand(rng, gis, 0, recs, custom, ints, dual, ap)
    if k == '+': return ['+'] + [R() for _ in range(int(rng.integers(2, 5)))]
    if k == '*': return ['*'] + [R() for _ in range(int(rng.integers(2, 4)))]
    if k == '^': return ['^', R(), int(rng.integers(0, 4))]
    if k == 'n*': return ['n*', int(rng.integers(1, 4)), R()]
    if k == '*n': return ['*n', R(), int(rng.integers(1, 4))]
    if k == 'n+': return ['n+', int(rng.integers(0, 4)), R()]
    if k == '+n': return ['+n', R(), int(rng.integers(0, 4))]
    if k == 'D': return ['D', R()]
    return [k, R(), R()]


def build(e, Gs, paren=None):
    """real representation. Gs: list of group objects, or None entries for symbolic construction"""
    k = e[0]
    B = lambda x: build(x, Gs)
    if k == 'V': return V(Gs[e[1]]) if Gs[e[1]] is not None else V
    if k == 'S': return Scalar
    if k == 'C': return CUSTOM[e[2]](Gs[e[1]])
    if k == 'T': return T(e[1], e[2], Gs[e[3]]) if Gs[e[3]] is not None else T(e[1], e[2])
    if k == '+':
        r = B(e[1])
        for x in e[2:]: r = r + B(x)
        return r
    if k == '*':
        r = B(e[1])
        for x in e[2:]: r = r * B(x)
        return r
    if k == '^': return B(e[1])**e[2]
    if k == 'n*': return e[1] * B(e[2])
    if k == '*n': return B(e[1]) * e[2]
    if k == 'n+': return e[1] + B(e[2])
    if k == '+n': return B(e[1]) + e[2]
    if k == 'D': return B(e[1]).T
    if k == '>>': return B(e[1]) >> B(e[2])
    if k == '<<': return B(e[1]) << B(e[2])
    raise KeyError(k)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if a.size == 0: return True
    s = 1 + np.abs(b).max()
    return bool(np.isfinite(a).all() and np.abs(a - b).max() <= tol * s)
