"""Concrete checks shared by C01-C03: a representation expression against the dense oracle."""
import numpy as np
import jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from vc.zoo import Rec, dense, SMALL, NONORTH
from .exprs import build, close, rand_expr

_recs = {}


def rec(spec):
    k = repr(spec)
    if k not in _recs: _recs[k] = Rec(spec)
    return _recs[k]


def context(groups, seed):
    rng = np.random.default_rng(seed)
    recs = [rec(s) for s in groups]
    Ms = [r.sample(rng) for r in recs]
    As = [r.lie(rng) for r in recs]
    return rng, recs, Ms, As


def feed(recs, used, Ms):
    """argument of rho: a matrix for one group, a mapping for several"""
    if len({recs[i].G for i in used}) <= 1:
        i = min(used) if used else 0
        return jnp.asarray(Ms[i])
    return {recs[i].G: jnp.asarray(Ms[i]) for i in range(len(recs))}


def expr(groups, e, seed=0, twice=False):
    """size, rho and drho of the built representation against the oracle"""
    rng, recs, Ms, As = context(groups, seed)
    used = oracle.groups_of(e)
    r = build(e, [q.G for q in recs])
    if isinstance(r, int): raise Skip("integer")
    compare(r, e, recs, used, Ms, As, rng)
    if len(used) <= 1 and recs:   # the generators themselves, which may be lazy operators
        i = min(used) if used else 0
        q = recs[i]
        for k in range(min(2, len(q.h))):
            k = len(q.h) - 1 - k
            got, want = np.asarray(r.rho_dense(q.G.discrete_generators[k])), oracle.terms(e, 'rho', recs, [q.h[k]] * len(recs))
            require(close(got, want), lambda: f"rho of discrete generator {k} of {q.G} in {r} differs: {maxdev(got, want)}")
        for k in range(min(1, len(q.A))):
            k = len(q.A) - 1 - k
            got, want = np.asarray(r.drho_dense(q.G.lie_algebra[k])), oracle.terms(e, 'drho', recs, [q.A[k]] * len(recs))
            require(close(got, want), lambda: f"drho of Lie algebra generator {k} of {q.G} in {r} differs: {maxdev(got, want)}")
    if twice: compare(r.T.T, e, recs, used, Ms, As, rng, 'r.T.T')


def compare(r, e, recs, used, Ms, As, rng, what='r'):
    n = oracle.size(e, recs)
    require(r.size() == n, lambda: f"size({what}={r}) = {r.size()}, expected {n}")
    want = oracle.terms(e, 'rho', recs, Ms)
    got = np.asarray(r.rho_dense(feed(recs, used, Ms)))
    require(close(got, want), lambda: f"rho_dense of {what}={r} differs from the dense matrix of the expression: "
            f"max deviation {maxdev(got, want)} at {where(got, want)}")
    lazy = r.rho(feed(recs, used, Ms))
    v = rng.standard_normal((n, 3))
    require(close(np.asarray(lazy @ jnp.asarray(v)), want @ v), lambda: f"rho({what})@matrix of {what}={r} differs")
    require(close(np.asarray(lazy @ jnp.asarray(v[:, 0])), want @ v[:, 0]), lambda: f"rho({what})@vector of {what}={r} differs")
    want = oracle.terms(e, 'drho', recs, As)
    got = np.asarray(r.drho_dense(feed(recs, used, As)))
    require(close(got, want), lambda: f"drho_dense of {what}={r} differs from the dense matrix: max deviation "
            f"{maxdev(got, want)} at {where(got, want)}")
    lazy = r.drho(feed(recs, used, As))
    require(close(np.asarray(lazy @ jnp.asarray(v)), want @ v), lambda: f"drho({what})@matrix of {what}={r} differs")


def maxdev(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return f"(shape {a.shape} instead of {b.shape})" if a.shape != b.shape else np.abs(a - b).max()


def where(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return None if a.shape != b.shape else tuple(int(x) for x in np.argwhere(~np.isclose(a, b, atol=1e-6))[0]) if \
        (~np.isclose(a, b, atol=1e-6)).any() else None


def linmap(groups, e1, e2, seed=0):
    """V>>W and W<<V act on row-major flattened matrices A by rho_W A rho_V^-1"""
    rng, recs, Ms, As = context(groups, seed)
    used = oracle.groups_of(e1) | oracle.groups_of(e2)
    Gs = [q.G for q in recs]
    a, b = oracle.terms(e1, 'rho', recs, Ms), oracle.terms(e2, 'rho', recs, Ms)
    A = rng.standard_normal((b.shape[0], a.shape[0]))
    for name, r in (('V>>W', build(e1, Gs) >> build(e2, Gs)), ('W<<V', build(e2, Gs) << build(e1, Gs)),
                    ('W*V.T', build(e2, Gs) * build(e1, Gs).T)):
        got = np.asarray(r.rho_dense(feed(recs, used, Ms)) @ jnp.asarray(A.reshape(-1)))
        require(close(got, (b @ A @ np.linalg.inv(a)).reshape(-1)), lambda: f"{name} = {r} does not act by rho_W A rho_V^-1 on the row-major flattening")


def dims(groups, rng, k):
    return sorted(set(int(x) for x in rng.integers(0, len(groups), k)))


def random_groups(rng, k, nonorth=False):
    pool = NONORTH if nonorth else SMALL
    out = []
    for i in rng.permutation(len(pool)):
        if len(out) < k: out.append(pool[int(i)])
    return out


def random_case(rng, roots, custom=True, budget=60):
    """(groups, e) with a root operator among roots"""
    k = int(rng.choice([1, 1, 1, 2, 2, 3]))
    gs = random_groups(rng, k, nonorth=rng.random() < .4)
    recs = [rec(s) for s in gs]
    root = str(rng.choice(roots))
    R = lambda: rand_expr(rng, list(range(k)), int(rng.integers(0, 3)), 12, recs, custom=custom and k == 1)
    for _ in range(300):
        if root == '+': e = ['+'] + [R() for _ in range(int(rng.integers(2, 6)))]
        elif root == '*': e = ['*'] + [R() for _ in range(int(rng.integers(2, 4)))]
        elif root == '^': e = ['^', R(), int(rng.integers(0, 4))]
        elif root in ('n*', 'n+'): e = [root, int(rng.integers(1 if root == 'n*' else 0, 9)), R()]
        elif root in ('*n', '+n'): e = [root, R(), int(rng.integers(1 if root == '*n' else 0, 9))]
        elif root == 'D': e = ['D', R()]
        elif root == 'DD': e = ['D', ['D', R()]]
        else: e = [root, R(), R()]
        if oracle.size(e, recs) <= budget: break
    else: e = ['+', ['V', 0], ['V', 0]]
    return gs, e
