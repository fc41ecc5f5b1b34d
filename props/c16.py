import copy
import numpy as np
import jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from vc.zoo import dense
from .reps_common import context, rec, maxdev
from .exprs import build, close, rand_expr

V, S, D = ['V', 0], ['S'], lambda x: ['D', x]


def snap(r, depth=0):
    """observable state of a symbolic expression"""
    if isinstance(r, (list, tuple)): return [snap(x) for x in r]
    if isinstance(r, dict): return sorted((str(snap(k)), str(snap(v))) for k, v in r.items())
    if isinstance(r, np.ndarray) or hasattr(r, 'tolist'): return np.asarray(r).tolist()
    if hasattr(r, '__dict__') and depth < 8: return (type(r).__name__, sorted((k, repr(snap(v, depth + 1))) for k, v in vars(r).items() if not k.startswith('_')))
    return repr(r)


def inst(group_list, e, seed=0):
    """one symbolic expression applied to each of the groups in turn, also again"""
    rng, recs, Ms, As = context(group_list, seed)
    r = build(e, [None])
    if isinstance(r, int): raise Skip("integer")
    text = str(r)
    for i in list(range(len(recs))) + [0]:
        q, M, A = recs[i], Ms[i], As[i]
        got = r(q.G)
        n = oracle.size(e, [q])
        require(got.size() == n, lambda: f"({r})({q.G}) has size {got.size()} instead of {n}")
        want, wantd = oracle.terms(e, 'rho', [q], [M]), oracle.terms(e, 'drho', [q], [A])
        R, dR = np.asarray(got.rho_dense(jnp.asarray(M))), np.asarray(got.drho_dense(jnp.asarray(A)))
        require(close(R, want), lambda: f"({text})({q.G}) does not act as the expression: {maxdev(R, want)}")
        require(close(dR, wantd), lambda: f"({text})({q.G}): drho differs from the expression: {maxdev(dR, wantd)}")
        direct = build(e, [q.G])
        if not isinstance(direct, int):
            require(direct.size() == got.size(), "size of the directly built representation")
            Rd = np.asarray(direct.rho_dense(jnp.asarray(M)))
            require(close(Rd, R), lambda: f"({text})({q.G}) differs from the representation built from {q.G} directly")
            if n and n < 30:
                B, Bd = dense(got.equivariant_basis()), dense(direct.equivariant_basis())
                require(B.shape == Bd.shape and close(B @ B.conj().T, Bd @ Bd.conj().T, 1e-4), lambda: f"({text})({q.G}): solution space differs from the one of the direct construction")
        require(str(r) == text, lambda: f"applying {text} to {q.G} changed the expression to {r}")
    # the expression can be used inside of others afterwards
    q, M = recs[-1], Ms[-1]
    e2 = ['+', e, V, e]
    r2 = r + build(V, [None]) + r
    R2 = np.asarray(r2(q.G).rho_dense(jnp.asarray(M)))
    require(close(R2, oracle.terms(e2, 'rho', [q], [M])), lambda: f"{text} reused in a sum after it was applied to {q.G} differs")


def cases(tier, seed):
    q = tier == 'quick'
    T = lambda p, r: ['T', p, r, 0]
    E = [V, S, D(V), ['+', V, S], ['+', T(2, 0), V, S], ['*', V, V], ['*', V, D(V)], ['*', D(V), V], ['^', V, 2], ['^', V, 3], ['^', ['+', V, S], 2], ['n*', 3, V], ['*n', V, 2], ['n+', 2, V], ['+n', T(2, 0), 1],
         T(0, 0), T(1, 1), T(2, 1), T(0, 2), D(['+', T(2, 0), D(V), S]), ['*', ['+', V, S], ['+', D(V), S]], ['>>', V, ['+', V, S]], ['<<', T(1, 1), V], ['n*', 2, ['+', ['*', V, V], S, ['n*', 2, V]]],
         ['+', ['*', V, D(V)], ['*', D(V), V]], ['*', ['*', V, ['+', S, V]], D(V)], ['+', ['C', 0, 'Sq'], V], ['*', ['C', 0, 'Blk'], V], D(['C', 0, 'Blk']), ['+', D(V), V, D(V), S, V], D(['*', ['+', V, S], V]),
         ['+', ['+', S, V], ['n*', 2, ['+', V, S]]], D(D(['+', S, T(1, 1), V]))]
    gl = [[['SO', 2], ['SL', 2]], [['SL', 2], ['S', 3], ['O11']], [['S', 3], ['SO', 3]], [['U', 2], ['SO', 2]]]
    for i, e in enumerate(E):
        for j, g in enumerate(gl):
            if q and (i + j) % 2: continue
            yield 'inst', dict(group_list=g, e=e, seed=i)
    rng = np.random.default_rng(16000 + seed)
    zoo = [['SO', 2], ['SL', 2], ['S', 3], ['O11'], ['Z', 2], ['SO', 3], ['U', 2], ['Sp', 1], ['D', 3], ['Scaling', 2], ['*', ['SO', 2], ['Z', 2]], ['Trivial', 2]]
    for _ in range(130 if q else 3000):
        g = [zoo[i] for i in rng.choice(len(zoo), int(rng.integers(1, 4)), replace=False)]
        e = rand_expr(rng, [0], int(rng.integers(1, 4)), 40, [max((rec(x) for x in g), key=lambda r: r.d)], custom=bool(rng.random() < .3))
        yield 'inst', dict(group_list=g, e=e, seed=int(rng.integers(1 << 30)))
