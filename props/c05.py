import numpy as np
import jax, jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from .reps_common import rec, random_case
from .exprs import build, close
from .solve_common import check, todense

X64 = lambda: jax.config.jax_enable_x64


def solve(groups, e, seed=0):
    recs = [rec(s) for s in groups]
    r = build(e, [q.G for q in recs])
    if isinstance(r, int): raise Skip('integer')
    check(r, e, recs, tol=1e-6 if X64() else 1e-3)


def apply_lazy(groups, e, seed=0):
    """basis and projector as operators on vectors and on matrices with several columns"""
    recs = [rec(s) for s in groups]
    rng = np.random.default_rng(seed)
    r = build(e, [q.G for q in recs])
    n = r.size()
    P, Q = r.equivariant_projector(), r.equivariant_basis()
    Pd, Qd = todense(P, n), todense(Q, n)
    for X, Xd in ((P, Pd), (Q, Qd)):
        for shape in ((Xd.shape[1],), (Xd.shape[1], 1), (Xd.shape[1], 4)):
            if not Xd.shape[1]: continue
            v = rng.standard_normal(shape)
            got = np.asarray(X @ jnp.asarray(v))
            require(close(got, Xd @ v, 1e-3), f"{'P' if X is P else 'Q'} of {r} applied to shape {shape} differs from its dense form")


def complement(m, n, rank, seed=0, cplx=False, scale=1.0):
    """orthogonal_complement of a random constraint matrix of known rank"""
    from emlp.reps.representation import orthogonal_complement
    rng = np.random.default_rng(seed)
    g = lambda *s: rng.standard_normal(s) + (1j * rng.standard_normal(s) if cplx else 0)
    C = scale * g(m, rank) @ g(rank, n) if rank else np.zeros((m, n))
    Q = np.asarray(orthogonal_complement(jnp.asarray(C)))
    N = oracle.nullspace(C)
    require(Q.shape == N.shape, lambda: f"orthogonal_complement of a {m}x{n} matrix of rank {rank}: shape {Q.shape} instead of {N.shape}")
    require(close(Q @ Q.conj().T, N @ N.conj().T, 1e-3), "orthogonal_complement is not the orthogonal complement of the row space")
    require(close(Q.conj().T @ Q, np.eye(Q.shape[1]), 1e-3), "orthogonal_complement is not orthonormal")


def spread(m, n, sv, seed=0, cplx=False):
    """orthogonal_complement of a matrix with given nonzero singular values of very different size"""
    from emlp.reps.representation import orthogonal_complement
    rng = np.random.default_rng(seed)
    q = lambda k: np.linalg.qr(rng.standard_normal((k, k)) + (1j * rng.standard_normal((k, k)) if cplx else 0))[0]
    r = len(sv)
    W = q(n)
    C = q(m)[:, :r] @ np.diag(sv) @ W[:, :r].conj().T
    Q = np.asarray(orthogonal_complement(jnp.asarray(C)))
    require(Q.shape == (n, n - r), lambda: f"orthogonal_complement of a {m}x{n} matrix with singular values {sv}: shape {Q.shape}")
    require(close(Q @ Q.conj().T, W[:, r:] @ W[:, r:].conj().T, 3e-2), "orthogonal_complement is not the orthogonal complement of the row space")


def cases(tier, seed):
    V, S, D = ['V', 0], ['S'], lambda x: ['D', x]
    T = lambda p, q=0, g=0: ['T', p, q, g]
    gs = (['SL', 2], ['SO', 3], ['O', 2], ['S', 3], ['Z', 3], ['SO11p'], ['U', 2], ['SU', 2], ['Sp', 1], ['O11'], ['GL', 2], ['Trivial', 2], ['C', 4],
          ['D', 3], ['Scaling', 2], ['*', ['SO', 2], ['Z', 2]], ['Embed', ['SO', 2], 3, [2]], ['SO13p'], ['O13'], ['SU', 3], ['Mats', [[[0, 1], [0, 0]]], []])
    for g in gs:
        d = rec(g).d
        for i, e in enumerate((V, ['>>', V, V], T(2), T(3), T(2, 1), ['+', V, S, T(2), V], ['>>', ['+', V, S], ['+', S, V, V]], D(['+', T(2), S]),
                               ['*', V, D(V)], ['+', T(1, 1), T(2), D(T(1, 1)), ['n*', 2, S]], S, ['n*', 3, S], ['*', ['+', V, D(V), S], V],
                               ['C', 0, 'Sq'], ['+', ['C', 0, 'Blk'], V, ['C', 0, 'Det']], ['>>', ['C', 0, 'Blk'], V])):
            if oracle.size(e, [rec(g)]) <= (70 if tier == 'quick' else 300): yield 'solve', dict(groups=[g], e=e, seed=i)
    W = ['V', 1]
    for p in ([['SL', 2], ['SO', 3]], [['S', 3], ['Z', 2]], [['SO11p'], ['SL', 2]], [['U', 2], ['SU', 2]], [['SO', 2], ['O', 2]]):
        for i, e in enumerate((['*', V, W], ['*', W, V, V, W], ['*', V, W, V, W], ['+', W, ['*', V, V], V, ['*', W, W]], ['*', ['+', V, S], ['+', W, S]],
                               ['>>', ['+', V, W], ['+', W, V]], ['*', W, T(1, 1)], D(['*', W, V, V]))):
            if oracle.size(e, [rec(s) for s in p]) <= (80 if tier == 'quick' else 300): yield 'solve', dict(groups=p, e=e, seed=i)
    for i, (g, e) in enumerate((([['S', 3]], ['+', T(2), V, S, V]), ([['SL', 2]], ['>>', ['+', V, S], ['+', S, V]]), ([['SO', 2], ['Z', 2]], ['*', ['+', V, S], W, W]),
                                ([['U', 2]], ['+', ['*', V, D(V)], T(1, 1), S]), ([['SO', 3], ['S', 2]], ['*', W, V, W, V]))):
        yield 'apply_lazy', dict(groups=g, e=e, seed=i)
    z = lambda *es: [[[dict(((i, j), v) for i, j, v in es).get((a, b), 0) for b in range(4)] for a in range(4)]][0]
    for big, small in ((20., 2e-3), (1., 1e-3), (5., 5e-4)):   # generators of very different magnitude
        yield 'solve', dict(groups=[['Mats', [z((0, 1, big), (1, 0, -big)), z((2, 3, small), (3, 2, -small))], []]], e=V, seed=1)
        yield 'solve', dict(groups=[['Mats', [z((0, 0, big), (1, 1, small))], []]], e=['+', V, S], seed=1)
    for i, sv in enumerate(([20, 1, 2e-3], [1, 1e-3], [5e-3, 1e-3, 5e-4], [2e-3], [10, 10, 2e-3], [1e-3] * 4)):
        yield 'spread', dict(m=5, n=6, sv=list(map(float, sv)), seed=i, cplx=bool(i % 2))
        yield 'spread', dict(m=7, n=4, sv=list(map(float, sv)), seed=i, cplx=bool(i % 2))
    rng = np.random.default_rng(5000 + seed)
    for i in range(40):
        m, n = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        yield 'complement', dict(m=m, n=n, rank=int(rng.integers(0, min(m, n) + 1)), seed=i, cplx=bool(i % 3 == 2), scale=float([1, .1, 3][i % 3]))
    for i in range(200 if tier == 'quick' else 3000):
        g, e = random_case(rng, ['+', '*', '^', 'n*', 'D', '>>', '<<'], budget=50)
        yield 'solve', dict(groups=g, e=e, seed=int(rng.integers(1 << 30)))
