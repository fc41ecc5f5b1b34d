import numpy as np
import jax.numpy as jnp
from scipy.linalg import expm
from vc import oracle
from vc.case import require, Skip
from vc.zoo import CUSTOM
from .reps_common import context, feed, rec, random_case, maxdev
from .exprs import build, close


def hom(groups, e, seed=0):
    """rho(gh)=rho(g)rho(h), rho(1)=1, drho = derivative of rho along exp(tA), drho linear and a Lie homomorphism"""
    rng, recs, g, A = context(groups, seed)
    used = oracle.groups_of(e)
    r = build(e, [q.G for q in recs])
    if isinstance(r, int): raise Skip("integer")
    h = [q.sample(rng) for q in recs]
    B = [q.lie(rng) for q in recs]
    F = lambda Ms: feed(recs, used, Ms)
    rho = lambda Ms: np.asarray(r.rho_dense(F(Ms)))
    drho = lambda As: np.asarray(r.drho_dense(F(As)))
    a, b, ab = rho(g), rho(h), rho([x @ y for x, y in zip(g, h)])
    require(close(a @ b, ab), lambda: f"rho(gh) != rho(g)rho(h) for {r}: {maxdev(a @ b, ab)}")
    one = rho([np.eye(q.d) for q in recs])
    require(close(one, np.eye(len(one))), lambda: f"rho(1) != 1 for {r}")
    dA, dB = drho(A), drho(B)
    t = 1e-4
    fd = (rho([expm(t * x) for x in A]) - rho([expm(-t * x) for x in A])) / (2 * t)
    require(close(fd, dA, 1e-5), lambda: f"drho is not the derivative of rho at 1 for {r}: {maxdev(fd, dA)}")
    lin = drho([2 * x - 3 * y for x, y in zip(A, B)])
    require(close(lin, 2 * dA - 3 * dB), lambda: f"drho is not linear for {r}")
    br = drho([x @ y - y @ x for x, y in zip(A, B)])
    require(close(br, dA @ dB - dB @ dA), lambda: f"drho does not preserve the bracket for {r}")


def default_drho(group, kind, seed=0):
    """a custom representation with rho only: lazy drho applied to vectors and matrices, transposed, dense"""
    rng, (q,), g, (A,) = context([group], seed)
    r = CUSTOM[kind](q.G)
    want = q.custom(kind, 'drho', A)
    n = len(want)
    require(r.size() == n, f"size {r.size()} instead of {n}")
    op = r.drho(jnp.asarray(A))
    v = rng.standard_normal((n, 3)) + (1j * rng.standard_normal((n, 3)) if q.complex else 0)
    J = jnp.asarray
    for name, got, w in (('dense', r.drho_dense(J(A)), want), ('@matrix', op @ J(v), want @ v), ('@vector', op @ J(v[:, 0]), want @ v[:, 0]),
                         ('.T@matrix', op.T @ J(v), want.T @ v), ('.H@matrix', (op.H if hasattr(op, 'H') else op.T.conj()) @ J(v), want.conj().T @ v),
                         ('.T@vector', op.T @ J(v[:, 0]), want.T @ v[:, 0]), ('.T dense', op.T @ jnp.eye(n), want.T),
                         ('dual', r.T.drho_dense(J(A)), want if q.G.is_orthogonal else -want.T)):
        got = np.asarray(got)
        require(close(got, w), lambda: f"default drho of {kind} on {q.G}: {name} differs: {maxdev(got, w)}")
    for i, M in enumerate(q.A):
        got, w = np.asarray(r.drho_dense(q.G.lie_algebra[i])), q.custom(kind, 'drho', M)
        require(close(got, w), lambda: f"default drho of {kind} on generator {i} of {q.G}: {maxdev(got, w)}")


def cases(tier, seed):
    for s in (['SO', 2], ['SL', 2], ['U', 2], ['GL', 3], ['SO11p'], ['Sp', 1], ['*', ['SL', 2], ['SO', 2]], ['*', ['SO', 2], ['S', 2]], ['S', 3], ['SO13p']):
        for k in ('Sq', 'Det', 'Blk'):
            if k == 'Sq' and s == ['SO13p'] and tier == 'quick': continue
            yield 'default_drho', dict(group=s, kind=k, seed=5)
    V, S, D = ['V', 0], ['S'], lambda x: ['D', x]
    for g in (['SL', 2], ['SO', 3], ['SO11p'], ['U', 2], ['S', 3], ['O11']):
        for i, e in enumerate(([*['+', V, ['T', 2, 0, 0], D(V), S]], ['*', V, D(V), V], ['*', ['+', V, S], D(V)], ['^', V, 3], ['n*', 3, ['+', V, S]],
                               D(['+', V, ['T', 1, 1, 0]]), ['+', ['C', 0, 'Sq'], ['C', 0, 'Blk'], V], ['*', ['C', 0, 'Blk'], V], D(['C', 0, 'Sq']), ['C', 0, 'Det'],
                               D(['*', ['C', 0, 'Blk'], D(V)]), D(['C', 0, 'Det']))):
            yield 'hom', dict(groups=[g], e=e, seed=i)
    W = ['V', 1]
    for gs in ([['SL', 2], ['SO', 3]], [['S', 3], ['Z', 2]], [['SO11p'], ['U', 2]]):
        for i, e in enumerate((['*', V, W], ['*', W, V, D(W)], ['+', W, V, ['*', V, W]], D(['*', ['+', V, W], W]))):
            yield 'hom', dict(groups=gs, e=e, seed=i)
    rng = np.random.default_rng(4000 + seed)
    for i in range(150 if tier == 'quick' else 3000):
        g, e = random_case(rng, ['+', '*', '^', 'n*', 'D', '>>', '<<', '+n'], budget=50)
        yield 'hom', dict(groups=g, e=e, seed=int(rng.integers(1 << 30)))
