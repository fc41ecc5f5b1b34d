from unittest import mock
import numpy as np
import jax.numpy as jnp
from scipy.linalg import expm
import emlp.datasets as ds
from emlp.groups import Group
from vc.case import require, Skip
from vc.zoo import dense

DIMS = {'Inertia': lambda k: 4 * k, 'O5Synthetic': lambda k: 10, 'ParticleInteraction': lambda k: 16}
SYM = {'Inertia': ['O', 3], 'O5Synthetic': ['O', 5], 'ParticleInteraction': ['Lorentz']}


def make(name, raw, k):
    """dataset whose random inputs are the rows of raw (the code draws them from the standard normal; any draw is possible)"""
    N, dim = raw.shape
    used = []

    def randn(*s):
        require(tuple(s) == (N, dim) or int(np.prod(s)) == N * dim, f"unexpected draw of shape {s}")
        used.append(1)
        return raw.reshape(s).copy()
    with mock.patch.object(np.random, 'randn', randn):
        D = ds.Inertia(N, k) if name == 'Inertia' else getattr(ds, name)(N)
    if len(used) != 1: raise Skip("the inputs are not drawn in one piece")
    return D


def element(D, rng, scale):
    G = D.symmetry
    A = [dense(a) for a in G.lie_algebra]
    h = [dense(x) for x in G.discrete_generators]
    M = expm(sum(scale * rng.standard_normal() * a for a in A)) if A else np.eye(G.d)
    for x in h:
        if rng.random() < .5: M = M @ x
    return M


def labels(name, N, k, seed=0, scale=.7):
    rng = np.random.default_rng(seed)
    dim = DIMS[name](k)
    raw = rng.standard_normal((N, dim))
    D1 = make(name, raw, k)
    require(D1.X.shape == (N, dim) and len(D1) == N and len(D1.Y) == N, f"{name}: shapes {D1.X.shape} {D1.Y.shape}")
    g = element(D1, rng, scale)
    G = D1.symmetry
    from emlp import groups
    want = getattr(groups, SYM[name][0])(*SYM[name][1:])
    require(G == want, f"{name}: declared symmetry {G}")
    rin, rout = D1.rep_in(G), D1.rep_out(G)
    require(rin.size() == dim and rout.size() == D1.Y.shape[1], f"{name}: declared sizes {rin.size()},{rout.size()} for data {D1.X.shape},{D1.Y.shape}")
    R, Q = np.asarray(rin.rho_dense(jnp.asarray(g))), np.asarray(rout.rho_dense(jnp.asarray(g)))
    # the vector parts of the raw draw transform linearly; the code may preprocess the scalars
    raw2 = raw.copy()
    ns = k if name == 'Inertia' else 0
    raw2[:, ns:] = (raw[:, ns:].reshape(N, -1, G.d) @ g.T).reshape(N, -1)
    D2 = make(name, raw2, k)
    tol = 1e-7 * (1 + np.abs(D1.X).max())**4 * (1 + np.abs(g).max())**4
    require(np.abs(D2.X - D1.X @ R.T).max() < tol, lambda: f"{name}: the inputs of the dataset do not transform in the declared representation {D1.rep_in}")
    dev = np.abs(D2.Y - D1.Y @ Q.T).max()
    require(dev < tol, lambda: f"{name}: transforming the inputs by {g.round(3).tolist()} changes the labels by {dev} from rho_out(g) y")
    stats(name, D1, R, Q, tol)
    x, y = D1[N - 1]
    require(np.array_equal(x, D1.X[N - 1]) and np.array_equal(y, D1.Y[N - 1]), f"{name}: items")
    if N == 1: return
    # and the labels are a function of each input alone
    D3 = make(name, raw[::-1].copy(), k)
    require(np.abs(D3.Y[::-1] - D1.Y).max() < tol, f"{name}: the label of an input depends on the other inputs")


def stats(name, D, R, Q, tol):
    st = D.stats
    require(len(st) in (2, 4), f"{name}: {len(st)} statistics")
    for (mu, s), M, what in (((st[0], st[1]), R, 'input'), *((((st[2], st[3]), Q, 'output'),) if len(st) == 4 else ())):
        n = len(M)
        mu, s = np.broadcast_to(np.asarray(mu, float), (n,)), np.broadcast_to(np.asarray(s, float), (n,))
        require(np.isfinite(mu).all() and np.isfinite(s).all() and ((s > 0).all() or len(D) < 2), f"{name}: {what} statistics {mu} {s}")
        t = max(tol, 1e-7 * (1 + np.abs(M).max()) * (np.abs(mu).max() + np.abs(s).max()))
        require(np.abs(M @ mu - mu).max() < t, lambda: f"{name}: the {what} shift is not invariant under the group")
        require(np.abs(M * s[None] - s[:, None] * M).max() < t, lambda: f"{name}: the {what} scale does not commute with the group")


def cases(tier, seed):
    q = tier == 'quick'
    rng = np.random.default_rng(18000 + seed)
    for i in range(30 if q else 300):
        for name in DIMS:
            yield 'labels', dict(name=name, N=int(rng.integers(1, 30)), k=int(rng.integers(1, 8)), seed=int(rng.integers(1 << 30)), scale=[.7, 2., .1][i % 3] if name != 'ParticleInteraction' else [.3, .6, .1][i % 3])
