import numpy as np
import jax, jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from emlp.reps import bilinear_weights
from .reps_common import context
from .exprs import build, close, rand_expr

V, S, D, W = ['V', 0], ['S'], lambda x: ['D', x], ['V', 1]


def summands(e):
    """constituents in the order written, as (kind, expr); None when the expression is not a plain sum"""
    k = e[0]
    if k == '+':
        out = [summands(x) for x in e[1:]]
        return None if any(o is None for o in out) else sum(out, [])
    if k in ('n*', '*n'):
        n, x = (e[1], e[2]) if k == 'n*' else (e[2], e[1])
        o = summands(x)
        return None if o is None else o * n
    if k in ('n+', '+n'):
        n, x = (e[1], e[2]) if k == 'n+' else (e[2], e[1])
        o = summands(x)
        return None if o is None else ([['S']] * n + o if k == 'n+' else o + [['S']] * n)
    if k in ('V', 'S', 'T', 'C'): return [e]
    if k == 'D' and e[1][0] in ('V', 'S'): return [e]
    return None


def ttype(e, orth):
    """tensor type (p,q) of a tensor summand of one group"""
    if e[0] == 'S': p, q = 0, 0
    elif e[0] == 'V': p, q = 1, 0
    elif e[0] == 'T': p, q = e[1], e[2]
    elif e[0] == 'D': p, q = ttype(e[1], False)[::-1]
    else: return None
    return (p + q, 0) if orth else (p, q)


def bil(groups, ein, eout, seed=0, shape=(3,)):
    rng, recs, g, _ = context(groups, seed)
    Gs = [q.G for q in recs]
    rin, rout = build(ein, Gs), build(eout, Gs)
    if isinstance(rin, int) or isinstance(rout, int): raise Skip("integer")
    n, m = oracle.size(ein, recs), oracle.size(eout, recs)
    if n == 0 or m == 0: raise Skip("empty representation")
    K, proj = bilinear_weights(rout, rin)
    K = int(K)
    cplx = any(q.complex for q in recs)
    rnd = lambda *s: rng.standard_normal(s) + (1j * rng.standard_normal(s) if cplx else 0)
    x = rnd(*shape, n)
    w = rnd(K)
    f = lambda w, x: np.asarray(proj(jnp.asarray(w), jnp.asarray(x)))
    Wx = f(w, x)
    require(Wx.shape == (*shape, m, n), f"weights of shape {Wx.shape} instead of {(*shape, m, n)} for {rin} -> {rout}")
    R, Q = oracle.terms(ein, 'rho', recs, g), oracle.terms(eout, 'rho', recs, g)
    want = np.einsum('ij,...jk,kl->...il', Q, Wx, np.linalg.inv(R))
    got = f(w, x @ R.T)
    require(close(got, want, 1e-5), lambda: f"W(rho_in(g)x) != rho_out(g)W(x)rho_in(g)^-1 for {rin} -> {rout} (groups {groups}): {np.abs(got-want).max()}")
    # one element at a time
    flat = x.reshape(-1, n)
    each = np.array([f(w, v) for v in flat]).reshape(*shape, m, n) if len(flat) else np.zeros((*shape, m, n))
    require(close(Wx, each), lambda: f"batched weights differ from the weights of each element for {rin} -> {rout}, batch shape {shape}")
    # linear in the parameters, every parameter matters, nothing beyond the announced number is used
    y = rnd(n)
    J = np.array([f(e, y) for e in np.eye(K)]).reshape(K, m, n) if K else np.zeros((0, m, n))
    require(close(f(w, y), np.einsum('k,kij->ij', w, J)), lambda: f"the weights are not linear in the parameters: {rin} -> {rout}")
    dead = [k for k in range(K) if np.abs(J[k]).max() < 1e-9]
    require(not dead, lambda: f"parameters {dead[:5]} of {K} of {rin} -> {rout} do not influence the weights")
    if K:
        more = f(np.concatenate([w, 100 + rnd(4)]), y)
        require(close(more, f(w, y)), lambda: f"more than the announced {K} parameters are used for {rin} -> {rout}")
    # blocks: zero without matching input part, each parameter multiplies a part of the input
    sin, sout = summands(ein), summands(eout)
    if sin is not None and sout is not None and len(groups) == 1 and not any(s[0] == 'C' for s in sin + sout):
        orth = bool(recs[0].G.is_orthogonal)
        have = {ttype(s, orth) for s in sin} - {(0, 0)}
        count = {}
        for s in sin: count[ttype(s, orth)] = count.get(ttype(s, orth), 0) + 1
        i, total, Wy = 0, 0, f(w, y)
        for o in sout:
            j, a = 0, oracle.size(o, recs)
            for s in sin:
                b = oracle.size(s, recs)
                to, ts = ttype(o, orth), ttype(s, orth)
                t = (to[0] + ts[0], 0) if orth else (to[0] + ts[1], to[1] + ts[0])
                blk = Wy[i:i + a, j:j + b]
                if t not in have:
                    require(np.abs(blk).max() == 0, lambda: f"block {o} <- {s} of {rin} -> {rout} has no matching input part and is not zero")
                else:
                    total += min(count[t], a * b)
                    require(np.abs(blk).max() > 1e-9, lambda: f"block {o} <- {s} of {rin} -> {rout} is zero although the input has a part of type {t}")
                j += b
            i += a
        require(total == K, lambda: f"{rin} -> {rout} announces {K} weights, its blocks have {total}")


def cases(tier, seed):
    q = tier == 'quick'
    T = lambda p, r: ['T', p, r, 0]
    E = [(['+', V, T(2, 0)], ['+', V, T(2, 0), S]), (['+', S, V, S, T(2, 0), V], ['+', T(2, 0), V, ['n*', 3, S]]), (['+', T(1, 1), V, D(V)], ['+', D(V), S, T(1, 1), T(0, 2)]),
         (['n*', 5, V], ['+', ['n*', 2, V], ['n*', 3, S]]), (V, V), (V, S), (S, V), (['+', V, S], V), (T(2, 0), V), (V, T(1, 1)), (['+', T(3, 0), V], ['+', V, T(2, 0)]),
         (['*', ['+', V, S], ['+', V, S]], ['+', V, T(2, 0)]), (['+', ['*', V, D(V)], V], ['+', ['*', D(V), V], T(2, 0)]), (['n*', 7, S], ['n*', 2, S]), (['+', D(V), V, D(V)], ['+', V, D(V), V, S])]
    gs = [['SO', 2], ['SO', 3], ['SL', 2], ['S', 3], ['O11'], ['Z', 3], ['U', 2], ['D', 3]]
    shapes = [(3,), (), (2, 2), (1,), (0,), (2, 1, 3)]
    for gi, g in enumerate(gs):
        for i, (a, b) in enumerate(E):
            if g == ['SO', 3] and a == E[10][0] and q: continue
            yield 'bil', dict(groups=[g], ein=a, eout=b, seed=i, shape=list(shapes[(i + gi) % 6]))
    for i, (a, b) in enumerate(((['+', V, W], ['+', W, V, S]), (['+', ['*', V, W], V], ['+', W, ['*', W, V]]), (['+', ['*', V, W], W, V], ['+', V, ['*', V, W]]), (['*', ['+', V, S], ['+', W, S]], ['+', V, W]))):
        for g in ([['SO', 2], ['S', 3]], [['SL', 2], ['SO', 2]], [['Z', 2], ['S', 2]]):
            yield 'bil', dict(groups=g, ein=a, eout=b, seed=i, shape=list(shapes[i % 6]))
    for i, (a, b) in enumerate(((['+', ['C', 0, 'Sq'], V], ['+', V, ['C', 0, 'Sq']]), (['+', ['C', 0, 'Blk'], V, S], ['+', S, ['C', 0, 'Blk']]))):
        for g in (['SO', 2], ['SL', 2]): yield 'bil', dict(groups=[g], ein=a, eout=b, seed=i, shape=[2])
    rng = np.random.default_rng(12000 + seed)
    for _ in range(90 if q else 1500):
        g = [['SO', 2], ['SL', 2], ['S', 3], ['O11'], ['U', 2], ['Z', 2], ['SO', 3]][int(rng.integers(7))]
        from .reps_common import rec
        r = [rec(g)]
        a, b = (rand_expr(rng, [0], int(rng.integers(1, 3)), 14, r, custom=False) for _ in range(2))
        yield 'bil', dict(groups=[g], ein=a, eout=b, seed=int(rng.integers(1 << 30)), shape=list(shapes[int(rng.integers(6))]))
