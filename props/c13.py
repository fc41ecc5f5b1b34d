import numpy as np
import jax, jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
import emlp.nn.objax as nno
from emlp.nn import gated, gate_indices
from .reps_common import context, rec
from .exprs import build, close, rand_expr
from .c12 import summands

V, S, D, W = ['V', 0], ['S'], lambda x: ['D', x], ['V', 1]
sig = lambda x: 1 / (1 + np.exp(-x))


def nonlin(rep, fw):
    if fw == 'objax': return lambda x: np.asarray(nno.GatedNonlinearity(rep)(jnp.asarray(x)))
    if fw == 'haiku':
        from emlp.nn.haiku import GatedNonlinearity as H
        return lambda x: np.asarray(H(rep)(jnp.asarray(x)))
    if fw == 'flax':
        from emlp.nn.flax import GatedNonlinearity as Fl
        return lambda x: np.asarray(Fl(rep).apply({}, jnp.asarray(x)))
    import torch
    from emlp.nn.pytorch import GatedNonlinearity as P
    return lambda x: P(rep)(torch.tensor(np.asarray(x))).detach().numpy()


def is_perm(e, recs):
    """the constituent is acted on by permutations (as the code can know it): all its groups are"""
    return all(bool(recs[i].G.is_permutation) for i in oracle.groups_of(e)) and 'C' not in str(e)


def gate(groups, e, seed=0, fw='objax', shape=(3,)):
    rng, recs, g, _ = context(groups, seed)
    if any(q.complex for q in recs): raise Skip("complex")
    r = build(e, [q.G for q in recs])
    if isinstance(r, int): raise Skip("integer")
    n = oracle.size(e, recs)
    if n == 0: raise Skip("empty representation")
    gr = gated(r)
    N = gr.size()
    f = nonlin(r, fw)
    R = oracle.terms(e, 'rho', recs, g)
    # the gated representation is the representation followed by scalars
    used = oracle.groups_of(e)
    from .reps_common import feed
    GR = np.asarray(gr.rho_dense(feed(recs, used, g)))
    require(close(GR, oracle.bd([R] + [np.eye(N - n)])), lambda: f"gated({r}) does not act as {r} followed by {N-n} scalars")
    v = rng.standard_normal((*shape, N)) * 2
    out = f(v)
    require(out.shape == (*shape, n), f"output shape {out.shape} instead of {(*shape, n)}")
    got, want = f(v @ GR.T), out @ R.T
    require(close(got, want, 1e-5), lambda: f"gating of {r} ({fw}) does not commute with the group {groups}: {np.abs(got-want).max()}")
    # every component is multiplied by the sigmoid of one entry: find it
    x = rng.standard_normal(N) * 2
    y = f(x)
    ratio = y / x[:n]
    src = np.abs(ratio[:, None] - sig(x)[None]).argmin(1)
    require(np.abs(ratio - sig(x)[src]).max() < 1e-5, lambda: f"a component of the gated nonlinearity of {r} is not its input times the sigmoid of an input")
    ss = summands(e)
    if ss is None and e[0] == '*' and all(z[0] == 'V' or (z[0] == 'D' and z[1][0] == 'V') for z in e[1:]): ss = [e]
    if ss is not None:
        want_src, i, k = np.zeros(n, int), 0, n
        for s in ss:
            a = oracle.size(s, recs)
            scal = s[0] == 'S' or (s[0] == 'T' and s[1] + s[2] == 0) or (s[0] == 'D' and s[1][0] == 'S')
            if scal or is_perm(s, recs): want_src[i:i + a] = np.arange(i, i + a)
            else:
                want_src[i:i + a] = -1
            i += a
        ngates = sum(1 for s in ss if not (s[0] == 'S' or (s[0] == 'T' and s[1] + s[2] == 0) or (s[0] == 'D' and s[1][0] == 'S') or is_perm(s, recs)))
        require(N - n == ngates, lambda: f"gated({r}) appends {N-n} scalars instead of {ngates}")
        own = want_src >= 0
        require((src[own] == want_src[own]).all(), lambda: f"scalars/permutation parts of {r} are not gated by themselves: {src.tolist()}")
        i, seen = 0, set()
        for s in ss:
            a = oracle.size(s, recs)
            if a and not own[i:i + a].any():
                gs_ = set(src[i:i + a].tolist())
                require(len(gs_) == 1 and min(gs_) >= n and not gs_ & seen, lambda: f"a tensor of {r} does not have its own gate: {src.tolist()}")
                seen |= gs_
            i += a
        require(len(seen) == ngates, lambda: f"{len(seen)} of the {ngates} gates of {r} are used")
    else:
        for j in range(n): require(src[j] == j or src[j] >= n, lambda: f"component {j} of {r} is gated by component {src[j]}")
        require(set(range(n, N)) <= set(src.tolist()), lambda: f"gates {sorted(set(range(n,N))-set(src.tolist()))} of gated({r}) are not used")


def cases(tier, seed):
    q = tier == 'quick'
    T = lambda p, r: ['T', p, r, 0]
    E = [V, S, T(2, 0), T(1, 1), D(V), ['+', V, S], ['+', S, V, T(2, 0), S, V], ['+', T(2, 0), D(V), S, V, T(1, 1), V], ['n*', 4, V], ['n*', 3, S], ['*', V, D(V)], ['+', V, V, ['*', V, V], S],
         ['*', ['+', V, S], ['+', V, S]], ['+', ['n+', 2, V], T(3, 0)] , D(['+', V, T(2, 0), S]), ['+', ['C', 0, 'Sq'], V, S], ['C', 0, 'Blk'], ['>>', ['+', V, S], ['+', S, V]], ['+', T(0, 0), V]]
    fws = ['objax', 'haiku', 'flax', 'torch']
    i = 0
    for g in (['SO', 2], ['SO', 3], ['SL', 2], ['S', 3], ['O11'], ['Z', 2], ['D', 4], ['Trivial', 2]):
        for e in E:
            if g in (['SO', 3], ['S', 3]) and 'T' == e[0] and False: continue
            i += 1
            yield 'gate', dict(groups=[g], e=e, seed=i, fw=fws[i % 4], shape=[[3], [], [2, 2]][i % 3])
    for g in ([['SO', 2], ['S', 3]], [['S', 2], ['Z', 3]], [['SL', 2], ['SO', 2]], [['S', 2], ['SO', 2]]):
        for e in (['*', V, W], ['*', W, V], ['+', V, W, S, ['*', V, W]], ['+', ['*', W, V], W, W, V], ['*', ['+', V, S], ['+', W, S]], ['+', ['*', V, V], ['*', W, D(W)]]):
            for fw in fws[:: (2 if q else 1)]:
                i += 1
                yield 'gate', dict(groups=g, e=e, seed=i, fw=fw, shape=[[3], [], [2, 2]][i % 3])
    rng = np.random.default_rng(13000 + seed)
    for _ in range(120 if q else 2000):
        g = [['SO', 2], ['SL', 2], ['S', 3], ['O11'], ['Z', 2], ['SO', 3], ['Trivial', 2]][int(rng.integers(7))]
        e = rand_expr(rng, [0], int(rng.integers(1, 4)), 40, [rec(g)], custom=bool(rng.random() < .3))
        yield 'gate', dict(groups=[g], e=e, seed=int(rng.integers(1 << 30)), fw=str(rng.choice(fws)), shape=[2])
