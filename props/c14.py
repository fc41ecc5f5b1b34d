import numpy as np
import jax, jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from emlp.nn import gated, uniform_rep
from emlp.reps import Rep, V as Vrep, T as Trep
from .reps_common import context, rec, feed
from .exprs import build, close, rand_expr
from .nets import Net, FW

V, S, D, W = ['V', 0], ['S'], lambda x: ['D', x], ['V', 1]
TOL = 2e-3


def near(a, b, tol=TOL):
    s = max(np.abs(b).max(), 1e-2) if b.size else 1
    return a.shape == b.shape and np.isfinite(a).all() and (a.size == 0 or np.abs(a - b).max() <= tol * s)


def equivariant(net, R, Q, n, rng, what, shapes=((), (3,), (2, 2)), x=None):
    for sh in shapes:
        x = rng.standard_normal((*sh, n))
        y = net(x)
        require(y.shape == (*sh, len(Q)), lambda: f"{what}: output of shape {y.shape} for input {x.shape}")
        got, want = net(x @ R.T), y @ Q.T
        require(near(got, want), lambda: f"{what} is not equivariant: deviation {np.abs(got-want).max()} of {np.abs(want).max()}")
        if sh:
            each = np.array([net(v) for v in x.reshape(-1, n)[:2]])
            require(near(y.reshape(-1, len(Q))[:2], each), lambda: f"{what}: batched result differs from the single one")


def solution(q_gens_A, q_gens_h, n):
    """orthogonal projector on the invariant subspace, dense oracle"""
    rows = [a for a in q_gens_A] + [h - np.eye(n) for h in q_gens_h]
    C = np.concatenate(rows) if rows else np.zeros((0, n))
    N = oracle.nullspace(C)
    return N @ N.conj().T


def gens(recs, e):
    """generators of all groups in representation e"""
    A, h = [], []
    for i in oracle.groups_of(e):
        I = [np.eye(r.d) for r in recs]
        Z = [np.zeros((r.d, r.d)) for r in recs]
        A += [oracle.terms(e, 'drho', recs, Z[:i] + [a] + Z[i + 1:]) for a in recs[i].A]
        h += [oracle.terms(e, 'rho', recs, I[:i] + [a] + I[i + 1:]) for a in recs[i].h]
    return A, h


def cond(M): return np.linalg.cond(M) < 50


def linear(groups, ein, eout, fw, seed=0):
    rng, recs, _, _ = context(groups, seed)
    g = [q.sample(rng, .3) for q in recs]
    Gs = [q.G for q in recs]
    rin, rout = build(ein, Gs), build(eout, Gs)
    if isinstance(rin, int) or isinstance(rout, int): raise Skip("integer")
    n, m = oracle.size(ein, recs), oracle.size(eout, recs)
    if n == 0 or m == 0: raise Skip('empty')
    net = Net(fw, lambda L: L.Linear(rin, rout), n)
    w = [(k, v) for k, v in net.params if v.shape == (m, n) and v.ndim == 2]
    b = [(k, v) for k, v in net.params if v.shape == (m,)]
    require(len(w) == 1 and len(b) == 1 and len(net.params) == 2, lambda: f"parameters {[(k,v.shape) for k,v in net.params]}")
    wk, bk = w[0][0], b[0][0]
    R, Q = oracle.terms(ein, 'rho', recs, g), oracle.terms(eout, 'rho', recs, g)
    eW = ['*', eout, ['D', ein]]
    PW = solution(*gens(recs, eW), m * n)
    Pb = solution(*gens(recs, eout), m)
    # at every value of the parameters, in training and in evaluation mode, in any order
    for mode in (True, False, False, True):
        net.mode(mode)
        net.randomize(rng)
        P = dict(net.params)
        w, b = P[wk], P[bk]
        x = rng.standard_normal((4, n))
        want = x @ (PW @ w.reshape(-1)).reshape(m, n).T + Pb @ b
        got = net(x)
        require(near(got, want), lambda: f"{fw} Linear({rin},{rout}) is not x W^T + b with the projected parameters: deviation {np.abs(got-want).max()}")
    equivariant(net, R, Q, n, rng, f"{fw} Linear({rin},{rout}) for {groups}")


def block(groups, ein, eout, fw, seed=0, kind='EMLPBlock'):
    rng, recs, _, _ = context(groups, seed)
    g = [q.sample(rng, .3) for q in recs]
    Gs = [q.G for q in recs]
    rin, rout = build(ein, Gs), build(eout, Gs)
    if isinstance(rin, int) or isinstance(rout, int): raise Skip("integer")
    n = oracle.size(ein, recs)
    R, Q = oracle.terms(ein, 'rho', recs, g), oracle.terms(eout, 'rho', recs, g)
    net = Net(fw, lambda L: getattr(L, kind)(rin, rout), n)
    net.randomize(rng)
    equivariant(net, R, Q, n, rng, f"{fw} {kind}({rin},{rout}) for {groups}")


def network(group, ein, eout, ch, num_layers, fw, seed=0, cls='EMLP'):
    """ein, eout, ch symbolic expressions (group applied by the network); ch int | expr | list of those"""
    rng, (q,), _, _ = context([group], seed)
    g = q.sample(rng, .3)
    recs = [q]
    sym = lambda e: build(e, [None])
    isx = lambda c: isinstance(c, list) and isinstance(c[0], str)
    conv = lambda c: c if isinstance(c, int) else sym(c)
    chv = conv(ch) if isinstance(ch, int) or isx(ch) else [conv(c) for c in ch]
    hidden = [ch] * num_layers if isinstance(ch, int) or isx(ch) else ch
    hs = [h if isinstance(h, int) else oracle.size(h, recs) for h in hidden]
    n, m = oracle.size(ein, recs), oracle.size(eout, recs)
    if cls == 'EMLPH': ctor, extra = (lambda L: L.EMLPH(sym(ein), sym(eout), q.G, ch=chv, num_layers=num_layers)), ()
    elif cls == 'EMLPode': ctor, extra = (lambda L: L.EMLPode(sym(ein), sym(eout), q.G, ch=chv, num_layers=num_layers)), (0.,)
    elif cls == 'Standardize':   # statistics that commute with the group: a common scale and no shift of the non scalar parts
        ctor, extra = (lambda L: L.Standardize(L.EMLP(sym(ein), sym(eout), q.G, ch=chv, num_layers=num_layers), (np.float32(0.), np.float32(2.5), np.float32(0.), np.float32(.3)))), (True,)
        if fw in ('haiku', 'flax'): raise Skip('not offered')
    else: ctor, extra = (lambda L: L.EMLP(sym(ein), sym(eout), q.G, ch=chv, num_layers=num_layers)), ()
    if cls == 'Standardize' and fw == 'torch': raise Skip('needs a module with a training argument')
    net = Net(fw, ctor, n, extra)
    net.randomize(rng)
    # one hidden layer per entry: the linear maps chain the sizes
    shapes = [v.shape for k, v in net.params if v.ndim == 2]
    ins = sorted(s[1] for s in shapes)
    require(ins == sorted([n] + hs), lambda: f"{fw} {cls}: the linear layers take inputs of sizes {ins}, expected {sorted([n]+hs)}")
    require(len(net.params) == 2 + 3 * len(hs), lambda: f"{fw} {cls}: {len(net.params)} parameters for {len(hs)} hidden layers")
    R, Q = oracle.terms(ein, 'rho', recs, [g]), oracle.terms(eout, 'rho', recs, [g])
    what = f"{fw} {cls}({sym(ein)},{sym(eout)},{q.G},ch={ch},num_layers={num_layers})"
    if cls == 'EMLPH':
        for _ in range(2):
            x = rng.standard_normal(n)
            a, b = net(x), net(R @ x)
            require(np.abs(a - b) <= TOL * max(1e-2, np.abs(a)), lambda: f"{what}: H is not invariant: {a} {b}")
        return
    equivariant(net, R, Q, n, rng, what, shapes=((), (3,)))
    net.mode(False)
    # not only at the first parameters
    net.randomize(rng, 1.5)
    equivariant(net, R, Q, n, rng, what + ' (other parameters)', shapes=((3,),))


def cases(tier, seed):
    q = tier == 'quick'
    T = lambda p, r: ['T', p, r, 0]
    L = [(['+', V, S], ['+', S, T(2, 0)]), (['n*', 2, V], ['+', T(1, 1), S]), (V, V), (V, S), (S, ['+', S, V]), (['+', T(2, 0), V], ['+', V, T(2, 0)]), (D(V), ['+', V, D(V)]), (['*', V, D(V)], ['+', V, S]),
         (['+', V, ['*', V, V], S], V), (['*', ['+', V, S], V], T(2, 0))]
    gs = [['SO', 2], ['SO', 3], ['SL', 2], ['S', 3], ['O11'], ['Z', 3], ['D', 3], ['Scaling', 2], ['Trivial', 2], ['SO11p']]
    i = 0
    for g in gs:
        for a, b in L:
            i += 1
            if q and g == ['SO', 3] and i % 2: continue
            yield 'linear', dict(groups=[g], ein=a, eout=b, fw=FW[(i + i // 10) % 4], seed=i)
    for g in ([['SO', 2], ['S', 3]], [['SL', 2], ['Z', 2]], [['O11'], ['SO', 2]]):
        for a, b in ((['+', V, W], ['+', ['*', V, W], S]), (['*', W, V], ['*', V, W]), (V, ['+', W, V])):
            for fw in (FW if not q else [FW[i % 4]]):
                i += 1
                yield 'linear', dict(groups=g, ein=a, eout=b, fw=fw, seed=i)
                yield 'block', dict(groups=g, ein=a, eout=b, fw=FW[(i + 1) % 4], seed=i)
    for g in gs:
        for j, (a, b) in enumerate((L[0], L[1], L[5], (V, ['+', V, D(V), S]), (V, V), (V, T(2, 0)), (['+', S, V], ['+', T(2, 0), V, S, V]))):
            if q and (j + i) % 2: continue
            i += 1
            yield 'block', dict(groups=[g], ein=a, eout=b, fw=FW[(i + j) % 4], seed=i)
            if a == b: yield 'block', dict(groups=[g], ein=a, eout=b, fw=FW[(i + j + 1) % 4], seed=i, kind='BiLinear')
            else: yield 'block', dict(groups=[g], ein=a, eout=b, fw=FW[(i + j + 2) % 4], seed=i)
    nets = [(['+', V, S], V, 24, 1), (['n*', 2, V], ['+', S, V], [16, 20], 3), (['+', T(1, 0), T(0, 0)], T(1, 0), ['+', V, ['n*', 3, S], T(2, 0)], 2), (V, S, [['+', T(2, 0), V, S], 14], 3), (['n*', 2, V], T(2, 0), 12, 3),
            (['+', S, V], ['+', V, S], ['+', V, ['n*', 4, S]], 1), (V, V, [6, 8, 4, 10], 3), (V, ['+', V, S], [7, ['+', S, V], 5], 1), (['+', V, S], V, [9], 2)]
    for gi, g in enumerate(([['SO', 2], ['SO', 3], ['SL', 2], ['S', 3], ['O11'], ['Z', 3], ['D', 3]])):
        for j, (a, b, ch, nl) in enumerate(nets):
            for k in range(1 if q else 4):
                fw = FW[(gi + j + k) % 4]
                yield 'network', dict(group=g, ein=a, eout=b, ch=ch, num_layers=nl, fw=fw, seed=i + j)
    for g in (['SO', 2], ['O11'], ['S', 3]):
        yield 'network', dict(group=g, ein=['n*', 2, V], eout=S, ch=16, num_layers=2, fw='objax', seed=1, cls='EMLPH')
        yield 'network', dict(group=g, ein=['n*', 2, V], eout=['n*', 2, V], ch=[12, ['+', V, S]], num_layers=2, fw='objax', seed=2, cls='EMLPode')
        yield 'network', dict(group=g, ein=['n*', 2, V], eout=V, ch=10, num_layers=2, fw='objax', seed=3, cls='Standardize')
    rng = np.random.default_rng(14000 + seed)
    for _ in range(24 if q else 600):
        g = gs[int(rng.integers(len(gs)))]
        a, b = (rand_expr(rng, [0], 1, 9, [rec(g)], custom=False) for _ in range(2))
        yield str(rng.choice(['linear', 'block'])), dict(groups=[g], ein=a, eout=b, fw=str(rng.choice(FW)), seed=int(rng.integers(1 << 30)))
