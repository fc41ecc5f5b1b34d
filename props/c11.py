import itertools
from unittest import mock
import numpy as np
import jax, jax.numpy as jnp
from scipy.linalg import logm
import emlp.groups as g
from emlp.reps import V
from vc.case import require, Skip
from vc.zoo import dense, make, Rec
from .c10 import as_perm, closure
from .c09 import J, ETA


def member(spec, g_):
    """is the matrix an element of the group? (None: no oracle)"""
    n = len(g_)
    I = np.eye(n)
    name, args = spec[0], spec[1:]
    near = lambda a, b, t=1e-5: np.abs(a - b).max() <= t * max(1, np.abs(g_).max()**2, np.abs(b).max())
    det = np.linalg.det
    real = np.abs(np.imag(g_)).max() < 1e-9
    if name == 'Trivial': return near(g_, I)
    if name == 'SO': return real and near(g_.T @ g_, I) and det(g_) > 0
    if name == 'O': return real and near(g_.T @ g_, I)
    if name == 'SL': return real and abs(det(g_) - 1) < 1e-4 * max(1, np.abs(g_).max()**n)
    if name == 'GL': return real and det(g_) > 0
    if name == 'Sp': return real and near(g_.T @ J(args[0]) @ g_, J(args[0]))
    if name == 'U': return near(g_.conj().T @ g_, I)
    if name == 'SU': return near(g_.conj().T @ g_, I) and abs(det(g_) - 1) < 1e-4
    if name == 'Scaling': return real and near(g_, g_[0, 0] * I) and g_[0, 0] > 0
    if name in ('SO13p', 'SO13', 'O13', 'Lorentz', 'SO11p', 'O11', 'Parity', 'TimeReversal'):
        ok = near(g_.T @ ETA(n) @ g_, ETA(n), 1e-4)
        if name in ('SO13p', 'SO11p'): ok = ok and g_[0, 0] > 0 and det(g_) > 0
        if name == 'SO13': ok = ok and det(g_) > 0
        if name == 'Parity': ok = near(g_, I) or near(g_, np.diag([1., -1, -1, -1]))
        if name == 'TimeReversal': ok = near(g_, I) or near(g_, np.diag([-1., 1, 1, 1]))
        return ok
    if name in ('C', 'D'):
        k = args[0]
        R = [np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]) for t in 2 * np.pi * np.arange(k) / k]
        return any(near(g_, r) for r in R) or (name == 'D' and any(near(g_, r @ np.diag([-1., 1])) for r in R))
    if name in ('Z', 'S', 'Cube', 'Perms', 'ZksZnxZn'):
        if not near(g_, np.round(g_.real)): return False
        p = as_perm(np.abs(np.round(g_.real)))
        if p is None or np.round(g_.real).min() < 0: return False
        if name == 'S': return True
        if name == 'Z': return any(p == tuple((i + k) % n for i in range(n)) for k in range(n))
        return p in closure([as_perm(dense(h)) for h in make(spec).discrete_generators])
    if name == 'RubiksCube':
        from sympy.combinatorics import Permutation, PermutationGroup
        p = as_perm(np.abs(np.round(g_.real)))
        return p is not None and PermutationGroup([Permutation(list(as_perm(dense(h)))) for h in make(spec).discrete_generators]).contains(Permutation(list(p)))
    if name == 'Embed':
        idx = list(range(args[1]))[slice(*args[2])]
        oth = [i for i in range(args[1]) if i not in idx]
        return near(g_[np.ix_(oth, oth)], np.eye(len(oth))) and near(g_[np.ix_(oth, idx)], 0) and near(g_[np.ix_(idx, oth)], 0) and member(args[0], g_[np.ix_(idx, idx)])
    if name == '*':
        a, b = make(args[0]).d, make(args[1]).d
        M = g_.reshape(a, b, a, b).transpose(0, 2, 1, 3).reshape(a * a, b * b)
        U, S, W = np.linalg.svd(M)
        if len(S) > 1 and S[1] > 1e-5 * S[0]: return False
        # the scale (and the sign) of each factor is not determined: try the ones that make it a member
        A, B = U[:, 0].reshape(a, a) * S[0], W[0].reshape(b, b)
        if any(s[0] in ('U', 'SU') for s in args): return True
        cands = set()
        for X in (A, B):
            dx = abs(det(X))
            cands.add(dx**(1 / len(X)))
        for c in list(cands):
            for s in (1, -1):
                for X, Y in ((A / (s * c), B * s * c),):
                    if member(args[0], X) and member(args[1], Y): return True
        c = abs(det(B))**(1 / b)
        for s in (1, -1):
            if member(args[0], A * s * c) and member(args[1], B / (s * c)): return True
        return False
    if name == 'Mats':
        lie, disc = args
        if lie == [[[0, 1], [0, 0]]] and not disc: return near(g_ - np.array([[0, g_[0, 1]], [0, 0]]), I)
        if not lie and disc == [[[2, 0], [0, .5]]]:
            k = np.log2(abs(g_[0, 0]))
            return abs(g_[0, 1]) < 1e-9 and abs(g_[1, 0]) < 1e-9 and abs(k - round(k)) < 1e-6 and abs(g_[0, 0] * g_[1, 1] - 1) < 1e-6 and g_[0, 0] > 0
        if not lie and disc == [[[1, 1], [0, 1]]]: return near(g_ - np.array([[0, np.round(g_[0, 1])], [0, 0]]), I)
        if not lie and disc == [[[1, 1], [0, 1]], [[1, 0], [1, 1]]]: return near(g_, np.round(g_)) and abs(det(g_) - 1) < 1e-6
        if not lie and disc == [[[1, 3], [0, 1]], [[-1, 0], [0, 1]]]:
            x = g_[0, 1] / 3
            return abs(g_[1, 0]) < 1e-9 and abs(g_[1, 1] - 1) < 1e-9 and abs(abs(g_[0, 0]) - 1) < 1e-9 and abs(x - round(x)) < 1e-6
        if lie == [[[0, 1], [0, 0]]] and disc == [[[2, 0], [0, .5]]]:
            k = np.log2(abs(g_[0, 0]))
            return abs(g_[1, 0]) < 1e-9 and abs(k - round(k)) < 1e-6 and abs(g_[0, 0] * g_[1, 1] - 1) < 1e-6 and g_[0, 0] > 0
        return None
    return None


def sample(group, N, seed=0, scale=1.):
    G = make(group)
    rng = np.random.default_rng(seed)
    # the draws of the code's own generator, driven by an arbitrary adversary with the documented ranges
    def randn(*s): return scale * rng.standard_normal(s)
    mode = seed % 4
    def randint(lo, hi=None, size=None, **kw):
        if hi is None: lo, hi = 0, lo
        if size is None: return int(rng.integers(lo, hi))
        if mode == 1: return np.full(size, lo)
        if mode == 2: return np.full(size, hi - 1)
        return rng.integers(lo, hi, size=size)
    with mock.patch.object(np.random, 'randn', randn), mock.patch.object(np.random, 'randint', randint):
        gs = np.asarray(G.samples(N)) if N else np.asarray(G.sample())[None]
    require(gs.shape == (max(N, 1), G.d, G.d), f"samples({N}) of {G} has shape {gs.shape}")
    require(np.isfinite(gs).all(), f"a sample of {G} is not finite")
    for x in gs:
        m = member(group, x)
        if m is None: raise Skip("no oracle")
        require(m, lambda: f"sample of {group} is not a group element: {x.round(4).tolist() if x.size<40 else x.shape}")


def draws(group, z, k, seed=0):
    """noise2sample for chosen noise: with one kind of generator the element is determined exactly"""
    G = Rec(group)
    A = np.array(G.A).reshape(-1, G.d, G.d)
    h = np.array(G.h).reshape(-1, G.d, G.d)
    z = np.array(z, float)[:len(A)] if len(A) else np.zeros(0)
    ks = np.array(k, int)[:len(h)] if len(h) else np.zeros((0, 3), int)
    if len(z) != len(A) or len(ks) != len(h): raise Skip('not enough noise')
    got = np.asarray(g.noise2sample(jnp.asarray(z), jnp.asarray(ks), jnp.asarray(A), jnp.asarray(h), seed))
    m = member(group, got)
    if m is not None: require(m, lambda: f"noise2sample({z.tolist()},{ks.tolist()}) of {group} is not in the group: {got.round(4).tolist()}")
    if len(h) == 0:
        # an element of a one parameter subgroup is its inverse at -z
        inv = np.asarray(g.noise2sample(jnp.asarray(-z), jnp.asarray(ks), jnp.asarray(A), jnp.asarray(h), seed))
        require(np.abs(inv @ got - np.eye(G.d)).max() < 1e-5 * np.abs(got).max() * np.abs(inv).max() + 1e-9, "exp(-A) exp(A) != 1")


def power(M, n):
    M = np.array(M, float)
    got = np.asarray(g.matrix_power_simple(jnp.asarray(M), n))
    want = np.linalg.matrix_power(M, n)
    require(np.abs(got - want).max() <= 1e-6 * max(1, np.abs(want).max()), f"matrix power {n} of {M.tolist()} is {got.tolist()} instead of {want.tolist()}")


def elements(R, rng, N=12):
    return [R.sample(rng, 1.) for _ in range(N)]


def flags(group, seed=0):
    R = Rec(group)
    G = R.G
    rng = np.random.default_rng(seed)
    els = elements(R, rng) + R.h
    orth = all(np.abs(x.T @ x - np.eye(R.d)).max() < 1e-3 for x in els)
    perm = all(as_perm(np.round(x.real)) is not None and np.abs(x - np.round(x.real)).max() < 1e-3 for x in els)
    if bool(G.is_orthogonal): require(orth, f"{group} says it is orthogonal and has a non orthogonal element")
    if bool(G.is_permutation): require(perm, f"{group} says it is a permutation group and has an element that is no permutation")


NAMED = {('S',): 'p', ('Z',): 'p', ('Cube',): 'p', ('RubiksCube',): 'p', ('ZksZnxZn',): 'p', ('SO',): 'o', ('O',): 'o', ('C',): 'o', ('D',): 'o'}


def named_flags(group, want):
    """the flag of the repository's own groups is also not weaker than the truth (the optimised code paths rely on it)"""
    G = make(group)
    require(bool(G.is_orthogonal) == (want in 'op'), f"{group}: is_orthogonal={G.is_orthogonal}")
    require(bool(G.is_permutation) == (want == 'p'), f"{group}: is_permutation={G.is_permutation}")


def custom_flags(d, seed):
    """user groups with one bad generator among good ones, at any position and of any kind"""
    rng = np.random.default_rng(seed)
    Q = lambda: np.linalg.qr(rng.standard_normal((d, d)))[0]
    P = lambda: np.eye(d)[rng.permutation(d)]
    signed = lambda: P() * np.where(rng.random(d) < .5, -1, 1)[:, None]
    def skew():
        a = rng.standard_normal((d, d))
        return a - a.T
    bad_sym = np.zeros((d, d))
    i, j = rng.integers(d, size=2)
    bad_sym[i, j] += 1
    bad_h = np.eye(d)
    bad_h[i, j] += .5
    kinds = dict(lie_good=[skew() for _ in range(2)], lie_bad=[skew(), bad_sym], none=[])
    disc = dict(orth=[Q()], perm=[P(), P()], signed=[P(), signed()], bad=[P(), bad_h], bad_first=[bad_h, P()], none=[], row=[np.where(P() == 0, 0, 1.)], dup=[_dup(P(), rng)],
                neg=[-np.eye(d)], rev=[P(), Q()])
    for kl, L in kinds.items():
        for kd, H in disc.items():
            if not L and not H: continue
            G = type('UG', (g.Group,), {})
            o = object.__new__(G)
            if L: o.lie_algebra = np.array(L)
            if H: o.discrete_generators = np.array(H)
            g.Group.__init__(o, kl, kd, seed)
            orth = all(np.abs(A + A.T).max() < 1e-9 for A in L) and all(np.abs(h.T @ h - np.eye(d)).max() < 1e-9 for h in H)
            perm = not L and all(as_perm(h) is not None for h in H)
            require(not (bool(o.is_orthogonal) and not orth), f"a group with generators {kl},{kd} (d={d}) is said to be orthogonal")
            require(not (bool(o.is_permutation) and not perm), f"a group with generators {kl},{kd} (d={d}) is said to be a permutation group")


def _dup(p, rng):
    q = p.copy()
    q[0] = q[-1]
    return q


def cases(tier, seed):
    q = tier == 'quick'
    zoo = [['SO', 2], ['SO', 3], ['SO', 5], ['O', 2], ['O', 3], ['S', 2], ['S', 4], ['S', 6], ['Z', 2], ['Z', 5], ['C', 3], ['C', 8], ['D', 1], ['D', 3], ['D', 4], ['SL', 2], ['SL', 3], ['GL', 2],
           ['Sp', 1], ['Sp', 2], ['U', 2], ['U', 3], ['SU', 2], ['SU', 3], ['Scaling', 2], ['SO13p'], ['SO13'], ['O13'], ['Lorentz'], ['SO11p'], ['O11'], ['Parity'], ['TimeReversal'], ['Cube'],
           ['ZksZnxZn', 2, 2], ['ZksZnxZn', 4, 3], ['Trivial', 3], ['Embed', ['SO', 2], 3, [2]], ['Embed', ['D', 3], 4, [1, 3]], ['Embed', ['SU', 2], 3, [1, 3]], ['*', ['SO', 2], ['S', 3]],
           ['*', ['S', 2], ['Z', 3]], ['*', ['O', 2], ['SO', 3]], ['Perms', [1, 2, 0, 4, 3]], ['Mats', [[[0, 1], [0, 0]]], []], ['Mats', [], [[[2, 0], [0, .5]]]], ['Mats', [], [[[1, 1], [0, 1]]]],
           ['Mats', [], [[[1, 1], [0, 1]], [[1, 0], [1, 1]]]], ['Mats', [], [[[1, 3], [0, 1]], [[-1, 0], [0, 1]]]], ['Mats', [[[0, 1], [0, 0]]], [[[2, 0], [0, .5]]]], ['RubiksCube']]
    for n in list(range(-7, 8)) + [-13, 16]:
        for M in ([[1, 1], [0, 1]], [[2, 0], [0, .5]], [[0, 1], [1, 0]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[-1.]], [[2, 1, 0], [1, 1, 0], [0, 3, 1]]):
            yield 'power', dict(M=M, n=n)
    for s in zoo:
        for i, N in enumerate((3, 1, 2, 0) if q else (3, 1, 2, 0, 5, 7, 4, 8)): yield 'sample', dict(group=s, N=N, seed=i + 4 * seed)
        yield 'flags', dict(group=s, seed=seed)
    for s, w in ((['S', 4], 'p'), (['Z', 3], 'p'), (['Cube'], 'p'), (['RubiksCube'], 'p'), (['ZksZnxZn', 4, 2], 'p'), (['SO', 3], 'o'), (['O', 3], 'o'), (['C', 3], 'o'), (['D', 3], 'o'), (['D', 2], 'o'),
                 (['SL', 2], 'n'), (['SO13p'], 'n'), (['O11'], 'n'), (['U', 2], 'n'), (['Sp', 1], 'n'), (['Scaling', 2], 'n'), (['Trivial', 3], 'p')):
        yield 'named_flags', dict(group=s, want=w)
    rng = np.random.default_rng(77 + seed)
    for s in zoo[:-1]:
        for _ in range(2 if q else 12):
            yield 'draws', dict(group=s, z=(rng.standard_normal(16) * rng.choice([0, .3, 1.5])).round(3).tolist(), k=rng.integers(-6, 7, (10, 3)).tolist(), seed=int(rng.integers(100)))
    for d in (1, 2, 3, 5, 8):
        for s in range(3 if q else 20): yield 'custom_flags', dict(d=d, seed=s + 100 * seed)
    for s in ([['*', a, b] for a in (['SO', 2], ['S', 3], ['SL', 2]) for b in (['O', 2], ['S', 2], ['Scaling', 2])]): yield 'flags', dict(group=s, seed=1)
