import itertools
import numpy as np
import jax.numpy as jnp
import emlp.groups as g
from emlp.reps import V
from vc.case import require, Skip
from vc.zoo import dense, make, Rec
from .exprs import close


def gens(G):
    return [dense(h) for h in G.discrete_generators]


def as_perm(M):
    """image tuple p with (M v)[i] = v[p[i]], or None"""
    M = np.asarray(M)
    if not (((M == 0) | (M == 1)).all() and (M.sum(0) == 1).all() and (M.sum(1) == 1).all()): return None
    return tuple(int(i) for i in M.argmax(1))


def closure(ps, limit=200000):
    n = len(ps[0])
    seen = {tuple(range(n))}
    todo = list(seen)
    while todo:
        x = todo.pop()
        for p in ps:
            y = tuple(x[i] for i in p)
            if y not in seen:
                seen.add(y)
                todo.append(y)
                if len(seen) > limit: raise AssertionError("group too large")
    return seen


def perms(G, what):
    ps = [as_perm(h) for h in gens(G)]
    require(all(p is not None for p in ps), f"{what}: a generator is not a permutation matrix")
    require(len(G.lie_algebra) == 0, f"{what}: has continuous generators")
    return ps


def mclosure(hs, limit):
    """finite matrix group closure"""
    n = len(hs[0])
    seen = [np.eye(n)]
    i = 0
    while i < len(seen):
        for h in hs:
            y = seen[i] @ h
            if not any(np.abs(y - s).max() < 1e-7 for s in seen):
                seen.append(y)
                require(len(seen) <= limit, "the generated group has more elements than it should have")
        i += 1
    return seen


def Zn(n):
    G = g.Z(n)
    require(G.d == n, f"Z({n}): d={G.d}")
    got = closure(perms(G, f"Z({n})"))
    want = {tuple((i + k) % n for i in range(n)) for k in range(n)}
    require(got == want, f"Z({n}) generates {len(got)} elements, not the {n} cyclic shifts")


def Sn(n):
    from sympy.combinatorics import Permutation, PermutationGroup
    G = g.S(n)
    require(G.d == n, f"S({n}): d={G.d}")
    o = PermutationGroup([Permutation(list(p)) for p in perms(G, f"S({n})")]).order()
    w = int(np.prod(np.arange(1, n + 1, dtype=object)))
    require(o == w, f"S({n}) generates a group of order {o}, not {w}")


def planar(name, k):
    G = getattr(g, name)(k)
    require(G.d == 2 and len(G.lie_algebra) == 0, f"{name}({k}): d={G.d}")
    els = mclosure(gens(G), 2 * k)
    rots = [np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]) for t in 2 * np.pi * np.arange(k) / k]
    want = rots + ([r @ np.diag([-1., 1]) for r in rots] if name == 'D' else [])
    require(len(els) == len(want) and all(any(np.abs(e - w).max() < 1e-6 for w in want) for e in els),
            f"{name}({k}) generates {len(els)} elements, not the {len(want)} {'rotations and reflections' if name=='D' else 'rotations'}")


def On(n):
    G = g.O(n)
    hs = gens(G)
    require(all(np.abs(h @ h.T - np.eye(n)).max() < 1e-9 for h in hs), f"O({n}): a discrete generator is not orthogonal")
    require(any(np.linalg.det(h) < 0 for h in hs), f"O({n}): no reflection among the generators")


def lorentz(name):
    G = getattr(g, name)()
    d = 2 if '11' in name else 4
    require(G.d == d, f"{name}: d={G.d}")
    eta = np.diag([1.] + [-1.] * (d - 1))
    comps = [(1, 1)]
    for h in gens(G):
        require(np.abs(h.T @ eta @ h - eta).max() < 1e-9, f"{name}: a discrete generator does not preserve the metric: {h.tolist()}")
        c = (int(np.sign(h[0, 0])), int(np.sign(np.linalg.det(h))))
        comps += [(a * c[0], b * c[1]) for a, b in comps]
    want = {'SO13p': {(1, 1)}, 'SO11p': {(1, 1)}, 'SO13': {(1, 1), (-1, 1)}, 'Parity': {(1, 1), (1, -1)}, 'TimeReversal': {(1, 1), (-1, -1)}}.get(
        name, {(1, 1), (1, -1), (-1, 1), (-1, -1)})
    require(set(comps) == want, f"{name}: components (time direction, det) {sorted(set(comps))} instead of {sorted(want)}")
    if name in ('Parity', 'TimeReversal'):
        require(len(G.lie_algebra) == 0 and all(np.abs(h - np.diag(np.diag(h))).max() == 0 for h in gens(G)), f"{name}: unexpected generators")


def cube():
    G = g.Cube()
    got = closure(perms(G, "Cube"), 720)
    rots = [np.array(M) for M in itertools.product(*[[s * np.eye(3)[i] for i in range(3) for s in (1, -1)]] * 3)]
    rots = [M for M in rots if abs(np.linalg.det(M) - 1) < 1e-9]
    F = [s * np.eye(3)[i] for i in range(3) for s in (1, -1)]
    want = {tuple(next(j for j, f in enumerate(F) if np.abs(M @ F[i] - f).max() < 1e-9) for i in range(6)) for M in rots}
    require(len(want) == 24, "oracle")
    ok = len(got) == 24 and any({tuple(q[p[qi]] for qi in np.argsort(q)) for p in want} == got for q in itertools.permutations(range(6)))
    require(ok, f"Cube generates {len(got)} face permutations, which are not the 24 rotations of a cube")


def stickers():
    """position (centre of cubie face) of each of the 48 stickers; U,F,R,B,L,D; net: B above U, L,R beside it, F and D below"""
    # for every face: centre, direction of increasing column, direction of increasing row (x right, y back, z up)
    X, Y, Z = np.eye(3)
    faces = [(Z, X, -Y), (-Y, X, -Z), (X, Y, -Z), (Y, -X, -Z), (-X, -Y, -Z), (-Z, X, Y)]
    out = []
    for c, u, v in faces:
        for r in range(3):
            for s in range(3):
                if r == s == 1: continue
                out.append(2 * c + (s - 1) * u + (r - 1) * v + 0)   # centre of the sticker; face coordinate is +-2
    return np.array(out)


def rubik():
    from sympy.combinatorics import Permutation, PermutationGroup
    P = stickers()
    idx = {tuple(np.round(p).astype(int)): i for i, p in enumerate(P)}
    require(len(idx) == 48, "oracle")

    def turn(axis, sgn, s):
        a = sgn * np.eye(3)[axis]
        R = np.round(np.array([[np.dot(np.eye(3)[i], a) * np.dot(np.eye(3)[j], a) for j in range(3)] for i in range(3)]) +
                     s * np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])).astype(int)
        return tuple(idx[tuple(np.round(R @ p).astype(int))] if p @ a >= 1 else i for i, p in enumerate(P))
    turns = [turn(ax, sg, 1) for ax in range(3) for sg in (1, -1)]
    G = g.RubiksCube()
    require(G.d == 48, "d")
    ps = perms(G, "RubiksCube")
    both = set(turns) | {tuple(int(i) for i in np.argsort(t)) for t in turns}
    if all(p in both for p in ps):
        faces = {min(p, tuple(int(i) for i in np.argsort(p))) for p in ps}
        if len(faces) >= 6: return
    H = PermutationGroup([Permutation(list(p)) for p in turns])
    K = PermutationGroup([Permutation(list(p)) for p in ps])
    require(H.order() == 43252003274489856000, "oracle order")
    require(K.order() == H.order(), f"RubiksCube generates a group of order {K.order()}, not {H.order()}")
    require(all(H.contains(Permutation(list(p))) for p in ps), "RubiksCube: a generator is not a legal transformation of the cube in the documented face order")


def zks(k, n):
    G = g.ZksZnxZn(k, n)
    require(G.d == k * n * n, f"d={G.d}")
    got = closure(perms(G, f"ZksZnxZn({k},{n})"))
    I = np.arange(k * n * n).reshape(k, n, n)
    wants = []
    for s in (1, -1):
        els = set()
        for r in range(k):
            for a in range(n):
                for b in range(n):
                    x = np.roll(I, s * r, axis=0)
                    x = np.rot90(x, r * (4 // k), axes=(1, 2))
                    els.add(tuple(int(i) for i in np.roll(x, (a, b), axis=(1, 2)).ravel()))
        wants.append(els)
    require(got in wants, f"ZksZnxZn({k},{n}) generates {len(got)} elements; not the {len(wants[0])} roto-translations")


def embed(group, d, sl):
    R = Rec(group)
    G = R.G
    s = slice(*sl)
    idx = list(range(d))[s]
    if len(idx) != R.d: raise Skip("slice does not select d dimensions")
    E = g.Embed(G, d, s)
    require(E.d == d, f"Embed: d={E.d}")
    for what, src, dst in (('lie', R.A, [dense(A) for A in E.lie_algebra]), ('discrete', R.h, [dense(h) for h in E.discrete_generators])):
        require(len(src) == len(dst), f"Embed({group},{d},{s}) has {len(dst)} {what} generators instead of {len(src)}")
        for i, (a, b) in enumerate(zip(src, dst)):
            w = np.zeros((d, d), dtype=a.dtype) if what == 'lie' else np.eye(d).astype(a.dtype)
            w[np.ix_(idx, idx)] = a
            require(close(b, w, 1e-9), lambda: f"Embed({group},{d},{s}): {what} generator {i} is {b.tolist()} instead of {w.tolist()}")


def named_embed(name, k):
    E = getattr(g, name)(k) if k else getattr(g, name)()
    B = {'SO2eR3': lambda: g.SO(2), 'O2eR3': lambda: g.O(2), 'DkeR3': lambda: g.D(k)}[name]()
    require(E.d == 3, "d")
    for a, b in ((B.lie_algebra, E.lie_algebra), (B.discrete_generators, E.discrete_generators)):
        require(len(a) == len(b), f"{name}: number of generators")
        for x, y in zip(a, b):
            w = np.zeros((3, 3)) if a is B.lie_algebra else np.eye(3)
            w[:2, :2] = dense(x)
            require(close(dense(y), w, 1e-9), f"{name}: generator {dense(y).tolist()} instead of {w.tolist()}")


def product(a, b):
    R, Q = Rec(a), Rec(b)
    G = R.G * Q.G
    require(G.d == R.d * Q.d, f"d={G.d} instead of {R.d*Q.d}")
    I1, I2 = np.eye(R.d), np.eye(Q.d)
    want = [[np.kron(x, I2) for x in R.A] + [np.kron(I1, x) for x in Q.A], [np.kron(x, I2) for x in R.h] + [np.kron(I1, x) for x in Q.h]]
    got = [[dense(x) for x in G.lie_algebra], [dense(x) for x in G.discrete_generators]]
    for k, (W, H) in enumerate(zip(want, got)):
        require(len(W) == len(H), f"{a} x {b}: {len(H)} {'discrete' if k else 'lie'} generators instead of {len(W)}")
        left = list(W)
        for h in H:      # any order
            m = [i for i, w in enumerate(left) if close(h, w, 1e-9)]
            require(m, lambda: f"{a} x {b}: the {'discrete' if k else 'lie'} generator {h.tolist()} is not a factor's generator acting on its factor only")
            left.pop(m[0])


def cases(tier, seed):
    q = tier == 'quick'
    for n in list(range(1, 17 if q else 40)) + [50]: yield 'Zn', dict(n=n)
    for n in list(range(2, 13 if q else 25)): yield 'Sn', dict(n=n)
    for k in list(range(1, 17 if q else 41)): yield 'planar', dict(name='C', k=k)
    for k in list(range(1, 17 if q else 41)): yield 'planar', dict(name='D', k=k)
    for n in range(2, 10): yield 'On', dict(n=n)
    for n in ('SO13p', 'SO13', 'O13', 'Lorentz', 'SO11p', 'O11', 'Parity', 'TimeReversal'): yield 'lorentz', dict(name=n)
    yield 'cube', {}
    yield 'rubik', {}
    for k in (2, 4):
        for n in range(2, 6 if q else 9): yield 'zks', dict(k=k, n=n)
    yield 'named_embed', dict(name='SO2eR3', k=0)
    yield 'named_embed', dict(name='O2eR3', k=0)
    for k in range(1, 9): yield 'named_embed', dict(name='DkeR3', k=k)
    bases = [['SO', 2], ['O', 2], ['S', 2], ['Z', 3], ['C', 5], ['SO', 3], ['U', 2], ['SL', 2], ['SU', 3], ['Trivial', 2], ['O11'], ['Scaling', 2], ['D', 4], ['Sp', 1],
             ['*', ['S', 2], ['SO', 2]], ['Embed', ['SO', 2], 3, [1, 3]], ['SO13'], ['O13']]
    for b in bases:
        n = Rec(b).d
        for d, sl in ((n + 2, [n]), (n + 1, [1, n + 1]), (n, [None]), (n + 3, [2, n + 2]), (2 * n, [0, 2 * n, 2]), (2 * n + 1, [1, None, 2]), (n + 2, [-n, None]), (n + 2, [None, -2])):
            yield 'embed', dict(group=b, d=d, sl=sl)
    for p in ((['Trivial', 2], ['Trivial', 3]), (['Trivial', 1], ['SO', 2])): yield 'product', dict(a=p[0], b=p[1])
    ps = bases + [['Cube'], ['SO11p'], ['GL', 2], ['ZksZnxZn', 2, 2], ['Perms', [1, 2, 0], [1, 0, 2]], ['Mats', [[[0, 1], [0, 0]]], [[[2, 0], [0, .5]]]]]
    rng = np.random.default_rng(1000 + seed)
    for i, a in enumerate(ps):
        for j in range(4 if q else len(ps)):
            yield 'product', dict(a=a, b=ps[int(rng.integers(len(ps)))] if q else ps[j])
