import itertools
import numpy as np
import jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from vc.zoo import Rec, make, dense, CUSTOM, SMALL, V, Scalar, T
from .reps_common import rec, random_case, compare, context, feed, maxdev
from .exprs import build, close, rand_expr
from .solve_common import check

GROUPS = SMALL + [['Embed', ['SO', 2], 3, [0, 2]], ['Embed', ['SO', 2], 3, [1, 3]], ['Embed', ['SO', 2], 4, [0, 4, 2]], ['Embed', ['O', 2], 3, [2]],
                  ['Embed', ['Z', 2], 3, [2]], ['*', ['SO', 2], ['S', 2]], ['*', ['S', 2], ['SO', 2]], ['*', ['Z', 2], ['SO', 2]],
                  ['SO', 1 + 3], ['O', 4], ['SO13p'], ['SO13'], ['O13'], ['Lorentz'], ['Parity'], ['TimeReversal'], ['C', 3], ['C', 6], ['D', 4],
                  ['Perms', [1, 0, 2]], ['Perms', [0, 2, 1]], ['Perms', [1, 2, 0], [1, 0, 2]], ['Mats', [[[1, 0], [0, 0]]], []], ['Mats', [[[0, 1], [-1, 0]]], []],
                  ['Z', 4], ['S', 4], ['Sp', 2], ['SL', 2], ['SU', 2], ['ZksZnxZn', 2, 2], ['ZksZnxZn', 4, 2], ['*', ['*', ['S', 2], ['Z', 2]], ['S', 2]],
                  ['*', ['S', 2], ['*', ['Z', 2], ['S', 2]]], ['Embed', ['SL', 2], 3, [2]], ['Embed', ['SL', 2], 3, [1, 3]]]
BLOCK = [1, 0, 2]


def same_action(q1, q2):
    return q1.d == q2.d and len(q1.A) == len(q2.A) and len(q1.h) == len(q2.h) and all(np.allclose(a, b) for a, b in zip(q1.A + q1.h, q2.A + q2.h))


def group_eq():
    """groups that compare equal have the same generators and equal hashes; a rebuilt group equals itself"""
    qs = [Rec(s) for s in GROUPS]
    for a, b in itertools.combinations(qs, 2):
        if a.G == b.G:
            require(same_action(a, b), lambda: f"groups {a.spec} and {b.spec} compare equal but have different generators")
            require(hash(a.G) == hash(b.G), lambda: f"equal groups {a.spec} with different hashes")
            require(b.G == a.G, "group equality is not symmetric")
        elif a.spec == b.spec: require(False, lambda: f"group {a.spec} built twice is not equal to itself")
    for q in qs:
        p = make(q.spec)
        require(p == q.G and q.G == p and hash(p) == hash(q.G), lambda: f"group {q.spec} built twice: not equal or different hash")
        require(not (p != q.G), "inconsistent !=")


def pool(seed, k=14):
    rng = np.random.default_rng(seed)
    ids = rng.permutation(len(GROUPS))[:k]
    return [rec(GROUPS[i]) for i in ids]


def base_reps(q):
    v = V(q.G)
    out = [v, v.T, v * v, v * v.T, T(1, 2, q.G), v * v * v]
    for c in ('Sq', 'Blk', 'Det'): out += [CUSTOM[c](q.G), CUSTOM[c](q.G).T, CUSTOM[c](q.G) * v]
    return [r.canonicalize()[0] for r in out if r.size() < 30]


def order(seed, k=5):
    """the ordering of canonical representations: strict, total, transitive, groups contiguous"""
    rng = np.random.default_rng(seed)
    qs = pool(seed, k)
    reps = [Scalar] + [r for q in qs for r in base_reps(q)]
    prods = []
    for a, b in itertools.combinations(qs[:3], 2):
        if not a.G == b.G: prods += [(V(a.G) * V(b.G)).canonicalize()[0], (V(b.G) * V(b.G) * V(a.G)).canonicalize()[0]]
    reps += prods
    n = len(reps)
    lt = [[bool(a < b) for b in reps] for a in reps]
    eq = [[bool(a == b) for b in reps] for a in reps]
    for i in range(n):
        require(not lt[i][i], lambda: f"{reps[i]} < itself")
        for j in range(n):
            require(eq[i][j] == eq[j][i], lambda: f"equality of {reps[i]!r} and {reps[j]!r} is not symmetric")
            if eq[i][j]: require(hash(reps[i]) == hash(reps[j]), lambda: f"equal {reps[i]!r} with different hashes")
            require(lt[i][j] + lt[j][i] + eq[i][j] == 1, lambda: f"not a strict total order: {reps[i]!r} of {getattr(reps[i], 'G', None)} and {reps[j]!r} of {getattr(reps[j], 'G', None)}: lt {lt[i][j]}, gt {lt[j][i]}, eq {eq[i][j]}")
    L = np.array(lt)
    bad = (L.astype(int) @ L.astype(int) > 0) & ~L
    require(not bad.any(), lambda: f"the order is not transitive between {reps[np.argwhere(bad)[0][0]]!r} and {reps[np.argwhere(bad)[0][1]]!r}")
    idx = sorted(range(n), key=lambda i: int(L[:, i].sum()))
    seen, last = [], None
    for i in idx:
        G = getattr(reps[i], 'G', None)
        if G is None: continue
        if last is not None and G == last: continue
        require(not any(G == s for s in seen), lambda: f"representations of {G} are not contiguous in the canonical order")
        seen.append(G)
        last = G


def rep_eq(seed, k=4):
    """equal representations act equally and hash equally; equal expressions give equal representations; comparisons do not crash"""
    rng = np.random.default_rng(seed)
    recs = pool(seed, k)
    recs.append(Rec(recs[0].spec))     # the same group built twice
    es = []
    for i in range(len(recs)):
        es += [['V', i], ['D', ['V', i]], ['T', 2, 0, i], ['T', 1, 1, i], ['C', i, 'Blk'], ['C', i, 'Sq'], ['+', ['V', i], ['S']], ['+', ['S'], ['V', i]],
               ['+', ['D', ['V', i]], ['V', i]], ['+', ['V', i], ['D', ['V', i]]], ['n*', 2, ['V', i]], ['*', ['V', i], ['D', ['V', i]]], ['*', ['D', ['V', i]], ['V', i]],
               ['C', i, 'Det'], ['D', ['C', i, 'Det']]]
    es += [['S'], ['n*', 2, ['S']], ['n*', 3, ['S']]]
    for i, j in itertools.permutations(range(min(3, len(recs))), 2):
        if not recs[i].G == recs[j].G: es += [['*', ['V', i], ['V', j]], ['+', ['V', i], ['V', j]]]
    es = [e for e in es if oracle.size(e, recs) <= 30]
    es = [es[i] for i in rng.permutation(len(es))[:40]] + [['V', 0], ['V', len(recs) - 1]]
    Ms = [q.sample(rng) for q in recs]
    # equal groups see the same matrix
    for i in range(len(recs)):
        for j in range(i):
            if recs[i].G == recs[j].G: Ms[i] = Ms[j]
    reps = [build(e, [q.G for q in recs]) for e in es]
    dens = [oracle.terms(e, 'rho', recs, Ms) for e in es]
    grp = [[recs[i].G for i in oracle.groups_of(e)] for e in es]
    nsize = int(rng.integers(2))
    if nsize:
        for r in reps: r.size()
    for a in range(len(es)):
        again = build(es[a], [q.G for q in recs])
        again.size()
        require(reps[a] == again and again == reps[a], lambda: f"{es[a]} built twice is not equal to itself")
        for b in range(len(es)):
            if reps[a] == reps[b]:
                require(all(any(x == y for y in grp[b]) for x in grp[a]) or len(grp[a]) * len(grp[b]) == 0, lambda: f"representations {es[a]} and {es[b]} of different groups compare equal")
                require(close(dens[a], dens[b]), lambda: f"{reps[a]!r} ({es[a]}) and {reps[b]!r} ({es[b]}) compare equal but act differently (groups {grp[a]})")
                require(bool(reps[b] == reps[a]), lambda: f"equality of {es[a]} and {es[b]} is not symmetric")
                ca, cb = reps[a].canonicalize()[0], reps[b].canonicalize()[0]
                require(ca == cb and hash(ca) == hash(cb), lambda: f"equal {es[a]}, {es[b]}: canonical forms differ or hash differently")
            require(bool(reps[a] != reps[b]) == (not bool(reps[a] == reps[b])), "inconsistent !=")
        require(not (reps[a] == 3) and not (reps[a] == None) and not (reps[a] == 'V'), "equal to a foreign object")


def history(seed, steps=8):
    """solve many representations of similar groups in one process: every result must match the oracle, whatever came before;
    results handed out earlier and the group generators do not change"""
    rng = np.random.default_rng(seed)
    fam = [[['Perms', [1, 0, 2]], ['Perms', [0, 2, 1]], ['Perms', [1, 2, 0]], ['S', 3], ['Z', 3]],
           [['Embed', ['SO', 2], 3, [2]], ['Embed', ['SO', 2], 3, [1, 3]], ['SO', 3], ['Embed', ['Z', 2], 3, [2]], ['Embed', ['S', 2], 3, [1, 3]]],
           [['Mats', [[[0, 1], [0, 0]]], []], ['Mats', [[[1, 0], [0, 0]]], []], ['Mats', [], [[[2, 0], [0, .5]]]], ['SL', 2], ['SO11p']],
           [['SO', 2], ['O', 2], ['C', 4], ['D', 3], ['C', 3], ['SU', 2], ['U', 2], ['Sp', 1], ['O11']],
           [['*', ['SO', 2], ['S', 2]], ['*', ['S', 2], ['SO', 2]], ['*', ['Z', 2], ['SO', 2]], ['SO', 4]],
           [['SO13p'], ['SO13'], ['O13'], ['Parity'], ['TimeReversal'], ['Lorentz']]][int(rng.integers(6))]
    kept = []
    frozen = {}
    for s in range(steps):
        k = int(rng.choice([1, 1, 2]))
        gs = [fam[int(i)] for i in rng.choice(len(fam), k, replace=False)]
        recs = [Rec(g) if rng.random() < .5 else rec(g) for g in gs]
        for q in recs: frozen.setdefault(id(q), (q, [x.copy() for x in q.A + q.h]))
        e = rand_expr(rng, list(range(k)), int(rng.integers(0, 3)), 30, recs, custom=k == 1)
        r = build(e, [q.G for q in recs])
        if isinstance(r, int): continue
        check(r, e, recs, tol=1e-3)
        used = oracle.groups_of(e)
        compare(r, e, recs, used, [q.sample(rng) for q in recs], [q.lie(rng) for q in recs], rng)
        kept.append((r, e, recs))
    for r, e, recs in kept: check(r, e, recs, tol=1e-3)
    for q, old in frozen.values():
        now = [dense(x) for x in q.G.lie_algebra] + [dense(x) for x in q.G.discrete_generators]
        require(all(np.array_equal(a, b) for a, b in zip(old, now)), lambda: f"the generators of {q.spec} changed")


def frame(groups, e, seed=0):
    """building on a representation, solving it or asking for its size leaves its action, perm and contents unchanged"""
    rng, recs, Ms, As = context(groups, seed)
    used = oracle.groups_of(e)
    r = build(e, [q.G for q in recs])
    if isinstance(r, int): raise Skip('integer')
    other = V(recs[0].G)
    snap = lambda: (str(r), tuple(r.reps.items()) if hasattr(r, 'reps') else None, tuple(r.perm) if hasattr(r, 'perm') else None, r.size())
    s0 = snap()
    for f in (lambda: r + other, lambda: other + r, lambda: r * other, lambda: other * r, lambda: r.T, lambda: 2 * r, lambda: r + 3, lambda: r.canonicalize(),
              lambda: r >> other, lambda: r == other, lambda: r.equivariant_basis(), lambda: r.equivariant_projector(), lambda: r**2 if r.size() < 8 else None):
        f()
        require(snap() == s0, lambda: f"an operation changed {e}: {s0} -> {snap()}")
    compare(r, e, recs, used, Ms, As, rng)
    require(str(Scalar) == "V⁰" and Scalar.size() == 1 and getattr(Scalar, 'G', None) is None and V.G is None, "the shared V or Scalar object changed")


def cases(tier, seed):
    yield 'group_eq', {}
    rng = np.random.default_rng(6000 + seed)
    n = 10 if tier == 'quick' else 120
    for i in range(n):
        s = int(rng.integers(1 << 30))
        yield 'order', dict(seed=s)
        yield 'rep_eq', dict(seed=s + 1)
        yield 'history', dict(seed=s + 2)
        yield 'history', dict(seed=s + 3)
        g, e = random_case(rng, ['+', '*', 'D', '>>', 'n*'], budget=30)
        yield 'frame', dict(groups=g, e=e, seed=s)
    for i in range(n * 2):
        yield 'history', dict(seed=int(rng.integers(1 << 30)))
