import numpy as np
import emlp.groups as g
from emlp.nn import uniform_rep
from emlp.reps import T, V, Scalar
from emlp.reps.product_sum_reps import SumRep
from vc.case import require, Skip
from vc.zoo import make
from .reps_common import rec


def top_rank(ch, d):
    r = 0
    while (r + 2) * d**(r + 1) <= ch and (d > 1 or r < ch): r += 1
    return r


def pq(rep, G, orth):
    """tensor type of a summand from its public behaviour: (p,q), or None"""
    s = rep.size()
    cands = [(p, q) for p in range(12) for q in range(12 - p) if G.d**(p + q) == s]
    for p, q in cands:
        if rep == T(p, q, G): return p, q
    return None


def alloc(group, ch, seed=0):
    G = rec(group).G
    np.random.seed(seed)
    r = uniform_rep(ch, G)
    require(r.size() == ch, f"uniform_rep({ch},{G}) has size {r.size()}")
    d = G.d
    R = top_rank(ch, d)
    orth = bool(G.is_orthogonal)
    left, N = ch, np.zeros(R + 1, int)
    while left > 0:       # documented greedy allocation of channels per rank
        m = top_rank(left, d)
        for k in range(m + 1): N[k] += d**(m - k)
        left -= (m + 1) * d**m
    items = list(r.reps.items()) if isinstance(r, SumRep) else [(r, 1)]
    tot = {}
    types = {}
    for rep, n in items:
        t = pq(rep, G, orth)
        require(t is not None, lambda: f"uniform_rep({ch},{G}) contains {rep}, which is not a tensor representation of {G}")
        require(rep == Scalar or rep.G == G, lambda: f"uniform_rep({ch},{G}) contains {rep} of another group")
        tot[sum(t)] = tot.get(sum(t), 0) + n
        types[t] = types.get(t, 0) + n
    if d > 1:
        require(max(tot) == R, f"uniform_rep({ch},{G}): highest rank {max(tot)}, should be {R}")
    require(sum(n * d**k for k, n in tot.items()) == ch, "size")


def split(group, N, rank, seed=0):
    """binomial_allocation: N tensors of total rank"""
    from emlp.nn.objax import binomial_allocation
    from collections import Counter
    G = rec(group).G
    np.random.seed(seed)
    r = binomial_allocation(N, rank, G)
    if N == 0: return require(r == 0, f"binomial_allocation(0,{rank}) = {r}")
    size = r if isinstance(r, int) else r.size()
    require(size == N * G.d**rank, f"binomial_allocation({N},{rank},{G}) has size {size} instead of {N*G.d**rank}")
    if isinstance(r, int): return require(rank == 0, f"an integer for rank {rank}")
    items = list(r.reps.items()) if isinstance(r, SumRep) else [(r, 1)]
    c = Counter()
    for rep, n in items:
        t = next(((p, rank - p) for p in range(rank + 1) if rep == T(p, rank - p, G)), None)
        require(t is not None, lambda: f"binomial_allocation({N},{rank},{G}) contains {rep}, which is not of total rank {rank}")
        c[t] += n
    require(sum(c.values()) == N, f"binomial_allocation({N},{rank},{G}) has {sum(c.values())} tensors")


def lam(d, lo, hi):
    from emlp.nn.objax import lambertW
    for ch in range(lo, hi):
        r = lambertW(ch, d)
        require(r >= 0 and (r + 1) * d**r <= ch and (r + 2) * d**(r + 1) > ch, f"lambertW({ch},{d}) = {r}")


def cases(tier, seed):
    q = tier == 'quick'
    # huge channel counts: the allocation loop is exact integer arithmetic
    for s in (['SO', 2], ['SO', 3], ['S', 3], ['SL', 2], ['O11'], ['SO13p'], ['Z', 5], ['Sp', 1], ['D', 6], ['Scaling', 2], ['*', ['SO', 2], ['Z', 2]], ['Embed', ['SO', 2], 3, [2]], ['U', 2], ['Trivial', 2], ['Cube']):
        d = rec(s).d
        for ch in (list(range(1, 26)) + [27, 31, 48, 63, 64, 65, 100, 127, 128, 384, 385, 511, 512]) if q else range(1, 600):
            yield 'alloc', dict(group=s, ch=ch, seed=seed)
        for rank in range(4):
            for N in (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33):
                if q and d**rank * N > 3000: continue
                yield 'split', dict(group=s, N=N, rank=rank, seed=N + seed)
    for s in (['Trivial', 1], ['S', 2], ['Scaling', 1], ['GL', 1]):
        for ch in (range(1, 8) if s[1] == 1 else range(1, 40)): yield 'alloc', dict(group=s, ch=ch, seed=seed)
    for d in range(1, 40): yield 'lam', dict(d=d, lo=1, hi=500 if d > 1 else 80)
    for d in (2, 3, 10):
        for lo in (10**4, 10**6, 3 * 2**20): yield 'lam', dict(d=d, lo=lo, hi=lo + 200)
