import numpy as np
import jax.numpy as jnp
from vc import oracle
from vc.case import require, Skip
from .exprs import close
from .ops_common import make_op, check_op

ENV = {'JAX_ENABLE_X64': '1'}


def op(spec, seed=0, cplx=False):
    """one structured operator: vectors, matrices with 1, 2, 5 columns, dense, transpose, adjoint, inverse transpose"""
    rng = np.random.default_rng(seed)
    A, D = make_op(spec, rng, cplx)
    check_op(A, D, rng, cplx, spec)


def cases(tier, seed):
    k = 0
    for s in ([['I', n] for n in (1, 2, 5, 17)] + [['Shift', n, s] for n in (1, 2, 3, 7) for s in (1, 0, 2, -1, 9)] +
              [['Swap', [i, j], n] for n, i, j in ((2, 0, 1), (5, 1, 3), (6, 4, 0), (3, 2, 2))] + [['Rot90', n, r] for n in (1, 2, 3, 5) for r in (0, 1, 2, 3, -1, 5)] +
              [['Perm', n] for n in (1, 2, 3, 4, 7, 20)]):
        for c in (False, True):
            k += 1
            yield 'op', dict(spec=s, seed=k, cplx=c)
    M = lambda a, b: ['M', a, b]
    L = lambda a, b: ['Lazy', a, b]
    for s in (['Kron', [M(2, 3)]], ['Kron', [M(2, 3), M(3, 2)]], ['Kron', [L(3, 2), M(1, 4), L(2, 2)]], ['Kron', [L(2, 2), L(3, 3)]], ['Kron', [M(3, 3), M(2, 2), M(2, 2)]],
              ['Kron', [L(1, 1), L(2, 5), M(3, 1), L(2, 2)]], ['Kron', [['Perm', 3], ['I', 2], L(2, 2)]], ['Kron', [['I', 2], ['Shift', 3, 1], ['I', 2]]],
              ['Kron', [['Shift', 4, 1], ['Rot90', 2, 1]]], ['Kronsum', [M(2, 2)]], ['Kronsum', [M(2, 2), L(3, 3)]], ['Kronsum', [L(2, 2), M(1, 1), L(3, 3)]],
              ['Kronsum', [M(2, 2), M(2, 2), M(3, 3), M(2, 2)]], ['Kronsum', [['Perm', 3], ['I', 2]]], ['Sum', [M(2, 3), L(1, 1)], None], ['Sum', [M(2, 3), L(3, 1)], [2, 3]],
              ['Sum', [L(2, 2), M(1, 1), ['Perm', 3]], [1, 4, 2]], ['Sum', [L(2, 2)], [5]], ['Sum', [M(2, 2), L(3, 3)], [1, 1]], ['Sum', [L(2, 2), L(3, 3)], [0, 2]],
              ['Sum', [M(3, 2), M(1, 3), L(2, 2), M(2, 1)], [1, 2, 3, 1]], ['Sum', [['Kron', [M(2, 2), L(2, 2)]], ['I', 2]], [2, 3]],
              ['Concat', [M(3, 4)]], ['Concat', [M(3, 4), L(3, 4)]], ['Concat', [L(2, 3), L(2, 3), M(2, 3), L(2, 3)]], ['Concat', [['Perm', 3], L(3, 3)]],
              ['Kron', [['Sum', [L(2, 2), M(1, 1)], [1, 2]], ['Concat', [L(1, 2), L(1, 2)]]]], ['Kron', [['Kronsum', [M(2, 2), L(2, 2)]], M(2, 1)]],
              ['Sum', [M(1, 1)] * 6, [1, 2, 1, 3, 1, 2]], ['Sum', [M(2, 2), M(2, 3)], [12, 7]], ['Kron', [M(2, 2)] * 5], ['Kronsum', [M(2, 2)] * 5], ['Sum', [M(7, 9)], None],
              ['Kron', [M(9, 8), L(2, 3)]], ['Concat', [M(2, 2)] * 7], ['Kron', [['Swap', [0, 2], 4], ['Rot90', 2, 3]]]):
        for c in (False, True):
            k += 1
            yield 'op', dict(spec=s, seed=k, cplx=c)
    rng = np.random.default_rng(8000 + seed)
    for i in range(150 if tier == 'quick' else 4000):
        yield 'op', dict(spec=rand_spec(rng, 2), seed=int(rng.integers(1 << 30)), cplx=bool(rng.random() < .5))


def rand_spec(rng, depth, shape=None):
    r = lambda a, b: int(rng.integers(a, b))
    if depth == 0 or rng.random() < .25:
        a, b = shape or (r(1, 5), r(1, 5))
        x = rng.random()
        if a == b and x < .4: return [['I', a], ['Perm', a], ['Shift', a, r(-3, 4)]][r(0, 3)]
        return ['M' if x < .7 else 'Lazy', a, b]
    k = ['Kron', 'Kronsum', 'Sum', 'Concat', 'Perm', 'Shift', 'Swap', 'Rot90'][r(0, 8)]
    if k == 'Kron': return ['Kron', [rand_spec(rng, depth - 1, (r(1, 4), r(1, 4))) for _ in range(r(1, 4))]]
    if k == 'Kronsum': return ['Kronsum', [rand_spec(rng, 0, (n, n)) for n in [r(1, 4) for _ in range(r(1, 5))]]]
    if k == 'Sum':
        m = r(1, 5)
        return ['Sum', [rand_spec(rng, depth - 1, (r(1, 4), r(1, 4))) for _ in range(m)], None if rng.random() < .2 else [r(1, 5) for _ in range(m)]]
    if k == 'Concat':
        a, b = r(1, 4), r(1, 5)
        return ['Concat', [rand_spec(rng, 0, (a, b)) for _ in range(r(1, 5))]]
    n = r(1, 9)
    return {'Perm': ['Perm', n], 'Shift': ['Shift', n, r(-9, 10)], 'Swap': ['Swap', [r(0, n), r(0, n)], n], 'Rot90': ['Rot90', r(1, 5), r(-4, 6)]}[k]
