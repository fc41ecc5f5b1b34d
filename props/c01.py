import numpy as np
from .reps_common import expr, random_case

ENV = {'JAX_ENABLE_X64': '1'}


def fixed():
    V, S = ['V', 0], ['S']
    T = lambda p, q=0, g=0: ['T', p, q, g]
    D = lambda e: ['D', e]
    for g in (['SL', 2], ['SO', 3], ['S', 3], ['SO11p'], ['U', 2], ['GL', 2]):
        yield [g], ['+', T(2), V, S, T(2), D(V), V, T(1, 1), S]
        yield [g], ['+', T(1, 1), T(2), T(0, 1), T(1), T(0, 2), S]
        yield [g], ['+', ['+', V, T(2)], ['+', S, V], ['n*', 3, V], T(0, 1)]
        yield [g], ['n*', 5, ['+', T(2), V, S]]
        yield [g], ['*n', ['+', T(2), D(V)], 3]
        yield [g], ['n+', 3, ['+', T(2), V]]
        yield [g], ['+n', ['+', T(2), V, T(2)], 4]
        yield [g], ['+', ['n+', 2, V], ['+n', T(2), 3], ['C', 0, 'Blk'], ['C', 0, 'Det'], ['C', 0, 'Sq'], V]
        yield [g], ['n*', 30, V]
        yield [g], ['+'] + [V, S] * 6 + [T(2)] * 2
        yield [g], ['+', ['*', V, ['+', V, S]], T(2), ['*', ['+', S, V], V], V]
        yield [g], ['+', D(['+', T(2), V, S]), ['+', T(2), V]]
    for gs in ([['SL', 2], ['SO', 3]], [['S', 3], ['Z', 2]], [['SO11p'], ['SL', 2], ['S', 2]], [['SL', 3], ['SL', 2]],
               [['C', 3], ['C', 4]], [['U', 2], ['SU', 2]], [['SO', 2], ['O', 2]], [['Z', 3], ['S', 3]]):
        W = ['V', 1]
        yield gs, ['+', V, W, V, W]
        yield gs, ['+', W, ['n*', 2, V], S, ['D', W], V]
        yield gs, ['+', ['*', V, W], W, ['*', W, V], V, ['*', V, W], S]
        yield gs, ['n*', 3, ['+', W, V, ['*', W, V]]]
        yield gs, ['+', ['+', W, ['*', V, W, V]], ['+', V, ['D', ['*', W, V]]]]


def cases(tier, seed):
    for i, (g, e) in enumerate(fixed()): yield 'expr', dict(groups=g, e=e, seed=i)
    rng = np.random.default_rng(1000 + seed)
    for i in range(100 if tier == 'quick' else 3000):
        g, e = random_case(rng, ['+', '+', '+', 'n*', '*n', 'n+', '+n'])
        yield 'expr', dict(groups=g, e=e, seed=int(rng.integers(1 << 30)))
