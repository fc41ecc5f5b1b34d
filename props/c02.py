import numpy as np
from .reps_common import expr, random_case

ENV = {'JAX_ENABLE_X64': '1'}


def fixed():
    V, S = ['V', 0], ['S']
    T = lambda p, q=0, g=0: ['T', p, q, g]
    D = lambda e: ['D', e]
    for g in (['SL', 2], ['SO', 3], ['S', 3], ['SO11p'], ['U', 2]):
        yield [g], ['*', V, D(V)]
        yield [g], ['*', D(V), V, D(V), V]
        yield [g], ['*', ['+', V, S, T(2)], ['+', D(V), V]]
        yield [g], ['*', ['+', T(2), V], V, ['+', S, D(V)]]
        yield [g], ['*', V, ['+', D(V), V, S]]
        yield [g], ['^', ['+', V, S], 3]
        yield [g], ['^', V, 4]
        yield [g], ['*', S, ['+', V, T(2)]]
        yield [g], ['*', ['+', V, T(2)], S]
        yield [g], ['*', ['n*', 3, V], ['n*', 2, D(V)]]
        yield [g], ['*', ['n*', 2, ['+', V, D(V)]], ['+', ['n*', 2, V], S]]
        yield [g], ['*', ['*', V, D(V)], ['*', D(V), V]]
        yield [g], ['*', ['C', 0, 'Blk'], V, ['C', 0, 'Det'], D(V)]
        yield [g], ['*', ['+', ['C', 0, 'Sq'], V], ['+', V, ['C', 0, 'Det']]]
        yield [g], ['*', D(['+', V, T(2)]), V]
        yield [g], ['*', T(1, 1), ['+', T(1), T(0, 1)], ['+', S, S]]
    yield [['SL', 2]], ['^', V, 6]
    yield [['Scaling', 1]], ['*', ['^', V, 3], D(V), ['+', V, V]]
    for gs in ([['SL', 2], ['SO', 3]], [['S', 3], ['Z', 2]], [['SL', 3], ['SL', 2]], [['C', 3], ['C', 4]], [['U', 2], ['SU', 2]],
               [['SO', 2], ['O', 2]]):
        W = ['V', 1]
        yield gs, ['*', V, W]
        yield gs, ['*', W, V]
        yield gs, ['*', V, W, V]
        yield gs, ['*', W, D(V), V, D(W)]
        yield gs, ['*', ['+', V, W], ['+', W, V]]
        yield gs, ['*', ['+', V, S, W], W, V]
        yield gs, ['*', ['*', W, V], ['+', ['*', V, W], S]]
        yield gs, ['^', ['+', V, W], 2]
        yield gs, D(['*', W, V, W])
        yield gs, ['*', ['n*', 2, W], ['n*', 2, V]]
    for gs in ([['SL', 2], ['SO', 2], ['S', 2]], [['SO11p'], ['SL', 2], ['Z', 3]]):
        W, X = ['V', 1], ['V', 2]
        yield gs, ['*', X, V, W]
        yield gs, ['*', W, X, V, W]
        yield gs, ['*', ['+', X, V], W, D(V)]


def cases(tier, seed):
    for i, (g, e) in enumerate(fixed()): yield 'expr', dict(groups=g, e=e, seed=i)
    rng = np.random.default_rng(2000 + seed)
    for i in range(100 if tier == 'quick' else 3000):
        g, e = random_case(rng, ['*', '*', '*', '^'])
        yield 'expr', dict(groups=g, e=e, seed=int(rng.integers(1 << 30)))
