import numpy as np
from .reps_common import expr, linmap, random_case

ENV = {'JAX_ENABLE_X64': '1'}


def fixed():
    V, S = ['V', 0], ['S']
    T = lambda p, q=0, g=0: ['T', p, q, g]
    D = lambda e: ['D', e]
    sums = lambda: [V, D(V), ['+', T(2), V, S, D(V)], ['+', V, T(1, 1), T(2), V], ['n*', 3, ['+', V, S]], ['*', V, D(V), V],
                    ['*', ['+', V, S], ['+', D(V), T(2)]], ['C', 0, 'Blk'], ['+', ['C', 0, 'Det'], V, ['C', 0, 'Blk']],
                    ['*', ['C', 0, 'Blk'], V], S, ['+', S, S], ['+', D(['+', V, T(2)]), V]]
    for g in (['SL', 2], ['SO', 3], ['SO11p'], ['U', 2], ['S', 3], ['GL', 2], ['Scaling', 2]):
        for e in sums(): yield [g], D(e)
    for gs in ([['SL', 2], ['SO', 3]], [['S', 3], ['SL', 2]], [['SL', 3], ['SL', 2]], [['SO11p'], ['SL', 2]]):
        W = ['V', 1]
        for e in (['*', V, W], ['*', W, V, D(W)], ['+', W, V, S, ['*', W, V]], ['*', ['+', V, W], ['+', W, S]]):
            yield gs, D(e)


def fixed_maps():
    V, S = ['V', 0], ['S']
    T = lambda p, q=0, g=0: ['T', p, q, g]
    D = lambda e: ['D', e]
    for g in (['SL', 2], ['SO', 3], ['SO11p'], ['U', 2], ['S', 3]):
        yield [g], V, V
        yield [g], ['+', V, S, T(2)], ['+', S, D(V)]
        yield [g], T(1, 1), ['+', V, V, S]
        yield [g], S, ['+', V, T(2)]
        yield [g], ['+', T(2), V], S
        yield [g], D(V), T(2)
        yield [g], ['C', 0, 'Blk'], ['+', V, ['C', 0, 'Det']]
    for gs in ([['SL', 2], ['SO', 3]], [['S', 3], ['SL', 2]], [['SL', 3], ['SL', 2]]):
        W = ['V', 1]
        yield gs, V, W
        yield gs, ['*', W, V], ['+', V, W]
        yield gs, ['+', W, V], ['*', V, W]


def cases(tier, seed):
    for i, (g, e) in enumerate(fixed()): yield 'expr', dict(groups=g, e=e, seed=i, twice=True)
    for i, (g, a, b) in enumerate(fixed_maps()): yield 'linmap', dict(groups=g, e1=a, e2=b, seed=i)
    rng = np.random.default_rng(3000 + seed)
    for i in range(70 if tier == 'quick' else 3000):
        g, e = random_case(rng, ['D', 'DD', '>>', '<<', 'D'])
        if e[0] in ('>>', '<<') and rng.random() < .7: yield 'linmap', dict(groups=g, e1=e[1], e2=e[2], seed=int(rng.integers(1 << 30)))
        else: yield 'expr', dict(groups=g, e=e, seed=int(rng.integers(1 << 30)), twice=bool(rng.random() < .5))
