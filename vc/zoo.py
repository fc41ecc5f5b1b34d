"""Groups used by the concrete checks. Generators are read off the real group object; the matrices are dense numpy."""
import numpy as np
from scipy.linalg import expm
import emlp.groups as g
from emlp.reps import V, Rep, Scalar, T
from emlp.reps.linear_operator_base import LinearOperator
from emlp.reps.linear_operators import densify
import jax, jax.numpy as jnp


def dense(M, d=None):
    """columnwise application, independent of to_dense"""
    if isinstance(M, LinearOperator):
        n = M.shape[1]
        if n == 0: return np.zeros(M.shape)
        return np.stack([np.asarray(M @ jnp.eye(n)[:, i]) for i in range(n)], axis=1)
    return np.asarray(M)


class Sq(Rep):
    """custom rep: rho only"""
    def __init__(self, G=None): self.G = G
    def __call__(self, G): return type(self)(G)
    def rho(self, M):
        M = densify(M)
        return jnp.kron(M, M)
    def __str__(self): return "Sq"


class Det(Rep):
    def __init__(self, G=None): self.G = G
    def __call__(self, G): return type(self)(G)
    def rho(self, M): return jnp.linalg.det(densify(M))[None, None]
    def __str__(self): return "Det"


class Blk(Rep):
    """M (+) det with explicit drho"""
    def __init__(self, G=None): self.G = G
    def __call__(self, G): return type(self)(G)
    def size(self): return self.G.d + 1
    def rho(self, M):
        M = densify(M)
        return jax.scipy.linalg.block_diag(M, jnp.linalg.det(M)[None, None])
    def drho(self, A):
        A = densify(A)
        return jax.scipy.linalg.block_diag(A, jnp.trace(A)[None, None])
    def __str__(self): return "Blk"


CUSTOM = {'Sq': Sq, 'Det': Det, 'Blk': Blk}


class Rec:
    """record of a group: spec is [name, args...]"""
    def __init__(self, spec):
        self.spec = spec
        self.G = make(spec)
        self.d = int(self.G.d)
        self.A = [dense(A).astype(complex if np.iscomplexobj(dense(A)) else float) for A in self.G.lie_algebra]
        self.h = [dense(h).astype(complex if np.iscomplexobj(dense(h)) else float) for h in self.G.discrete_generators]
        self.complex = any(np.iscomplexobj(x) for x in self.A + self.h)

    def sample(self, rng, scale=.5):
        M = np.eye(self.d)
        for rnd in range(2):
            if self.A:
                a = sum(scale * rng.standard_normal() * A for A in self.A)
                M = M @ expm(a)
            for i in rng.permutation(len(self.h)):
                M = M @ np.linalg.matrix_power(self.h[i], int(rng.integers(-2, 3)))
        return M

    def lie(self, rng):
        if not self.A: return np.zeros((self.d, self.d))
        return sum(rng.standard_normal() * A for A in self.A)

    def custom_size(self, kind): return {'Sq': self.d**2, 'Det': 1, 'Blk': self.d + 1}[kind]

    def custom(self, kind, mode, M):
        n = self.d
        if mode == 'rho':
            return {'Sq': lambda: np.kron(M, M), 'Det': lambda: np.array([[np.linalg.det(M)]]),
                    'Blk': lambda: _bd(M, np.linalg.det(M))}[kind]()
        I = np.eye(n)
        return {'Sq': lambda: np.kron(M, I) + np.kron(I, M), 'Det': lambda: np.array([[np.trace(M)]]),
                'Blk': lambda: _bd(M, np.trace(M))}[kind]()


def _bd(M, x):
    out = np.zeros((len(M) + 1,) * 2, dtype=np.result_type(M, x))
    out[:-1, :-1] = M
    out[-1, -1] = x
    return out


def make(spec):
    name, args = spec[0], spec[1:]
    if name == 'Embed': return g.Embed(make(args[0]), args[1], slice(*args[2]))
    if name == '*': return make(args[0]) * make(args[1])
    if name == 'Perms':   # user defined group from permutation matrices
        return UserPerms(*args)
    if name == 'Mats':
        return UserMats(*args)
    return getattr(g, name)(*args)


class UserPerms(g.Group):
    def __init__(self, *perms):
        self.discrete_generators = np.stack([np.eye(len(p))[np.array(p)] for p in perms])
        super().__init__(*[tuple(p) for p in perms])


class UserMats(g.Group):
    """lie algebra and discrete generators given as nested lists"""
    def __init__(self, lie, disc):
        if lie: self.lie_algebra = np.array(lie, dtype=float)
        if disc: self.discrete_generators = np.array(disc, dtype=float)
        super().__init__(repr(lie), repr(disc))


SMALL = [['SO', 2], ['O', 2], ['S', 3], ['Z', 2], ['SL', 2], ['GL', 2], ['SO11p'], ['O11'], ['Sp', 1], ['C', 4], ['D', 3],
         ['Scaling', 2], ['Trivial', 2], ['SO', 3], ['Z', 3], ['S', 2], ['O', 3], ['SL', 3], ['Scaling', 1],
         ['Mats', [[[0, 1], [0, 0]]], []], ['Mats', [], [[[2, 0], [0, .5]]]], ['Perms', [1, 2, 0]],
         ['Embed', ['SO', 2], 3, [2]], ['Embed', ['S', 2], 3, [1, 3]], ['U', 2], ['SU', 2], ['Trivial', 1], ['*', ['SO', 2], ['Z', 2]],
         ['*', ['SL', 2], ['S', 2]], ['*', ['S', 2], ['O11']], ['*', ['SL', 2], ['SO', 2]]]
NONORTH = [['SL', 2], ['GL', 2], ['SO11p'], ['O11'], ['Sp', 1], ['Scaling', 2], ['Mats', [[[0, 1], [0, 0]]], []], ['SL', 3],
           ['Mats', [], [[[2, 0], [0, .5]]]], ['*', ['S', 2], ['O11']], ['*', ['SL', 2], ['SO', 2]]]
