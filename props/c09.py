import numpy as np
import emlp.groups as g
from emlp.reps import V
from vc.case import require, Skip
from vc.zoo import dense

ETA = lambda d: np.diag([1.] + [-1.] * (d - 1))


def J(m):
    return np.block([[np.zeros((m, m)), np.eye(m)], [-np.eye(m), np.zeros((m, m))]])


# family -> (defining relation residual, dimension over R, size of the defining representation)
FAM = {
    'SO': (lambda A, n: A + A.T, lambda n: n * (n - 1) // 2, lambda n: n),
    'O': (lambda A, n: A + A.T, lambda n: n * (n - 1) // 2, lambda n: n),
    'SL': (lambda A, n: np.trace(A), lambda n: n * n - 1, lambda n: n),
    'GL': (lambda A, n: 0 * A, lambda n: n * n, lambda n: n),
    'Sp': (lambda A, n: A.T @ J(n) + J(n) @ A, lambda n: n * (2 * n + 1), lambda n: 2 * n),
    'U': (lambda A, n: A + A.conj().T, lambda n: n * n, lambda n: n),
    'SU': (lambda A, n: np.abs(A + A.conj().T).max() + abs(np.trace(A)), lambda n: n * n - 1, lambda n: n),
    'Scaling': (lambda A, n: A - np.trace(A) / n * np.eye(n), lambda n: 1, lambda n: n),
    'SO11p': (lambda A, n: A.T @ ETA(2) + ETA(2) @ A, lambda n: 1, lambda n: 2),
    'O11': (lambda A, n: A.T @ ETA(2) + ETA(2) @ A, lambda n: 1, lambda n: 2),
    **{k: (lambda A, n: A.T @ ETA(4) + ETA(4) @ A, lambda n: 6, lambda n: 4) for k in ('SO13p', 'SO13', 'O13', 'Lorentz')},
}


def family(name, n):
    rel, dim, size = FAM[name]
    G = getattr(g, name)(n) if n else getattr(g, name)()
    d = size(n)
    require(G.d == d, f"{name}({n}): d={G.d} instead of {d}")
    require(V(G).size() == d, f"{name}({n}): size of V is {V(G).size()}")
    As = [dense(A) for A in G.lie_algebra]
    require(all(A.shape == (d, d) for A in As), f"{name}({n}): generators of shape {[A.shape for A in As][:4]}")
    for i, A in enumerate(As):
        r = np.abs(rel(A, n)).max()
        require(r < 1e-9 * max(1, d), f"{name}({n}): generator {i} breaks the defining relation by {r}: {A.tolist() if d < 5 else ''}")
    M = np.array([np.concatenate([A.real.ravel(), A.imag.ravel()]) for A in As]).reshape(len(As), 2 * d * d)
    rk = int((np.linalg.svd(M, compute_uv=False) > 1e-6).sum()) if len(As) else 0
    require(rk == dim(n), f"{name}({n}): the generators span a space of dimension {rk} instead of {dim(n)}")


def cases(tier, seed):
    N = 9 if tier == 'quick' else 16
    for name in FAM:
        if name in ('SO11p', 'O11', 'SO13p', 'SO13', 'O13', 'Lorentz'): yield 'family', dict(name=name, n=0)
        else:
            lo = 1 if name in ('GL', 'Sp', 'U', 'SU', 'Scaling') else 2
            for n in range(lo, (N if name != 'Sp' else N // 2 + 1) + 1): yield 'family', dict(name=name, n=n)
            yield 'family', dict(name=name, n={'Sp': 11}.get(name, 21))
