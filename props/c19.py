import numpy as np
import jax, jax.numpy as jnp
from vc.case import require, Skip
from vc import hamil
from vc.zoo import dense, Rec
from scipy.linalg import expm

M = hamil.load()


def field(d, seed, kind):
    """a random differentiable Hamiltonian of 2d variables and its gradient"""
    rng = np.random.default_rng(seed)
    A = rng.standard_normal((2 * d, 2 * d))
    b = rng.standard_normal(2 * d)
    if kind == 'quad': return lambda z: .5 * (z @ A * z).sum(), lambda z: .5 * z @ (A + A.T)
    if kind == 'lin': return lambda z: (z * b).sum(), lambda z: b + 0 * z
    if kind == 'sin': return lambda z: jnp.sin(z @ b).sum(), lambda z: np.cos(z @ b)[..., None] * b
    if kind == 'exp': return lambda z: jnp.exp(.1 * z @ A).sum(), lambda z: .1 * np.exp(.1 * z @ A) @ A.T
    if kind == 'poly': return lambda z: (z**4 * b).sum() + (z[..., 0] * z[..., -1]).sum(), lambda z: 4 * z**3 * b + np.eye(2 * d)[0] * z[..., -1:] + np.eye(2 * d)[-1] * z[..., :1]
    raise KeyError(kind)


def dynamics(d, kind, seed=0, batch=()):
    H, dH = field(d, seed, kind)
    rng = np.random.default_rng(seed + 1)
    z = rng.standard_normal((*batch, 2 * d))
    g = np.asarray(dH(z))
    want = np.concatenate([g[..., d:], -g[..., :d]], -1)
    for t in (0., 3.7):
        got = np.asarray(M.hamiltonian_dynamics(H, jnp.asarray(z), t))
        require(got.shape == z.shape and np.abs(got - want).max() < 1e-6 * (1 + np.abs(want).max()), lambda: f"dynamics of a {kind} Hamiltonian, d={d}, batch {batch}: {got.ravel()[:6]} instead of (dH/dp,-dH/dq) {want.ravel()[:6]}")
    dHdt = (np.asarray(got) * g).sum(-1)
    require(np.abs(dHdt).max() < 1e-6 * (1 + np.abs(g).max()**2), "H is not conserved")
    J = np.asarray(M.symplectic_form(jnp.asarray(z)))
    require(np.allclose(J, np.concatenate([z[..., d:], -z[..., :d]], -1)), "symplectic form")
    q, p = M.unpack(jnp.asarray(z))
    require(np.array_equal(q, z[..., :d]) and np.array_equal(p, z[..., d:]) and np.array_equal(M.pack(q, p), z), "pack/unpack")


def odd(n):
    try: M.unpack(jnp.zeros(n))
    except AssertionError: return
    except Exception: return
    require(False, f"a state of odd dimension {n} is accepted")


def flow(kind, d, seed=0):
    """H along integrated trajectories; batched and single integration agree"""
    H, _ = field(d, seed, kind)
    rng = np.random.default_rng(seed + 2)
    z0 = .3 * rng.standard_normal((3, 2 * d))
    T = jnp.linspace(0, .5, 5)
    B = np.asarray(M.BHamiltonianFlow(H, jnp.asarray(z0), T, tol=1e-6))
    require(B.shape == (3, 5, 2 * d) and np.abs(B[:, 0] - z0).max() < 1e-6, f"rollouts of shape {B.shape}")
    h = np.array([[float(H(jnp.asarray(x))) for x in b] for b in B])
    require(np.abs(h - h[:, :1]).max() < 1e-3 * (1 + np.abs(h).max()), lambda: f"H changes along the batched flow of a {kind} Hamiltonian: {h.tolist()}")
    for i in range(2):
        S = np.asarray(M.HamiltonianFlow(H, jnp.asarray(z0[i]), T))
        require(S.shape == (5, 2 * d) and np.abs(S - B[i]).max() < 1e-2 * (1 + np.abs(B[i]).max()), "batched and single rollouts differ")
        hs = np.array([float(H(jnp.asarray(x))) for x in S])
        require(np.abs(hs - hs[0]).max() < 1e-2 * (1 + np.abs(hs).max()), lambda: f"H changes along the flow: {hs}")


def pendulum(seed, batch=(), scale=1.):
    P = M.pendulum()
    G = P.symmetry
    A, h = [dense(a) for a in G.lie_algebra], [dense(x) for x in G.discrete_generators]
    rng = np.random.default_rng(seed)
    require(G.d == 3 and len(A) == 1 and len(h) == 1, f"declared symmetry {G}")
    g = expm(sum(3 * rng.standard_normal() * a for a in A))
    for x in h:
        if rng.random() < .5: g = g @ x
    require(np.linalg.matrix_rank(A[0]) == 2 and np.linalg.det(h[0]) < 0, f"declared symmetry {G} is not O(2)")
    R = np.asarray(P.rep_in(G).rho_dense(jnp.asarray(g)))
    require(R.shape == (12, 12) and np.abs(R - np.kron(np.eye(4), g)).max() < 1e-6, f"declared representation {P.rep_in} does not act on all positions and momenta")
    require(P.rep_out(G).size() == 1, f"output representation {P.rep_out}")
    z = scale * rng.standard_normal((*batch, 12)) + np.array([0, 0, -1.5, 0, 0, -3.] + [0] * 6)
    Hs = [float(P.H(jnp.asarray(x))) for x in (z, z @ R.T)]
    require(abs(Hs[0] - Hs[1]) < 1e-6 * (1 + abs(Hs[0])), lambda: f"H of the double spring pendulum is not invariant: {Hs} for {z.tolist()}")
    if batch:
        each = sum(float(P.H(jnp.asarray(x))) for x in z.reshape(-1, 12))
        require(abs(each - Hs[0]) < 1e-6 * (1 + abs(each)), "H of a batch is not the sum of the Hamiltonians of its states")
    # equivariant dynamics
    f = lambda z: np.asarray(M.hamiltonian_dynamics(P.H, jnp.asarray(z), 0.))
    a, b = f(z @ R.T), f(z) @ R.T
    require(np.abs(a - b).max() < 1e-5 * (1 + np.abs(b).max()), "the dynamics of the double spring pendulum are not equivariant")
    st = P.stats
    require(np.size(st[0]) == 1 and float(st[0]) == 0 and np.size(st[1]) == 1, "statistics")
    z0 = P.sample_initial_conditions(5)
    require(z0.shape == (5, 12), f"initial conditions of shape {z0.shape}")


def cases(tier, seed):
    q = tier == 'quick'
    i = 0
    for kind in ('quad', 'lin', 'sin', 'exp', 'poly'):
        for d in (1, 2, 3, 4, 6, 9):
            for b in ((), (3,), (2, 2)):
                i += 1
                yield 'dynamics', dict(d=d, kind=kind, seed=i + 100 * seed, batch=list(b))
    for n in (1, 3, 7): yield 'odd', dict(n=n)
    for kind in ('quad', 'sin', 'poly'):
        for d in (1, 2, 3): yield 'flow', dict(kind=kind, d=d, seed=d + seed)
    for s in range(24 if q else 400): yield 'pendulum', dict(seed=s + 1000 * seed, batch=[[], [4], [2, 3], [1]][s % 4], scale=[1., .2, 3.][s % 3])
