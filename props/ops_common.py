"""lazy operators from specs, with their dense matrices"""
import numpy as np
import jax, jax.numpy as jnp
import emlp.reps.linear_operators as lo
import emlp.reps.linear_operator_base as lb
from vc import oracle
from vc.case import require, Skip
from .exprs import close


def mat(rng, a, b, cplx):
    M = rng.standard_normal((a, b))
    if cplx: M = M + 1j * rng.standard_normal((a, b))
    if a == b: M = M + 2 * np.eye(a)
    return M


def make_op(spec, rng, cplx=False):
    k = spec[0]
    if k == 'M':
        M = mat(rng, spec[1], spec[2], cplx)
        return (M if rng.random() < .3 else jnp.asarray(M)), M
    if k == 'Lazy':
        M = mat(rng, spec[1], spec[2], cplx)
        return lo.Lazy(jnp.asarray(M)), M
    if k == 'I': return lo.I(spec[1]), np.eye(spec[1])
    if k == 'Perm':
        p = rng.permutation(spec[1])
        return lo.LazyPerm(p), np.eye(spec[1])[p]
    if k == 'Shift':
        n, s = spec[1:]
        return lo.LazyShift(n, s), np.eye(n)[(np.arange(n) - s) % n]
    if k == 'Swap':
        (i, j), n = spec[1:]
        P = np.eye(n)
        P[[i, j]] = P[[j, i]]
        return lo.SwapMatrix([i, j], n), P
    if k == 'Rot90':
        n, r = spec[1:]
        return lo.Rot90(n, r), np.eye(n * n)[np.rot90(np.arange(n * n).reshape(n, n), r).reshape(-1)]
    if k in ('Kron', 'Kronsum', 'Sum', 'Concat'):
        ops, ds = zip(*[make_op(s, rng, cplx) for s in spec[1]])
        ops = list(ops)
        if k == 'Kron': return lo.LazyKron(ops), oracle.kron(ds)
        if k == 'Kronsum': return lo.LazyKronsum(ops), oracle.kronsum(ds)
        if k == 'Concat': return lo.ConcatLazy(ops), np.concatenate(ds)
        m = spec[2]
        if m is None: return lo.LazyDirectSum(ops), oracle.bd(ds)
        mm = m if rng.random() < .5 else dict(enumerate(m)).values()
        return lo.LazyDirectSum(ops, mm), oracle.bd([d for d, c in zip(ds, m) for _ in range(c)])
    raise KeyError(k)


def vec(rng, shape, cplx):
    v = rng.standard_normal(shape)
    return v + 1j * rng.standard_normal(shape) if cplx else v


def offered(f):
    """the operator or None where the library does not offer it"""
    try: return f()
    except (NotImplementedError, AttributeError, RecursionError): return None


def apply_all(A, D, rng, cplx, what):
    J = jnp.asarray
    n = D.shape[1]
    require(tuple(A.shape) == D.shape, lambda: f"{what}: shape {A.shape} instead of {D.shape}")
    for shape in ((n,), (n, 1), (n, 2), (n, 5)):
        if isinstance(A, lb.LinearOperator) or True:
            v = vec(rng, shape, cplx)
            got = np.asarray(A @ J(v))
            require(got.shape == (D.shape[0],) + shape[1:] and close(got, D @ v), lambda: f"{what}: applied to shape {shape} gives {got.shape}, differs from the dense matrix")


SELF_T = ('I', 'M', 'Lazy', 'Perm', 'Shift', 'Swap', 'Kron', 'Kronsum', 'Sum', 'Concat')


def has_t(s):
    """transposes are offered for every operator but Rot90"""
    return s[0] != 'Rot90' and all(has_t(x) for x in (s[1] if s[0] in ('Kron', 'Kronsum', 'Sum', 'Concat') else []))


def has_invT(s):
    if s[0] in ('Kronsum', 'Concat'): return s[0] == 'Kronsum' and len(s[1]) == 1 and has_invT(s[1][0]) and s[1][0][0] != 'M'
    if s[0] == 'M': return False
    if s[0] == 'Lazy': return s[1] == s[2]
    if s[0] in ('Kron', 'Sum'):
        if s[0] == 'Kron' and len(s[1]) == 1: return has_invT(s[1][0])
        return all(has_invT(x) or (x[0] == 'M' and x[1] == x[2]) for x in s[1])
    return True


def check_op(A, D, rng, cplx, spec):
    islazy = isinstance(A, lb.LinearOperator)
    apply_all(A, D, rng, cplx, 'operator')
    if not islazy: return
    d = np.asarray(A.to_dense())
    require(d.shape == D.shape and close(d, D), f"to_dense of {spec} is not the defining matrix")
    if has_t(spec):
        apply_all(A.T, D.T, rng, cplx, 'transpose')
        apply_all(A.H, D.conj().T, rng, cplx, 'adjoint')
        require(close(np.asarray(A.T.to_dense()), D.T), f"dense transpose of {spec}")
        require(close(np.asarray(A.H.to_dense()), D.conj().T), f"dense adjoint of {spec}")
        apply_all(A.T.T, D, rng, cplx, 'double transpose')
        apply_all(A.H.H, D, rng, cplx, 'double adjoint')
    if has_invT(spec):
        W = np.linalg.inv(D).T
        if np.abs(W).max() < 1e4:
            apply_all(A.invT(), W, rng, cplx, 'inverse transpose')
            require(close(np.asarray(A.invT().to_dense()), W), f"dense inverse transpose of {spec}")
