"""oracle for the equivariant basis and projector"""
import numpy as np
import jax.numpy as jnp
from vc import oracle
from vc.case import require
from vc.zoo import dense
from .reps_common import rec, maxdev
from .exprs import build, close


def constraints(e, recs, used):
    n = oracle.size(e, recs)
    rows = [np.zeros((0, n))]
    I = [np.eye(q.d) for q in recs]
    O = [np.zeros((q.d, q.d)) for q in recs]
    for i in sorted(used):
        same = [j for j in range(len(recs)) if recs[j].G == recs[i].G]
        for h in recs[i].h: rows.append(oracle.terms(e, 'rho', recs, [h if j in same else I[j] for j in range(len(recs))]) - np.eye(n))
        for A in recs[i].A: rows.append(oracle.terms(e, 'drho', recs, [A if j in same else O[j] for j in range(len(recs))]))
    return np.concatenate(rows)


def todense(X, n):
    from emlp.reps.linear_operator_base import LinearOperator
    if isinstance(X, LinearOperator):
        m = X.shape[1]
        return np.asarray(X @ jnp.eye(m)) if m else np.zeros((X.shape[0], 0))
    return np.asarray(X)


def check(r, e, recs, tol=1e-4, projector=True, basis=True):
    used = oracle.groups_of(e)
    n = oracle.size(e, recs)
    C = constraints(e, recs, used)
    N = oracle.nullspace(C)
    k = N.shape[1]
    P = N @ N.conj().T
    if basis:
        Q = todense(r.equivariant_basis(), n)
        require(Q.shape[0] == n, lambda: f"basis of {r} has shape {Q.shape}, size is {n}")
        require(np.isfinite(Q).all(), lambda: f"basis of {r} is not finite")
        require(Q.shape[1] == k, lambda: f"basis of {r} has {Q.shape[1]} columns, the solution space of the constraints has dimension {k}")
        if k:
            require(np.abs(C @ Q).max() <= tol * (1 + np.abs(C).max()) if len(C) else True,
                    lambda: f"a column of the basis of {r} is not fixed by the generators: {np.abs(C @ Q).max()}")
            require(close(Q.conj().T @ Q, np.eye(k), tol), lambda: f"basis of {r} is not orthonormal")
            require(close(Q @ Q.conj().T, P, 10 * tol), lambda: f"basis of {r} does not span the solution space")
    if projector:
        got = todense(r.equivariant_projector(), n)
        require(close(got, P, 10 * tol), lambda: f"projector of {r} is not the orthogonal projector on the solution space: {maxdev(got, P)}")
