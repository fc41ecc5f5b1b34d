"""Independent dense oracle for representation expressions (numpy float64/complex128 only)."""
import numpy as np
from functools import reduce
from scipy.linalg import expm, block_diag


def bd(Ms):
    Ms = [np.asarray(M) for M in Ms]
    n, m = sum(M.shape[0] for M in Ms), sum(M.shape[1] for M in Ms)
    out = np.zeros((n, m), dtype=np.result_type(float, *Ms) if Ms else float)
    i = j = 0
    for M in Ms:
        out[i:i + M.shape[0], j:j + M.shape[1]] = M
        i += M.shape[0]
        j += M.shape[1]
    return out


def kron(Ms):
    return reduce(np.kron, Ms, np.eye(1))


def kronsum(Ms):
    Ms = [np.asarray(M) for M in Ms]
    n = int(np.prod([M.shape[0] for M in Ms]))
    out = np.zeros((n, n), dtype=np.result_type(float, *Ms))
    for i, M in enumerate(Ms):
        out = out + kron([np.eye(N.shape[0]) if j != i else N for j, N in enumerate(Ms)])
    return out


# ---- expressions: nested lists, see props/exprs.py
class Zero: pass


def terms(e, mode, Gs, Ms):
    """dense matrix of expression e.  mode 'rho' or 'drho'. Gs: list of group records, Ms: matrix per group.
    Multiplying by the int 0 or adding the int 0 is the empty sum (size 0)."""
    k = e[0]
    one, zero = np.eye(1), np.zeros((1, 1))
    triv = one if mode == 'rho' else zero
    R = lambda x: terms(x, mode, Gs, Ms)
    cat = bd
    prod = kron if mode == 'rho' else kronsum
    if k == 'V': return np.asarray(Ms[e[1]])
    if k == 'S': return triv
    if k == 'C': return Gs[e[1]].custom(e[2], mode, np.asarray(Ms[e[1]]))
    if k == 'T':
        b = np.asarray(Ms[e[3]])
        d = dual(b, mode, Gs[e[3]])
        fs = [b] * e[1] + [d] * e[2]
        return prod(fs) if fs else triv
    if k == '+': return cat([R(x) for x in e[1:]])
    if k == '*': return prod([R(x) for x in e[1:]])
    if k == '^': return prod([R(e[1])] * e[2]) if e[2] else triv
    if k == 'n*': return cat([R(e[2])] * e[1])
    if k == '*n': return cat([R(e[1])] * e[2])
    if k == 'n+': return cat([triv] * e[1] + [R(e[2])])
    if k == '+n': return cat([R(e[1])] + [triv] * e[2])
    if k == 'D': return dualexpr(e[1], mode, Gs, Ms)
    if k == '>>': return prod([R(e[2]), dualexpr(e[1], mode, Gs, Ms)])
    if k == '<<': return prod([R(e[1]), dualexpr(e[2], mode, Gs, Ms)])
    raise KeyError(k)


def dual(m, mode, G=None):
    return np.linalg.inv(m).T if mode == 'rho' else -m.T


def dualexpr(e, mode, Gs, Ms):
    m = terms(e, mode, Gs, Ms)
    return dual(m, mode)


def size(e, Gs):
    k = e[0]
    S = lambda x: size(x, Gs)
    if k == 'V': return Gs[e[1]].d
    if k == 'S': return 1
    if k == 'C': return Gs[e[1]].custom_size(e[2])
    if k == 'T': return Gs[e[3]].d**(e[1] + e[2])
    if k == '+': return sum(S(x) for x in e[1:])
    if k == '*': return int(np.prod([S(x) for x in e[1:]]))
    if k == '^': return S(e[1])**e[2]
    if k == 'n*': return e[1] * S(e[2])
    if k == '*n': return e[2] * S(e[1])
    if k == 'n+': return e[1] + S(e[2])
    if k == '+n': return e[2] + S(e[1])
    if k == 'D': return S(e[1])
    if k in ('>>', '<<'): return S(e[1]) * S(e[2])
    raise KeyError(k)


def groups_of(e):
    k = e[0]
    if k in ('V', 'C'): return {e[1]}
    if k == 'S': return set()
    if k == 'T': return {e[3]} if e[1] + e[2] else set()
    out = set()
    for x in e[1:]:
        if isinstance(x, (list, tuple)): out |= groups_of(x)
    return out


def nullspace(C, tol=1e-6):
    C = np.asarray(C)
    if C.shape[0] == 0: return np.eye(C.shape[1])
    U, S, V = np.linalg.svd(C.astype(np.complex128 if np.iscomplexobj(C) else np.float64), full_matrices=True)
    r = int((S > tol * max(1, S.max() if len(S) else 1)).sum())
    return V[r:].conj().T
