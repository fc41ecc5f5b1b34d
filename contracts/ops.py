"""Contracts shared by the operator properties: what it means for a LinearOperator to denote a matrix."""
from emlp.reps.linear_operator_base import LinearOperator


class AbsOp(LinearOperator):
    """an arbitrary operator known only by its contract: it denotes the matrix M (children of a composite)"""
    def __init__(self, M, inv=None, H=None):
        super().__init__(None, M.shape)
        self.M, self.inv, self.HH = M, inv, H

    def _matmat(self, X): return self.M @ X
    def _matvec(self, x): return self.M @ x
    def _rmatmat(self, X): return self.M.T.conj() @ X
    def _rmatvec(self, x): return self.M.T.conj() @ x
    def _adjoint(self): return AbsOp(self.M.T.conj(), None if self.inv is None else self.inv.T.conj())
    def invT(self): return AbsOp(self.inv.T, self.M.T)
    def to_dense(self): return self.M


class AdjOnly(LinearOperator):
    """an operator that implements _matmat and _adjoint only (defaults of the base class for everything else)"""
    def __init__(self, M):
        super().__init__(None, M.shape)
        self.M = M

    def _matmat(self, X): return self.M @ X
    def _adjoint(self): return AdjOnly(self.M.T.conj())


class RmatOnly(LinearOperator):
    """an operator that implements _matmat and _rmatmat only"""
    def __init__(self, M):
        super().__init__(None, M.shape)
        self.M = M

    def _matmat(self, X): return self.M @ X
    def _rmatmat(self, X): return self.M.T.conj() @ X


def square(U, name, n):
    """an invertible matrix and its inverse"""
    A = U.mat(name, (n, n))
    if not U.symbolic:
        import numpy as np, jax.numpy as jnp
        return A, jnp.asarray(np.linalg.inv(np.asarray(A)))
    B = U.mat(name + 'inv', (n, n))
    from vc.terms import delta
    for a, b in ((name, name + 'inv'), (name + 'inv', name)):
        for cj in (False, True):
            U.rule(a, cj, b, cj, 1, 0, lambda f, g: delta(f.idx[0], g.idx[1]))
            # transposed contractions SUM_k A[k,j] B[i,k] are the same pattern with the factors swapped
            U.rule(b, cj, a, cj, 0, 1, lambda f, g: delta(g.idx[0], f.idx[1]))
    A.meta = dict(inv=B)
    B.meta = dict(inv=A)
    return A, B


def denotes(U, C, M, msg, what=('apply', 'adjoint', 'dense'), k=None):
    """the contract: C denotes the matrix M"""
    m, n = M.shape
    U.eq(C.shape[0], m, msg + ' rows')
    U.eq(C.shape[1], n, msg + ' columns')
    k = k if k is not None else U.dim('k')
    v, V = U.vec('v', n), U.mat('V', (n, k))
    if 'apply' in what:
        U.eq(C @ v, M @ v, msg + ' @ vector')
        U.eq(C @ V, M @ V, msg + ' @ matrix')
        U.eq(C.matvec(v.reshape(n, 1)), (M @ v).reshape(m, 1), msg + ' @ column')
    if 'more' in what:
        U.eq(C * v, M @ v, msg + ' * vector')
        U.eq(C(V), M @ V, msg + '(matrix)')
        U.eq(C.dot(V), M @ V, msg + '.dot')
        U.eq(C.matmat(V), M @ V, msg + '.matmat')
    if 'adjoint' in what:
        w, W = U.vec('w', m), U.mat('W', (m, k))
        Mh = M.T.conj()
        U.eq(C.H @ w, Mh @ w, msg + '.H @ vector')
        U.eq(C.H @ W, Mh @ W, msg + '.H @ matrix')
        U.eq(C.T @ w, M.T @ w, msg + '.T @ vector')
        U.eq(C.T @ W, M.T @ W, msg + '.T @ matrix')
        U.eq(C.rmatmat(W), Mh @ W, msg + '.rmatmat')
        U.eq(C.rmatvec(w), Mh @ w, msg + '.rmatvec')
    if 'adjadj' in what:
        U.eq(C.H.H @ V, M @ V, msg + '.H.H @ matrix')
        U.eq(C.T.T @ V, M @ V, msg + '.T.T @ matrix')
        U.eq(C.H.T @ v, M.conj() @ v, msg + '.H.T @ vector')
        U.eq(C.T.H @ v, M.conj() @ v, msg + '.T.H @ vector')
    if 'dense' in what: U.eq(C.to_dense(), M, msg + '.to_dense()')
