"""C07: composite operators denote the dense expression (structural induction: the operands are arbitrary operators,
known only through the contract ``denotes``)."""
from vc.ob import Book
from contracts.ops import AbsOp, AdjOnly, RmatOnly, square, denotes
from emlp.reps.linear_operator_base import LinearOperator, Lazy, IdentityOperator, MatrixLinearOperator
ob = Book()
B = 'linear_operator_base.py:'
ALL = ('apply', 'adjoint', 'dense', 'more', 'adjadj')


def two(U, same=True):
    m, n = U.dim('m'), U.dim('n')
    if same: return U.mat('A', (m, n)), U.mat('B', (m, n))
    return U.mat('A', (m, n)), U.mat('B', (n, U.dim('p')))


@ob(B + '_SumLinearOperator.*', B + 'LinearOperator.__add__', B + 'LinearOperator.dot', B + 'LinearOperator.matvec', B + 'LinearOperator.matmat')
def sum_of_operators(U):
    a, b = two(U)
    denotes(U, AbsOp(a) + AbsOp(b), a + b, 'A+B', ALL)


@ob(B + 'LinearOperator.__sub__', B + 'LinearOperator.__neg__', B + '_ScaledLinearOperator.*')
def difference(U):
    a, b = two(U)
    denotes(U, AbsOp(a) - AbsOp(b), a - b, 'A-B', ALL)


@ob(B + 'LinearOperator.__neg__', B + '_ScaledLinearOperator.*')
def negation(U):
    a, b = two(U)
    denotes(U, -AbsOp(a), -a, '-A', ALL)


@ob(B + '_ProductLinearOperator.*', B + 'LinearOperator.__matmul__', B + 'LinearOperator.__mul__')
def composition(U):
    a, b = two(U, False)
    denotes(U, AbsOp(a) @ AbsOp(b), a @ b, 'A@B', ALL)


@ob(B + '_ProductLinearOperator.*')
def composition_of_three(U):
    a, b = two(U, False)
    c = U.mat('C', (U.dim('p'), U.dim('q')))
    denotes(U, AbsOp(a) @ (AbsOp(b) * AbsOp(c)), a @ b @ c, 'A@(B*C)', ('apply', 'adjoint', 'dense'))
    denotes(U, (AbsOp(a) @ AbsOp(b)) @ AbsOp(c), a @ b @ c, '(A@B)@C', ('apply', 'adjoint', 'dense'))


@ob(B + 'LinearOperator.__radd__', B + 'LinearOperator.__add__', B + 'Lazy.*')
def sum_with_array(U):
    a, b = two(U)
    denotes(U, AbsOp(a) + b, a + b, 'A+dense', ALL)
    denotes(U, b + AbsOp(a) if not U.symbolic else AbsOp(a).__radd__(b), a + b, 'dense+A', ('apply', 'adjoint', 'dense'))


def _scaled(how):
    def f(U):
        a, _ = two(U)
        s = U.scalar('s')
        C = {'s*A': lambda: s * AbsOp(a) if not U.symbolic else AbsOp(a).__rmul__(s), 'A*s': lambda: AbsOp(a) * s,
             '3*A': lambda: 3 * AbsOp(a), 'A*(-2)': lambda: AbsOp(a) * (-2), 'A*2.5': lambda: AbsOp(a) * 2.5, 'A*(2+1j)': lambda: AbsOp(a) * (2 + 1j)}[how]()
        M = {'s*A': lambda: s * a, 'A*s': lambda: a * s, '3*A': lambda: 3 * a, 'A*(-2)': lambda: a * (-2), 'A*2.5': lambda: a * 2.5, 'A*(2+1j)': lambda: a * (2 + 1j)}[how]()
        denotes(U, C, M, how, ALL)
    return f


for h in ('s*A', 'A*s', '3*A', 'A*(-2)', 'A*2.5', 'A*(2+1j)'):
    ob.add(_scaled(h), f"scaled_{h}", [B + '_ScaledLinearOperator.*', B + 'LinearOperator.__rmul__', B + 'LinearOperator.dot', B + '_is_scalar'])


def _power(p):
    def f(U):
        n = U.dim('n')
        a = U.mat('A', (n, n))
        M = a
        for _ in range(p - 1): M = M @ a
        if p == 0:
            M = U.table((n, n), lambda ix: U.delta(ix[0], ix[1]))
            denotes(U, AbsOp(a) ** 0, M, 'A**0', ('apply', 'adjoint', 'dense'))
        else: denotes(U, AbsOp(a) ** p, M, f"A**{p}", ALL if p < 3 else ('apply', 'adjoint', 'dense'))
    return f


for p in (0, 1, 2, 3):
    ob.add(_power(p), f"power_{p}", [B + '_PowerLinearOperator.*', B + 'LinearOperator.__pow__'], bound=f"exponent {p}; size and entries arbitrary")


@ob(B + '_AdjointLinearOperator.*', B + '_TransposedLinearOperator.*', B + 'LinearOperator.adjoint', B + 'LinearOperator.transpose', B + 'LinearOperator.rmatmat')
def adjoint_and_transpose_by_default(U):
    a, _ = two(U)
    C = RmatOnly(a)
    for nm, D, M in (('H', C.H, a.T.conj()), ('T', C.T, a.T)):
        v, V = U.vec('v', M.shape[1]), U.mat('V', (M.shape[1], U.dim('k')))
        w, W = U.vec('w', M.shape[0]), U.mat('W', (M.shape[0], U.dim('k')))
        U.eq(D.shape[0], M.shape[0], nm)
        U.eq(D.shape[1], M.shape[1], nm)
        U.eq(D @ v, M @ v, f".{nm} @ vector")
        U.eq(D @ V, M @ V, f".{nm} @ matrix")
        U.eq(D.H @ w, M.T.conj() @ w, f".{nm}.H @ vector")
        U.eq(D.H @ W, M.T.conj() @ W, f".{nm}.H @ matrix")
        U.eq(D.T @ W, M.T @ W, f".{nm}.T @ matrix")
        U.eq(D.to_dense(), M, f".{nm} dense")


@ob(B + 'LinearOperator._rmatvec', B + 'LinearOperator._rmatmat', B + 'LinearOperator._matvec', B + '_TransposedLinearOperator.*')
def operator_with_matmat_and_adjoint(U):
    a, _ = two(U)
    denotes(U, AdjOnly(a), a, 'subclass', ALL)


@ob(B + 'Lazy.*')
def lazy(U):
    a, _ = two(U)
    denotes(U, Lazy(a), a, 'Lazy(A)', ALL)


@ob(B + 'MatrixLinearOperator.*', B + '_AdjointMatrixOperator.*')
def matrix_operator(U):
    a, _ = two(U)
    denotes(U, MatrixLinearOperator(a), a, 'MatrixLinearOperator(A)', ALL)


@ob(B + 'IdentityOperator.*')
def identity_operator(U):
    n = U.dim('n')
    denotes(U, IdentityOperator((n, n)), U.table((n, n), lambda ix: U.delta(ix[0], ix[1])), 'IdentityOperator', ALL)


@ob(B + '_CustomLinearOperator.*', B + 'LinearOperator.__new__')
def custom_operator(U):
    a, _ = two(U)
    h = a.T.conj()
    C = LinearOperator(a.shape, matvec=lambda x: a @ x, rmatvec=lambda x: h @ x, matmat=lambda x: a @ x, rmatmat=lambda x: h @ x)
    denotes(U, C, a, 'custom', ALL)


@ob(B + '_CustomLinearOperator._matmat', B + 'LinearOperator._matmat', B + 'LinearOperator._rmatmat', bound='1 to 3 columns')
def custom_operator_from_vectors(U):
    a, _ = two(U)
    h = a.T.conj()
    C = LinearOperator(a.shape, matvec=lambda x: a @ x, rmatvec=lambda x: h @ x)
    k = U.choose([1, 2, 3])
    V, W = U.mat(f"V{k}", (a.shape[1], k)), U.mat(f"W{k}", (a.shape[0], k))
    U.eq(C @ V, a @ V, 'columns')
    U.eq(C.matmat(V), a @ V, 'matmat')
    U.eq(C.H @ W, h @ W, 'adjoint columns')
    U.eq(C.rmatmat(W), h @ W, 'rmatmat')
    U.eq(C.T @ W, a.T @ W, 'transposed columns')


def _invT(kind):
    def f(U):
        n = U.dim('n')
        a, ai = square(U, 'A', n)
        b, bi = square(U, 'B', n)
        s = U.scalar('s')
        A, Bo = AbsOp(a, ai), AbsOp(b, bi)
        C, M = {'product': (lambda: A @ Bo, lambda: ai.T @ bi.T), 'scaled': (lambda: A * s, lambda: ai.T * (1 / s)),
                'square': (lambda: A ** 2, lambda: ai.T @ ai.T), 'Lazy': (lambda: Lazy(a), lambda: ai.T),
                'power0': (lambda: A ** 0, lambda: U.table((n, n), lambda ix: U.delta(ix[0], ix[1])))}[kind]
        denotes(U, C().invT(), M(), f"invT {kind}", ('apply',))
        # invT really is the inverse transpose: C.T @ C.invT() is the identity
        if kind in ('product', 'Lazy', 'square'):
            v = U.vec('v', n)
            U.eq(C().T @ (C().invT() @ v), v, f"C.T @ C.invT() {kind}")
    return f


for kd in ('product', 'scaled', 'square', 'Lazy', 'power0'):
    ob.add(_invT(kd), f"inverse_transpose_{kd}", [B + 'invT of ' + kd])


@ob(B + '_SumLinearOperator.__init__', B + '_ProductLinearOperator.__init__', B + 'LinearOperator.matvec', B + 'LinearOperator.matmat',
    B + 'LinearOperator.rmatvec', B + 'LinearOperator.rmatmat', B + '_PowerLinearOperator.__init__')
def mismatched_shapes_are_rejected(U):
    m, n, p, q = U.dim('m'), U.dim('n'), U.dim('p'), U.dim('q')
    a, b = U.mat('A', (m, n)), U.mat('B', (p, q))
    bad = U.choose(['rows', 'columns'])
    U.assume('ne', (m - p) if bad == 'rows' else (n - q))
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a) + AbsOp(b), 'A+B')
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a) - AbsOp(b), 'A-B')
    U.assume('ne', n - p)
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a) @ AbsOp(b), 'A@B')
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a) @ U.vec('x', p), 'A@vector')
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a) @ U.mat('X', (p, U.dim('k'))), 'A@matrix')
    U.assume('ne', m - p)
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a).H @ U.vec('x', p), 'A.H@vector')
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a).rmatvec(U.vec('x', p)), 'rmatvec')
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a).rmatmat(U.mat('X', (p, U.dim('k')))), 'rmatmat')
    U.assume('ne', m - n)
    U.raises((ValueError, TypeError, AssertionError), lambda: AbsOp(a) ** 2, 'power of a rectangular operator')
