"""C08: every structured operator denotes its defining matrix, for all sizes, entries, multiplicities and column counts."""
from vc.ob import Book
from contracts.ops import AbsOp, square, denotes
from contracts.specs import *
from emlp.reps.linear_operators import (I, LazyKron, LazyKronsum, LazyDirectSum, ConcatLazy, LazyPerm, LazyShift, SwapMatrix, Rot90,
                                        lazy_direct_matmat, lazify, densify, hermitian, kronsum)
from emlp.reps.linear_operator_base import LinearOperator, Lazy
ob = Book()
L = 'linear_operators.py:'
ALL = ('apply', 'adjoint', 'dense', 'more', 'adjadj')


@ob(L + 'I.*')
def identity(U):
    n = U.dim('n')
    denotes(U, I(n), eye_spec(U, n), 'I', ALL)
    denotes(U, I(n).invT(), eye_spec(U, n), 'I.invT', ('apply',))


def mats(U, k, sq=False, prefix='A'):
    out = []
    for t in range(k):
        r = U.dim(f"r{t}")
        out.append(U.mat(f"{prefix}{t}", (r, r if sq else U.dim(f"c{t}"))))
    return out


def wrap(U, Ms, how):
    """factors given as dense arrays or as operators"""
    return [M if h == 'd' else AbsOp(M) for M, h in zip(Ms, how)]


def _kron(how):
    def f(U):
        Ms = mats(U, len(how))
        denotes(U, LazyKron(wrap(U, Ms, how)), kron_spec(U, Ms), f"kron {how}", ALL if len(how) < 3 else ('apply', 'adjoint', 'dense'))
    return f


for how in ('o', 'dd', 'oo', 'do', 'od', 'ddd', 'odo', 'oooo'):
    ob.add(_kron(how), f"kronecker_{how}", [L + 'LazyKron.*', L + 'hermitian', L + 'product'], bound=f"{len(how)} factors; sizes, entries and columns arbitrary",
           tier='quick' if len(how) < 4 else 'thorough', limit=60)


def _kronsum(how):
    def f(U):
        Ms = mats(U, len(how), True)
        denotes(U, LazyKronsum(wrap(U, Ms, how)), kronsum_spec(U, Ms), f"kronsum {how}", ALL if len(how) < 3 else ('apply', 'adjoint', 'dense'))
    return f


for how in ('o', 'dd', 'oo', 'od', 'ddd', 'odo', 'oooo'):
    ob.add(_kronsum(how), f"kronecker_sum_{how}", [L + 'LazyKronsum.*', L + 'kronsum', L + 'hermitian'], bound=f"{len(how)} factors; sizes, entries and columns arbitrary",
           tier='quick' if len(how) < 4 else 'thorough', limit=60)


def _dsum(how, mult):
    def f(U):
        Ms = mats(U, len(how))
        cs = [U.dim(f"c_mult{t}") if mult == 'any' else 1 for t in range(len(how))]
        if mult is None: C = LazyDirectSum(wrap(U, Ms, how))
        else: C = LazyDirectSum(wrap(U, Ms, how), cs)
        denotes(U, C, directsum_spec(U, Ms, cs), f"direct sum {how}", ('apply', 'adjoint') if mult == 'any' else ('apply', 'adjoint', 'dense'))
    return f


for how, mult in (('d', 'any'), ('o', 'any'), ('dd', None), ('dd', 'any'), ('oo', 'any'), ('od', 'any'), ('ddd', None), ('odo', 'any'), ('oooo', 'any')):
    ob.add(_dsum(how, mult), f"direct_sum_{how}_{mult}", [L + 'LazyDirectSum.*', L + 'lazy_direct_matmat', L + 'hermitian'],
           bound=f"{len(how)} distinct blocks; sizes, entries, multiplicities and columns arbitrary", tier='quick' if len(how) < 4 else 'thorough', limit=60)


def _dsum_dense(cs):
    def f(U):
        Ms = mats(U, len(cs))
        denotes(U, LazyDirectSum(wrap(U, Ms, 'do'), list(cs)), directsum_spec(U, Ms, list(cs)), f"direct sum {cs}", ('dense', 'apply'))
    return f


for cs in ((1, 2), (2, 1), (3, 2), (0, 2), (2, 0)):
    ob.add(_dsum_dense(cs), f"direct_sum_dense_{cs[0]}{cs[1]}", [L + 'LazyDirectSum.to_dense'], bound=f"multiplicities {cs}; sizes and entries arbitrary")


def _concat(how):
    def f(U):
        r, c = U.dim('r'), U.dim('c')
        Ms = [U.mat(f"A{t}", (r, c)) for t in range(len(how))]
        denotes(U, ConcatLazy(wrap(U, Ms, how)), concat_spec(U, Ms), f"concat {how}", ALL)
    return f


for how in ('d', 'dd', 'oo', 'odo', 'oooo'):
    ob.add(_concat(how), f"concatenation_{how}", [L + 'ConcatLazy.*', L + 'hermitian'], bound=f"{len(how)} blocks; sizes, entries and columns arbitrary")


@ob(L + 'ConcatLazy.__init__')
def concatenation_of_different_sizes_is_rejected(U):
    a, b = U.mat('A', (U.dim('m'), U.dim('n'))), U.mat('B', (U.dim('p'), U.dim('n')))
    U.assume('ne', U.dim('m') - U.dim('p'))
    U.raises((AssertionError, ValueError), lambda: ConcatLazy([AbsOp(a), AbsOp(b)]), 'ConcatLazy')


@ob(L + 'LazyPerm.*')
def permutation(U):
    n = U.dim('n')
    p = U.perm('p', n)
    denotes(U, LazyPerm(p), perm_spec(U, p, n), 'LazyPerm', ALL)
    denotes(U, LazyPerm(p).invT(), perm_spec(U, p, n), 'LazyPerm.invT', ('apply',))
    v = U.vec('x', n)
    U.eq(LazyPerm(p).H @ (LazyPerm(p) @ v), v, 'P.H P')
    U.eq(LazyPerm(p) @ (LazyPerm(p).T @ v), v, 'P P.T')


def _shift(kk):
    """(S V)[(i+k) mod n] = V[i] for any integer k"""
    def f(U):
        n = U.dim('n')
        a = U.dim('a', 0)
        if not isinstance(kk, int): U.assume('ge', n - 1 - a)
        k = {'n': n, 'a': a, '-a': -a, 'n+a': n + a, '-n-a': -n - a}.get(kk, kk)
        C = LazyShift(n, k)
        v, V = U.vec('v', n), U.mat('V', (n, U.dim('c')))
        tgt = U.table((n,), lambda ix: U.divmod(ix[0] + k, n)[1], 'i')
        y = C @ v
        U.eq(y[tgt], v, 'shift @ vector')
        U.eq((C @ V)[tgt], V, 'shift @ matrix')
        U.eq(C.H @ V, V[tgt], 'adjoint of shift @ matrix')
        U.eq(C.T @ v, v[tgt], 'transpose of shift @ vector')
        U.eq(C.invT() @ v, y, 'invT')
        U.eq(C.shape[0], n, 'rows')
        U.eq(C.shape[1], n, 'columns')
    return f


for kk in (0, 1, 2, -1, -2, 'n', 'a', '-a', 'n+a', '-n-a'):
    ob.add(_shift(kk), f"cyclic_shift_{kk}", [L + 'LazyShift.*'], bound='shift by ' + (str(kk) if isinstance(kk, int) else f"{kk}, 0 <= a < n") + '; sizes and entries arbitrary')


@ob(L + 'SwapMatrix.*')
def row_swap(U):
    n = U.dim('n', 2)
    i = U.dim('i', 0)
    j = U.dim('j', 0)
    U.assume('ge', n - 1 - i)
    U.assume('ge', n - 1 - j)
    V = U.mat('V', (n, U.dim('k')))
    v = U.vec('v', n)
    C = SwapMatrix((i, j), n)

    def spec(X):
        f = lambda ix: U.at(X, j, *ix[1:]) * U.delta(ix[0], i) + U.at(X, i, *ix[1:]) * U.delta(ix[0], j) * (1 - U.delta(i, j)) \
            + U.at(X, ix[0], *ix[1:]) * (1 - U.delta(ix[0], i)) * (1 - U.delta(ix[0], j))
        return U.table(X.shape, f)
    for nm, op in (('swap', C), ('swap.H', C.H), ('swap.T', C.T), ('swap.invT', C.invT())):
        got, want = op @ V, spec(V)
        # rows i, j and any other row
        U.eq(got[i], V[j], nm + ' row i')
        U.eq(got[j], V[i], nm + ' row j')
        g = op @ v
        U.eq(g[i], v[j], nm + ' entry i')
        U.eq(g[j], v[i], nm + ' entry j')
        # an arbitrary other row r
        r = U.dim('r', 0)
        U.assume('ge', n - 1 - r)
        U.assume('ne', r - i)
        U.assume('ne', r - j)
        U.eq(got[r], V[r], nm + ' other row')
        U.eq(g[r], v[r], nm + ' other entry')
    U.eq(C.shape[0], n, 'rows')
    U.eq(C.shape[1], n, 'columns')


def _rot(k):
    def f(U):
        n = U.dim('n')
        C = Rot90(n, k)

        def src(i, j):   # where the entry of the rotated grid comes from (counterclockwise quarter turns)
            for _ in range(k % 4): i, j = j, n - 1 - i
            return i, j

        def f(ix):
            a, b = U.divmod(ix[0], n)
            c, d = U.divmod(ix[1], n)
            s, t = src(a, b)
            return U.delta(s, c) * U.delta(t, d)
        M = U.table((n * n, n * n), f)
        v, V = U.vec('v', n * n), U.mat('V', (n * n, U.dim('c')))
        U.eq(C @ v, M @ v, 'rot90 @ vector')
        U.eq(C @ V, M @ V, 'rot90 @ matrix')
        U.eq(C.to_dense(), M, 'rot90 dense')
        U.eq(C.invT() @ V, M @ V, 'rot90 invT')
    return f


for k in (0, 1, 2, 3, -1, 5):
    ob.add(_rot(k), f"rot90_{k}", [L + 'Rot90.*'], bound=f"{k} quarter turns; size and columns arbitrary")


def _inv(kind):
    def f(U):
        n = U.dim('n')
        a, ai = square(U, 'A', n)
        b, bi = square(U, 'B', U.dim('m'))
        if kind == 'kron': C, M = LazyKron([AbsOp(a, ai), AbsOp(b, bi)]).invT(), kron_spec(U, [ai.T, bi.T])
        elif kind == 'kron_dense': C, M = LazyKron([a, b]).invT(), kron_spec(U, [ai.T, bi.T])
        else:
            cs = [U.dim('c0'), U.dim('c1')]
            C, M = LazyDirectSum([AbsOp(a, ai), b], cs).invT(), directsum_spec(U, [ai.T, bi.T], cs)
        denotes(U, C, M, kind + '.invT', ('apply',))
    return f


for kd in ('kron', 'kron_dense', 'direct_sum'):
    ob.add(_inv(kd), f"inverse_transpose_{kd}", [L + 'LazyKron.invT', L + 'LazyDirectSum.invT', L + 'lazify'], bound='2 factors; sizes and entries arbitrary')


@ob(L + 'lazify', L + 'densify', L + 'hermitian')
def conversions(U):
    a = U.mat('A', (U.dim('m'), U.dim('n')))
    denotes(U, lazify(a), a, 'lazify(dense)', ALL)
    denotes(U, lazify(AbsOp(a)), a, 'lazify(operator)', ALL)
    U.eq(densify(a), a, 'densify(dense)')
    U.eq(densify(AbsOp(a)), a, 'densify(operator)')
    U.eq(hermitian(a), a.T.conj(), 'hermitian(dense)')
    denotes(U, hermitian(AbsOp(a)), a.T.conj(), 'hermitian(operator)', ALL)
