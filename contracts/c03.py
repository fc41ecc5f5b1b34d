"""C03: duals act by the inverse transpose (minus the transpose), in the same order; linear maps V>>W."""
from vc.ob import Book
from contracts.reps import *
ob = Book()
S = 'product_sum_reps.py:'
R = 'representation.py:'
DUAL = [R + 'Dual.__init__', R + 'Dual.rho', R + 'Dual.drho', R + 'Dual.size', R + 'Rep.T']
SUMT = [S + 'SumRep.T', S + 'SumRep.__init__', S + 'SumRep.compute_canonical', S + 'SumRep.rho', S + 'SumRep.drho'] + DUAL
PRODT = [S + 'ProductRep.T', S + 'ProductRep.__init__', S + 'ProductRep.compute_canonical', S + 'ProductRep.rho', S + 'ProductRep.drho'] + DUAL


def neg(U, A): return U.table(A.shape, lambda ix: -1 * U.at(A, *ix))


def dual_den(U, r, M, d=False):
    """inverse transpose / minus transpose of the matrix denoted by r, built from the constituents of r"""
    if d: return neg(U, den(U, r, M, True).T)
    if isinstance(r, ScalarRep): return den(U, r, M)
    if isinstance(r, Dual): return den(U, r.rep, M)
    if not isinstance(r, (SumRep, ProductRep)): return inverse(U, den(U, r, M)).T
    items = list(r.reps.items())
    Ms = [dual_den(U, q, M) for q, c in items]
    D = directsum_spec(U, Ms, [c for q, c in items]) if isinstance(r, SumRep) else kron_spec(U, [m for m, (q, c) in zip(Ms, items) for _ in range(c)])
    return permuted(U, D, r.perm)


def dual_contract(U, r, t, msg, tok='g', dtok='a', what=('apply',)):
    D = dual_den(U, r, tok)
    acts_as(U, t, D, dual_den(U, r, dtok, True), msg, tok, dtok, what)
    # the specification really is the inverse transpose
    U.eq(D.T @ den(U, r, tok), U.table(D.shape, lambda ix: U.delta(*ix)), msg + ': (rho of the dual)^T rho = 1')


@ob(*DUAL)
def dual_of_a_representation(U):
    A, = leaves(U, 1, U.choose(['o', 'd']))
    D = A.T
    U.true(type(D) is Dual and D.T is A, 'A.T.T is A')
    dual_contract(U, A, D, 'dual', what=('apply', 'dense') if A.kind == 'o' else ('dense',)) if A.kind == 'o' else dense_dual(U, A, D)


def dense_dual(U, A, D):
    U.eq(D.size(), A.size(), 'size')
    U.eq(D.rho('g'), dual_den(U, A, 'g'), 'rho')
    U.eq(D.drho('a'), dual_den(U, A, 'a', True), 'drho')


@ob(*DUAL, R + 'ScalarRep.T', R + 'ScalarRep.rho', R + 'ScalarRep.drho')
def dual_of_the_scalar(U):
    U.true(Scalar.T == Scalar, 'the scalar is its own dual')
    U.eq(Scalar.T.rho('g'), U.table((1, 1), lambda ix: 1), 'rho')
    U.eq(Scalar.T.drho('a'), U.table((1, 1), lambda ix: 0), 'drho')


def _sumt(parts, cnts, dual=False):
    def f(U):
        ls = leaves(U, len(set(parts.upper())))
        d = dict(zip('ABC', ls))
        ps = [d[c.upper()].T if c.islower() else d[c] for c in parts]
        s = sum_state(U, 's', ps, [U.dim(f"c{i}") if c == 'n' else int(c) for i, c in enumerate(cnts)])
        t = s.T
        dual_contract(U, s, t, 'dual of a sum')
        invariant(U, t, 'dual of a sum')
        if dual: acts_as(U, t.T, den(U, s, 'g'), den(U, s, 'a', True), 'double dual', what=('apply',))
    return f


for parts, cnts in (('A', '1'), ('A', '2'), ('A', '3'), ('AB', '11'), ('AB', '21'), ('AB', '12'), ('Aa', '11'), ('Aa', '21'), ('ABa', '111'), ('aB', '11'), ('ab', '12')):
    ob.add(_sumt(parts, cnts, len(parts) < 3), f"dual_of_sum_{parts}_{cnts}", SUMT, bound=f"sum of {parts} (lower case: duals) with multiplicities {cnts}, in any internal order; sizes and entries arbitrary", limit=60)


def _prodt(parts, cnts, dual=False):
    def f(U):
        ls = leaves(U, len(set(parts.upper())))
        d = dict(zip('ABC', ls))
        ps = [d[c.upper()].T if c.islower() else d[c] for c in parts]
        s = product_state(U, 's', ps, [int(c) for c in cnts])
        t = s.T
        U.true(type(t) is ProductRep, 'a product')
        dual_contract(U, s, t, 'dual of a product')
        invariant(U, t, 'dual of a product')
        if dual: acts_as(U, t.T, den(U, s, 'g'), den(U, s, 'a', True), 'double dual', what=('apply',))
    return f


for parts, cnts in (('A', '1'), ('A', '2'), ('AB', '11'), ('Aa', '11'), ('aB', '11'), ('ab', '11'), ('AB', '21'), ('Aa', '12'), ('ABa', '111')):
    ob.add(_prodt(parts, cnts, sum(map(int, cnts)) < 3), f"dual_of_product_{parts}_{cnts}", PRODT, bound=f"product of {parts} (lower case: duals) with multiplicities {cnts}, in any internal order; sizes and entries arbitrary", limit=60)


@ob(S + 'ProductRep.T', S + 'DirectProduct.__init__', S + 'DirectProduct.rho', S + 'DirectProduct.drho', *DUAL, bound='two groups, one factor each, any internal order', limit=60)
def dual_of_direct_product(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    A, B = leaves(U, 2, 'oo', [G, H])
    s = product_state(U, 's', [A, B], [1, 1], DirectProduct)
    t = s.T
    U.true(type(t) is DirectProduct, 'a direct product')
    dual_contract(U, s, t, 'dual of a direct product', {G: 'g', H: 'h'}, {G: 'a', H: 'b'})


@ob(*DUAL, S + 'ProductRep.rho', 'linear_operators.py:LazyPerm.invT', 'linear_operators.py:LazyKron.invT', bound='Dual(..) applied explicitly to a product of two', limit=60)
def explicit_dual_of_a_product(U):
    A, B = leaves(U, 2)
    s = product_state(U, 's', [A, B], [1, 1])
    dual_contract(U, s, Dual(s), 'Dual(product)')


def _nested(case):
    def f(U):
        A, B = leaves(U, 2)
        if case == 'sum of products': s = sum_state(U, 's', [A, product_state(U, 'p', [A, B], [1, 1])], [1, 1])
        else: s = sum_state(U, 's', [A, product_state(U, 'p', [A], [2])], [1, 2])
        dual_contract(U, s, s.T, 'dual of a sum of products')
    return f


for case in ('sum of products', 'sum of powers'):
    ob.add(_nested(case), 'dual_of_' + case.replace(' ', '_'), SUMT + PRODT, bound=case + ', two kinds', limit=90, tier='quick')


def _orth(case):
    """orthogonal groups: the dual is the representation itself, or acts identically"""
    def f(U):
        G = AbsGroup(U, 'G', True)
        A, B = leaves(U, 2, 'oo', G)
        if case == 'leaf':
            U.true(A.T is A, 'A.T is A')
            return
        s = {'sum': lambda: sum_state(U, 's', [A, B], [2, 1]), 'product': lambda: product_state(U, 's', [A, B], [1, 1]), 'square': lambda: product_state(U, 's', [A], [2]),
             'direct': lambda: product_state(U, 's', [A, AbsRep(U, 'C', AbsGroup(U, 'H', True), U.dim('nC'), 'o', 9)], [1, 1], DirectProduct)}[case]()
        t = s.T
        acts_as(U, t, den(U, s, 'g'), den(U, s, 'a', True), 'dual over an orthogonal group', what=('apply',))
    return f


for case in ('leaf', 'sum', 'product', 'square', 'direct'):
    ob.add(_orth(case), 'orthogonal_dual_' + case, [R + 'Rep.T', S + 'SumRep.T', S + 'ProductRep.T'], bound='over orthogonal groups: ' + case, limit=60)


def _hom(case):
    """V>>W and W<<V are W*V.T and act on row-major flattened matrices X by X -> rho_W X rho_V^-1"""
    def f(U):
        A, B = leaves(U, 2)
        V, W = {'A>>B': (A, B), 'A>>A': (A, A), 'A*>>B': (A.T, B), 'A>>B*': (A, B.T), '1>>A': (Scalar, A), 'A>>1': (A, Scalar)}[case]
        m, n = W.size(), V.size()
        vd, wd = dual_den(U, V, 'g'), den(U, W, 'g')
        dvd, dwd = dual_den(U, V, 'a', True), den(U, W, 'a', True)
        X = U.mat('X', (m, n))
        for rep, nm in ((V >> W, '>>'), (W << V, '<<')):
            U.eq(rep.size(), m * n, nm + ' size')
            r, d = rep.rho('g'), rep.drho('a')
            U.eq((r @ X.reshape(m * n)).reshape(m, n), wd @ X @ vd.T, nm + ' on matrices')
            U.eq((d @ X.reshape(m * n)).reshape(m, n), dwd @ X - X @ den(U, V, 'a', True), nm + ' Lie algebra on matrices')
    return f


for case in ('A>>B', 'A>>A', 'A*>>B', 'A>>B*', '1>>A', 'A>>1'):
    ob.add(_hom(case), 'linear_maps_' + case, [R + 'Rep.__rshift__', R + 'Rep.__lshift__', S + 'mul_reps', S + 'ProductRep.rho', S + 'ProductRep.drho'] + DUAL, bound='the expression ' + case, limit=60)


def _homsum(case):
    def f(U):
        A, B = leaves(U, 2)
        V = {'sA>>B': lambda: sum_state(U, 's', [A], [2]), 's>>B': lambda: sum_state(U, 's', [A, B], [1, 1]), 'A>>s': lambda: A, 'A>>p': lambda: A}[case]()
        W = {'sA>>B': lambda: B, 's>>B': lambda: B, 'A>>s': lambda: sum_state(U, 't', [A, B], [1, 1]), 'A>>p': lambda: product_state(U, 't', [A, B], [1, 1])}[case]()
        m, n = W.size(), V.size()
        vd, wd = dual_den(U, V, 'g'), den(U, W, 'g')
        K = kron_spec(U, [wd, vd])
        dK = kronsum_spec(U, [den(U, W, 'a', True), dual_den(U, V, 'a', True)])
        for rep, nm in ((V >> W, '>>'), (W << V, '<<')): acts_as(U, rep, K, dK, nm, what=('apply',))
    return f


for case in ('sA>>B', 's>>B', 'A>>s', 'A>>p'):
    ob.add(_homsum(case), 'linear_maps_' + case, [R + 'Rep.__rshift__', R + 'Rep.__lshift__', S + 'distribute_product', S + 'SumRep.T'] + PRODT, bound='the expression ' + case + ' with s, p in any internal order', limit=100, tier='thorough' if case in ('sA>>B', 's>>B') else 'quick')
