"""C04: representations composed from homomorphisms are homomorphisms, with the matching derivative; Rep.drho of a custom representation."""
from vc.ob import Book
from contracts.reps import *
ob = Book()
S = 'product_sum_reps.py:'
R = 'representation.py:'
O = 'linear_operators.py:'
EPS = 'eps'


def eps(U):
    """a first-order infinitesimal (symbolic: its square is zero; concrete: a small step)"""
    return U.scalar(EPS, True) if U.symbolic else 1e-5


class HomRep(AbsRep):
    """an arbitrary representation known only to satisfy rho(g)rho(h) = rho(gh), rho(1) = 1 and
    rho(1 + eps*a) = 1 + eps*drho(a) + O(eps^2).  Tokens of group elements: 'g', 'h', 'gh', '1', 'e' (= 1 + eps*a)."""
    def mat(self, M):
        x = self.rho(M)
        return x.M if isinstance(x, AbsOp) else x

    def rho(self, M):
        U, t, g = self.U, token(M, self.G), self.G.name
        nm = f"{self.name}{g}."
        key = ('hom', nm, t)
        if key not in U.store: U.store[key] = self.make(U, nm, t)
        A, Ai = U.store[key]
        return AbsOp(A, Ai) if self.kind == 'o' else A

    def make(self, U, nm, t):
        n = self.n
        if t == '1':
            A = U.table((n, n), lambda ix: U.delta(*ix))
            if U.symbolic: A.meta = dict(inv=A)
            return A, A
        if t == 'e':
            D, e = self.lie('a'), eps(U)
            A = U.table((n, n), lambda ix: U.delta(*ix) + e * U.at(D, *ix))
            B = U.table((n, n), lambda ix: U.delta(*ix) - e * U.at(D, *ix))
            if U.symbolic: A.meta, B.meta = dict(inv=B), dict(inv=A)
            else:
                import numpy as np
                B = np.linalg.inv(A)
            return A, B
        if not U.symbolic and t == 'gh':
            A = self.mat2('g') @ self.mat2('h')
            import numpy as np, jax.numpy as jnp
            return A, jnp.asarray(np.linalg.inv(np.asarray(A)))
        A, Ai = cmat(U, nm + t, n)
        if U.symbolic and t == 'gh':
            from vc.terms import TExpr
            for cj in (False, True):
                U.rule(nm + 'g', cj, nm + 'h', cj, 1, 0, lambda f, g: TExpr.entry(nm + 'gh', (f.idx[0], g.idx[1]), f.cj))
                U.rule(nm + 'hinv', cj, nm + 'ginv', cj, 1, 0, lambda f, g: TExpr.entry(nm + 'ghinv', (f.idx[0], g.idx[1]), f.cj))
        return A, Ai

    def mat2(self, t):
        x = self.rho({self.G: t})
        return x.M if isinstance(x, AbsOp) else x

    def lie(self, a): return self.U.mat(f"{self.name}{self.G.name}'{a}", (self.n, self.n))

    def drho(self, M):
        A = self.lie(token(M, self.G))
        return AbsOp(A) if self.kind == 'o' else A


def hleaves(U, k, kinds=None, Gs=None):
    ls = leaves(U, k, kinds, Gs)
    return [HomRep(U, r.name, r.G, r.n, r.kind, r.order) for r in ls]


def homomorphism(U, r, msg, tok=lambda t: t):
    """the contract: rho(g)rho(h) = rho(gh), rho(1) = 1, rho(1+eps a) = 1 + eps drho(a)"""
    n = r.size()
    X = U.mat('X', (n, U.dim('k')))
    U.eq(r.rho(tok('g')) @ (r.rho(tok('h')) @ X), r.rho(tok('gh')) @ X, msg + ': rho(g)rho(h) = rho(gh)')
    U.eq(r.rho(tok('1')) @ X, X, msg + ': rho(1) = 1')
    e = eps(U)
    U.eq(trunc(U, r.rho(tok('e')) @ X), X + e * (r.drho(tok('a')) @ X), msg + ': derivative at the identity')
    v = U.vec('v', n)
    U.eq(r.rho(tok('g')) @ (r.rho(tok('h')) @ v), r.rho(tok('gh')) @ v, msg + ': on a vector')
    U.eq(trunc(U, r.rho(tok('e')) @ v), v + e * (r.drho(tok('a')) @ v), msg + ': derivative on a vector')


def trunc(U, a):
    """drop the terms of second and higher order in eps"""
    if not U.symbolic: return a
    from vc.terms import TExpr, normal
    from vc.symarr import asarr
    a = asarr(a)

    def f(ix):
        x = TExpr.of(a.fn(ix))
        return TExpr({(b, fs): c for (b, fs), c in x.t.items() if not any(q.kind == 'e' and q.name == EPS and ex > 1 for q, ex in fs)})
    return U.table(a.shape, f)


SUM = [S + 'SumRep.rho', S + 'SumRep.drho', S + 'SumRep.__init__', S + 'SumRep.compute_canonical']
PROD = [S + 'ProductRep.rho', S + 'ProductRep.drho', S + 'ProductRep.__init__', S + 'ProductRep.compute_canonical']
DUAL = [R + 'Dual.rho', R + 'Dual.drho', O + 'LazyKron.invT', O + 'LazyDirectSum.invT', O + 'LazyPerm.invT']


def parts_of(U, names, ls):
    d = dict(zip('ABC', ls))
    return [d[c.upper()].T if c.islower() else d[c] for c in names]


def _sum(names, cnts, kinds):
    def f(U):
        ls = hleaves(U, len(set(names.upper())), kinds)
        s = sum_state(U, 's', parts_of(U, names, ls), [U.dim(f"c{i}") if c == 'n' else int(c) for i, c in enumerate(cnts)])
        homomorphism(U, s, 'sum')
    return f


for names, cnts, kinds in (('A', 'n', 'o'), ('A', 'n', 'd'), ('AB', 'nn', 'oo'), ('AB', '12', 'od'), ('Ab', 'nn', 'oo'), ('Aa', 'nn', 'o'), ('ABC', 'nnn', 'ooo')):
    ob.add(_sum(names, cnts, kinds), f"sum_{names}_{cnts}_{kinds}", SUM + DUAL, bound=f"sum of {names} (lower case: duals) with multiplicities {cnts} (n: arbitrary), in any internal order; sizes and entries arbitrary", limit=90, tier='thorough' if len(names) > 2 else 'quick')


def _prod(names, cnts, kinds):
    def f(U):
        ls = hleaves(U, len(set(names.upper())), kinds)
        s = product_state(U, 's', parts_of(U, names, ls), [int(c) for c in cnts])
        homomorphism(U, s, 'product')
    return f


for names, cnts, kinds in (('A', '1', 'o'), ('A', '2', 'o'), ('A', '2', 'd'), ('AB', '11', 'oo'), ('AB', '11', 'od'), ('Ab', '11', 'oo'), ('Aa', '11', 'o'), ('A', '3', 'o'), ('AB', '21', 'oo'), ('ABC', '111', 'ooo')):
    ob.add(_prod(names, cnts, kinds), f"product_{names}_{cnts}_{kinds}", PROD + DUAL, bound=f"product of {names} (lower case: duals) with multiplicities {cnts}, in any internal order; sizes and entries arbitrary", limit=90)


@ob(S + 'DirectProduct.rho', S + 'DirectProduct.drho', bound='two groups, one factor each, any internal order', limit=90)
def direct_product(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    s = product_state(U, 's', hleaves(U, 2, 'oo', [G, H]), [1, 1], DirectProduct)
    homomorphism(U, s, 'direct product', lambda t: {G: t, H: t})
    X = U.mat('Y', (s.size(), U.dim('k')))
    # the element of one factor group moves only that factor: (g,1)(1,h) = (g,h) = (1,h)(g,1)
    gh = s.rho({G: 'g', H: 'h'}) @ X
    U.eq(s.rho({G: 'g', H: '1'}) @ (s.rho({G: '1', H: 'h'}) @ X), gh, '(g,1)(1,h) = (g,h)')
    U.eq(s.rho({G: '1', H: 'h'}) @ (s.rho({G: 'g', H: '1'}) @ X), gh, '(1,h)(g,1) = (g,h)')


@ob(S + 'SumRep.rho', S + 'SumRep.drho', S + 'DirectProduct.rho', bound='sum of representations of two groups, arbitrary multiplicities', limit=60)
def sum_over_two_groups(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    s = sum_state(U, 's', hleaves(U, 2, 'oo', [G, H]), [U.dim('ca'), U.dim('cb')])
    homomorphism(U, s, 'sum over two groups', lambda t: {G: t, H: t})


def _dual(kind):
    def f(U):
        A, = hleaves(U, 1, kind)
        D = A.T
        if kind == 'o': return homomorphism(U, D, 'dual')
        U.eq(D.rho('g') @ D.rho('h'), D.rho('gh'), 'rho(g)rho(h) = rho(gh)')
        one = U.table((A.n, A.n), lambda ix: U.delta(*ix))
        U.eq(D.rho('1'), one, 'rho(1)')
        U.eq(trunc(U, D.rho('e')), one + eps(U) * D.drho('a'), 'derivative')
    return f


for kind in 'od': ob.add(_dual(kind), 'dual_' + kind, DUAL, bound='')


def _dualof(case):
    def f(U):
        ls = hleaves(U, 2, 'oo')
        s = {'sum': lambda: sum_state(U, 's', ls, [2, 1]), 'product': lambda: product_state(U, 's', ls, [1, 1]), 'square': lambda: product_state(U, 's', ls[:1], [2])}[case]()
        homomorphism(U, s.T, 'dual of a ' + case)
        if case != 'sum': homomorphism(U, Dual(s), 'explicit dual of a ' + case)
    return f


for case in ('sum', 'product', 'square'): ob.add(_dualof(case), 'dual_of_a_' + case, DUAL + [S + 'SumRep.T', S + 'ProductRep.T'], bound='two kinds, any internal order', limit=90)


def _expr(case):
    def f(U):
        A, B = hleaves(U, 2, 'oo')
        r = {'A+B': lambda: A + B, '2*A+B': lambda: 2 * A + B, 'A*B': lambda: A * B, 'A**2': lambda: A**2, 'A*B+A': lambda: A * B + A, 'A*(A+B)': lambda: A * (A + B),
             'A>>B': lambda: A >> B, 'A+1': lambda: A + 1, '(A+B).T': lambda: (A + B).T}[case]()
        homomorphism(U, r, case)
    return f


for case in ('A+B', '2*A+B', 'A*B', 'A**2', 'A*B+A', 'A>>B', 'A+1', '(A+B).T', 'A*(A+B)'):
    ob.add(_expr(case), 'expression_' + case, SUM + PROD + DUAL, bound='the expression ' + case + '; sizes and entries arbitrary', limit=90)


@ob(R + 'ScalarRep.rho', R + 'ScalarRep.drho', bound='')
def the_scalar(U):
    U.eq(Scalar.rho('g') @ Scalar.rho('h'), Scalar.rho('gh'), 'rho(g)rho(h) = rho(gh)')
    one, zero = U.table((1, 1), lambda ix: 1), U.table((1, 1), lambda ix: 0)
    U.eq(Scalar.rho('1'), one, 'rho(1)')
    U.eq(Scalar.drho('a'), zero, 'drho')


@ob(R + 'Base.rho', R + 'Base.drho', bound='')
def the_defining_representation(U):
    """V: the matrices themselves, also when given per group"""
    n = U.dim('n')
    G = AbsGroup(U, 'G', d=n)
    V = Base(G)
    g, a = U.mat('g', (n, n)), U.mat('a', (n, n))
    U.eq(V.size(), n, 'size')
    for M in (g, {G: g}): U.eq(V.rho(M), g, 'rho')
    for M in (a, {G: a}): U.eq(V.drho(M), a, 'drho')


class Custom(Rep):
    """a user representation that defines rho only: here an arbitrary polynomial map  rho(M)[i,j] = SUM c*M.. (degree <= 2)"""
    def __init__(self, U, n, N, terms):
        self.U, self.n, self.N, self.G, self.terms = U, n, N, None, terms

    def rho(self, M):
        U, n = self.U, self.n
        out = U.mat('C0', (self.N, self.N))
        L, Rr = U.mat('L', (self.N, n)), U.mat('R', (n, self.N))
        out = out + L @ M @ Rr
        if self.terms > 1: out = out + U.mat('L2', (self.N, n)) @ M @ U.mat('K', (n, n)) @ M @ U.mat('R2', (n, self.N))
        return out

    def derivative(self, a):
        U, n = self.U, self.n
        out = U.mat('L', (self.N, n)) @ a @ U.mat('R', (n, self.N))
        if self.terms > 1: out = out + U.mat('L2', (self.N, n)) @ (a @ U.mat('K', (n, n)) + U.mat('K', (n, n)) @ a) @ U.mat('R2', (n, self.N))
        return out


def _custom(deg):
    def f(U):
        n, N = U.dim('n'), U.dim('N')
        r = Custom(U, n, N, deg)
        a = U.mat('a', (n, n), True)
        D = r.derivative(a)
        denotes(U, r.drho(a), D, 'drho', ('apply', 'adjoint', 'dense') if U.symbolic else ('apply', 'dense'))
        denotes(U, r.drho(AbsOp(a)), D, 'drho of a lazy generator', ('apply', 'dense'))
    return f


for deg in (1, 2):
    ob.add(_custom(deg), f"custom_drho_degree_{deg}", [R + 'Rep.drho', O + 'LazyJVP.__init__', O + 'LazyJVP._matmat', O + 'LazyJVP._matvec', O + 'LazyJVP._rmatmat'],
           bound=f"rho an arbitrary matrix polynomial of degree {deg} in the entries; jax.jvp assumed to be the directional derivative", limit=60)
