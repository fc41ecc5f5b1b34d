"""C05: equivariant basis and projector.  What the solver is assumed to do for one representation is stated in ``solved``:
Q has orthonormal columns, rho(h)Q = Q, drho(a)Q = 0 (soundness) and 1 - QQ^H = Y(rho(h)-1) + Z drho(a) for some Y, Z
(completeness: every x with (rho(h)-1)x = 0 and drho(a)x = 0 satisfies x = QQ^H x)."""
from vc.ob import Book
from contracts.reps import *
import emlp.reps.representation as rr
ob = Book()
S = 'product_sum_reps.py:'
R = 'representation.py:'


class Solved(AbsRep):
    """an arbitrary representation together with the solution the solver has found for it"""
    def k(self):
        """number of columns: none, or any positive number"""
        if not self.U.symbolic: return self.U.dim('k' + self.name, 0)
        key = ('rank', self.name)
        if key not in self.U.store: self.U.store[key] = self.U.choose(['any', 0], 'rank')
        return 0 if self.U.store[key] == 0 else self.U.dim('k' + self.name)

    def Q(self): return self.U.mat('Q' + self.name, (self.n, self.k()))
    def equivariant_basis(self): return self.Q()
    def equivariant_projector(self):
        Q = self.Q()
        return AbsOp(Q @ Q.conj().T)


def contraction(U, r, h='h0', a='a0'):
    """assumed contract of the solver for one representation (symbolic reading)"""
    if not U.symbolic: return concrete_solution(U, r, h, a)
    from vc.terms import delta, TExpr
    g = '' if r.G is None else r.G.name
    A, D, Q, Y, Z = f"{r.name}{g}.{h}", f"{r.name}{g}'{a}", 'Q' + r.name, 'Y' + r.name, 'Z' + r.name
    den(U, r, h), den(U, r, a, True), r.Q()
    for cj in (False, True):
        U.rule(Q, not cj, Q, cj, 0, 0, lambda f, g: delta(f.idx[1], g.idx[1]))
        U.rule(A, cj, Q, cj, 1, 0, lambda f, g: TExpr.entry(Q, (f.idx[0], g.idx[1]), g.cj))
        U.rule(D, cj, Q, cj, 1, 0, lambda f, g: TExpr.of(0))
    n = r.n
    Ym, Zm = U.mat(Y, (n, n)), U.mat(Z, (n, n))

    def complete(f, g):
        i, j = f.idx[0], g.idx[1]
        q = r.Q()
        return delta(i, j) - U.sum(r.k(), lambda c: U.at(q, i, c) * U.at(q, j, c).conj()) + U.at(Ym, i, j) - U.sum(n, lambda m: U.at(Zm, i, m) * TExpr.entry(D, (m, j)))
    U.rule(Y, False, A, False, 1, 0, complete)
    return Ym, Zm


def concrete_solution(U, r, h, a):
    """concrete reading: a group element and a Lie algebra element with a common invariant subspace, and its basis"""
    import numpy as np, jax.numpy as jnp
    n, k = r.n, min(r.k(), r.n)
    U.dims['k' + r.name] = k
    rng = U.r
    B = np.linalg.qr(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))[0]
    M = np.eye(n, dtype=complex)
    M[:, k:] = rng.standard_normal((n, n - k)) + 2 * np.eye(n)[:, k:]
    D = np.zeros((n, n), dtype=complex)
    D[:, k:] = rng.standard_normal((n, n - k))
    A, D = B @ M @ B.conj().T, B @ D @ B.conj().T
    g = '' if r.G is None else r.G.name
    U.store[('sq', f"{r.name}{g}.{h}")] = (jnp.asarray(A), jnp.asarray(np.linalg.inv(A)))
    U.cache[(f"{r.name}{g}'{a}", (n, n))] = D
    U.cache[('Q' + r.name, (n, k))] = B[:, :k]
    C = np.concatenate([A - np.eye(n), D])
    P = B[:, :k] @ B[:, :k].conj().T
    YZ = (np.eye(n) - P) @ np.linalg.pinv(C, rcond=1e-10)
    return YZ[:, :n], YZ[:, n:]


def sleaves(U, k, kinds=None, Gs=None):
    return [Solved(U, r.name, r.G, r.n, r.kind, r.order) for r in leaves(U, k, kinds, Gs)]


def rowpermuted(U, D, p):
    """X with X[p] = D"""
    q = U.perm_inv(p)
    return U.table(D.shape, lambda ix: U.at(D, U.at(q, ix[0]), ix[1]))


def solution(U, Q, P, Qs, r, Y, Z, msg, tok='h0', dtok='a0', rho=True):
    """the whole property for a composite: basis and projector operators denote Qs and Qs Qs^H; Qs is sound, orthonormal, complete"""
    n, K = Qs.shape
    U.eq(Q.shape[0], n, msg + ' rows of Q')
    U.eq(Q.shape[1], K, msg + ' columns of Q')
    U.eq(P.shape[0], n, msg + ' rows of P')
    U.eq(P.shape[1], n, msg + ' columns of P')
    c = U.dim('b')
    W, w, x, X = U.mat('W', (K, c)), U.vec('w', K), U.vec('x', n), U.mat('X', (n, c))
    Qh = Qs.T.conj()
    U.eq(Q @ w, Qs @ w, msg + ' Q on a vector')
    U.eq(Q @ W, Qs @ W, msg + ' Q on a matrix')
    U.eq(P @ x, Qs @ (Qh @ x), msg + ' P = QQ^H on a vector')
    U.eq(P @ X, Qs @ (Qh @ X), msg + ' P = QQ^H on a matrix')
    U.eq(Qh @ Qs, U.table((K, K), lambda ix: U.delta(*ix)), msg + ' orthonormal columns')
    q = Q @ w
    if not rho: return
    U.eq(r.rho(tok) @ q, q, msg + ' rho(h)Q = Q')
    U.eq(r.drho(dtok) @ q, U.table((n,), lambda ix: 0), msg + ' drho(a)Q = 0')
    if Y is None: return
    U.eq(Y @ (r.rho(tok) @ x - x) + Z @ (r.drho(dtok) @ x), x - P @ x, msg + ' completeness: 1 - P = Y(rho(h)-1) + Z drho(a)')


SUMF = [S + 'SumRep.equivariant_basis', S + 'SumRep.equivariant_projector', 'linear_operators.py:lazy_direct_matmat', S + 'SumRep.rho', S + 'SumRep.drho']


def _sum(names, cnts, kinds='oo', complete=True):
    def f(U):
        ls = sleaves(U, len(names), kinds)
        yz = [contraction(U, r) for r in ls]
        s = sum_state(U, 's', ls, [U.dim(f"c{i}") if c == 'n' else int(c) for i, c in enumerate(cnts)])
        items = list(s.reps.items())
        ix = [ls.index(r) for r, c in items]
        cs = [c for r, c in items]
        Qs = rowpermuted(U, directsum_spec(U, [r.Q() for r, c in items], cs), s.perm)
        Y = permuted(U, directsum_spec(U, [yz[t][0] for t in ix], cs), s.perm)
        Z = permuted(U, directsum_spec(U, [yz[t][1] for t in ix], cs), s.perm)
        solution(U, s.equivariant_basis(), s.equivariant_projector(), Qs, s, Y if complete else None, Z, 'sum')
    return f


for names, cnts, kinds in (('A', '1', 'o'), ('A', '2', 'o'), ('A', 'n', 'o'), ('AB', '11', 'oo'), ('AB', '21', 'oo'), ('AB', 'nn', 'oo')):
    ob.add(_sum(names, cnts, kinds), f"sum_{names}_{cnts}", SUMF, bound=f"sum of {names} with multiplicities {cnts} (n: arbitrary) in any internal order, one discrete and one Lie algebra generator; sizes, ranks, entries arbitrary", limit=90)


@ob(*SUMF, bound='one kind with any multiplicity and any number of scalars, any internal order', limit=60)
def sum_with_scalars(U):
    A, = sleaves(U, 1)
    Y, Z = contraction(U, A)
    c, d = U.dim('c'), U.dim('d')
    s = sum_state(U, 's', [A, Scalar], [c, d])
    one = U.table((1, 1), lambda ix: 1)
    zero = U.table((1, 1), lambda ix: 0)
    its = list(s.reps.items())
    pick = lambda a, b: [a if r is A else b for r, _ in its]
    cs = [k for _, k in its]
    Qs = rowpermuted(U, directsum_spec(U, pick(A.Q(), one), cs), s.perm)
    solution(U, s.equivariant_basis(), s.equivariant_projector(), Qs, s, permuted(U, directsum_spec(U, pick(Y, zero), cs), s.perm), permuted(U, directsum_spec(U, pick(Z, zero), cs), s.perm), 'sum with scalars')


@ob(*SUMF, bound='two groups, one kind each with any multiplicity, any internal order', limit=60)
def sum_over_two_groups(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    ls = sleaves(U, 2, 'oo', [G, H])
    for r in ls: contraction(U, r)
    s = sum_state(U, 's', ls, [U.dim('c0'), U.dim('c1')])
    items = list(s.reps.items())
    Qs = rowpermuted(U, directsum_spec(U, [r.Q() for r, c in items], [c for r, c in items]), s.perm)
    solution(U, s.equivariant_basis(), s.equivariant_projector(), Qs, s, None, None, 'sum over two groups', {G: 'h0', H: 'h0'}, {G: 'a0', H: 'a0'})


@ob(S + 'DirectProduct.equivariant_basis', S + 'DirectProduct.equivariant_projector', S + 'DirectProduct.rho', S + 'DirectProduct.drho', 'linear_operators.py:LazyKron._matmat',
    bound='two groups, one factor each, any internal order; one discrete and one Lie algebra generator per group', limit=90)
def direct_product(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    ls = sleaves(U, 2, 'oo', [G, H])
    yz = {r.name: contraction(U, r) for r in ls}
    s = product_state(U, 's', ls, [1, 1], DirectProduct)
    fs = list(s.reps)
    Qs = rowpermuted(U, kron_spec(U, [r.Q() for r in fs]), s.perm)
    Q, P = s.equivariant_basis(), s.equivariant_projector()
    solution(U, Q, P, Qs, s, None, None, 'direct product', rho=False)
    n = s.size()
    x, w = U.vec('x', n), U.vec('w', Qs.shape[1])
    q = Q @ w
    # constraints of the product group: (h,1), (1,h'), (a,0), (0,a').   1 - P1xP2 = (1-P1)x1 + P1x(1-P2)
    import itertools
    eye = lambda r: U.table((r.n, r.n), lambda ix: U.delta(*ix))
    total = 0
    for t, r in enumerate(fs):
        Y, Z = yz[r.name]
        pre = [f.Q() @ f.Q().conj().T if i < t else eye(f) for i, f in enumerate(fs)]
        R = permuted(U, kron_spec(U, [den(U, f, {f.G: 'h0'}) if f is r else eye(f) for f in fs]), s.perm)
        D = permuted(U, kron_spec(U, [den(U, f, {f.G: 'a0'}, True) if f is r else eye(f) for f in fs]), s.perm)
        U.eq(R @ q, q, f"fixed by the generators of {r.G.name}")
        U.eq(D @ q, U.table((n,), lambda ix: 0), f"annihilated by the Lie algebra of {r.G.name}")
        YY = permuted(U, kron_spec(U, [Y if f is r else m for f, m in zip(fs, pre)]), s.perm)
        ZZ = permuted(U, kron_spec(U, [Z if f is r else m for f, m in zip(fs, pre)]), s.perm)
        total = total + YY @ (R @ x - x) + ZZ @ (D @ x)
    U.eq(total, x - P @ x, 'completeness')


# ---------------------------------------------------------------- Rep: constraints, caching, null space

def same_constraints(U, C, blocks, n, msg):
    """C x = 0 says the same as: every block annihilates x.  Symbolic: C consists of the blocks, in any order, up to sign
    (any other form is not decided); concrete: the null spaces agree"""
    if not U.symbolic:
        import numpy as np
        C = np.asarray(C)
        M = np.concatenate([np.asarray(b) for b in blocks] + [np.zeros((1, n))])
        U.true(C.shape[1] == n, msg + ': number of columns')
        null = lambda X: np.linalg.svd(X)[2][np.linalg.matrix_rank(X, 1e-6):].conj().T
        a, b = null(C), null(M)
        U.true(a.shape == b.shape and np.allclose(a @ a.conj().T, b @ b.conj().T, atol=1e-4), msg + ': null space')
        return
    from vc.universe import Fail, Soft
    if U.sentinel: return U.eq(C, concat_spec(U, blocks) if blocks else U.table((1, n), lambda ix: 0), msg)
    if not blocks: return U.eq(C, U.table(C.shape, lambda ix: 0), msg)
    left = list(range(len(blocks)))
    if C.shape[0] != n * len(blocks): raise Soft(msg + ': other number of rows')
    for t in range(len(blocks)):
        for s in left:
            try:
                U.eq(C[t * n:(t + 1) * n], blocks[s], msg)
                break
            except Fail: pass
        else: raise Soft(f"{msg}: rows {t}n..{t + 1}n are none of the constraints")
        left.remove(s)


def _constraints(nd, nl, kind):
    def f(U):
        G = AbsGroup(U, 'G', nd=nd, nl=nl)
        A, = leaves(U, 1, kind, G)
        n = A.size()
        C = A.constraint_matrix()
        eye = U.table((n, n), lambda ix: U.delta(*ix))
        Ms = [den(U, A, h) - eye for h in G.discrete_generators] + [den(U, A, a, True) for a in G.lie_algebra]
        same_constraints(U, C.to_dense(), Ms, n, 'constraint matrix')
        X = U.mat('X', (n, U.dim('b')))
        U.eq(C @ X, C.to_dense() @ X, 'constraint matrix applied to a matrix')
    return f


for nd in (0, 1, 2):
    for nl in (0, 1, 2):
        ob.add(_constraints(nd, nl, 'o'), f"constraint_matrix_{nd}_{nl}", [R + 'Rep.constraint_matrix', 'linear_operators.py:ConcatLazy._matmat', 'linear_operators.py:ConcatLazy.to_dense', 'linear_operators.py:lazify'], bound=f"{nd} discrete and {nl} Lie algebra generators")
ob.add(_constraints(2, 1, 'd'), 'constraint_matrix_dense', [R + 'Rep.constraint_matrix', 'linear_operators.py:lazify'], bound='2 discrete, 1 Lie algebra generators')


class Recorder:
    """stands for a solver: checks that it is asked to solve the right constraints, and returns a named solution"""
    def __init__(self, U, expect, n): self.U, self.expect, self.n, self.calls = U, expect, n, 0

    def __call__(self, C):
        self.calls += 1
        from emlp.reps.linear_operator_base import LinearOperator
        if isinstance(C, LinearOperator): C = C.to_dense()
        same_constraints(self.U, C, self.expect, self.n, 'constraints handed to the solver')
        return self.U.mat('Q', (self.n, self.U.dim('kq', 0)))


class Key(AbsRep):
    """an arbitrary representation as the solver sees it"""
    def __eq__(self, o): return type(o) is type(self) and o.name == self.name and o.G == self.G
    __hash__ = AbsRep.__hash__
    equivariant_basis = Rep.equivariant_basis


def _solve(kind, cached):
    def f(U):
        G = AbsGroup(U, 'G')
        A0, = leaves(U, 1, 'o', G)
        A = Key(U, 'A', G, A0.n, 'o')
        if kind == 'leaf': r, p = A, None
        else:
            r = Permuted(U, A, 'p')
            p = r.p
        n = r.size()
        eye = U.table((n, n), lambda ix: U.delta(*ix))
        want = [den(U, A, 'h0') - eye, den(U, A, 'a0', True)]
        rec = Recorder(U, want, n)
        old = rr.orthogonal_complement, rr.krylov_constraint_solve, dict(Rep.solcache)
        Q = U.mat('Q', (n, U.dim('kq', 0)))
        rr.orthogonal_complement = rr.krylov_constraint_solve = rec
        try:
            Rep.solcache.clear()
            if cached: Rep.solcache[Key(U, 'A', G, A.n, 'o')] = Q
            got = r.equivariant_basis()
            again = r.equivariant_basis()
            base = A.equivariant_basis()
            keys = list(Rep.solcache)
        finally:
            rr.orthogonal_complement, rr.krylov_constraint_solve = old[:2]
            Rep.solcache.clear()
            Rep.solcache.update(old[2])
        spec = Q if p is None else rowpermuted(U, Q, p)
        U.eq(got, spec, 'basis: the solution of the canonical form in the order of the representation')
        U.eq(again, spec, 'second call')
        U.eq(base, Q, 'basis of the canonical form itself, from the cache')
    return f


class Unequal(Key):
    """different representations never share a solution, even with equal hashes"""
    def __hash__(self): return 5


@ob(R + 'Rep.equivariant_basis', bound='one discrete and one Lie algebra generator')
def solutions_of_different_representations_are_kept_apart(U):
    G = AbsGroup(U, 'G')
    n = U.dim('n')
    A, B = [Unequal(U, c, G, n, 'o') for c in 'AB']
    eye = U.table((n, n), lambda ix: U.delta(*ix))
    old = rr.orthogonal_complement, rr.krylov_constraint_solve, dict(Rep.solcache)
    log = []

    class Rec:
        def __init__(self, r): self.r = r

        def __call__(self, C):
            from emlp.reps.linear_operator_base import LinearOperator
            if isinstance(C, LinearOperator): C = C.to_dense()
            same_constraints(U, C, [den(U, self.r, 'h0') - eye, den(U, self.r, 'a0', True)], n, 'constraints handed to the solver')
            log.append(self.r.name)
            return U.mat('Q' + self.r.name, (n, U.dim('k' + self.r.name, 0)))
    try:
        Rep.solcache.clear()
        for r in (A, B, A, B):
            rr.orthogonal_complement = rr.krylov_constraint_solve = Rec(r)
            U.eq(r.equivariant_basis(), U.mat('Q' + r.name, (n, U.dim('k' + r.name, 0))), 'own solution')
    finally:
        rr.orthogonal_complement, rr.krylov_constraint_solve = old[:2]
        Rep.solcache.clear()
        Rep.solcache.update(old[2])


for kind in ('leaf', 'reordered'):
    for cached in (False, True):
        ob.add(_solve(kind, cached), f"basis_of_{kind}_{'cached' if cached else 'first'}", [R + 'Rep.equivariant_basis', R + 'Rep.constraint_matrix', R + 'Rep.canonicalize'],
               bound='one discrete and one Lie algebra generator; representation, canonical order and solution arbitrary', limit=60)


@ob(R + 'Rep.equivariant_projector', R + 'Rep.equivariant_basis', bound='')
def projector_of_a_representation(U):
    A, = leaves(U, 1)

    class L(AbsRep):
        equivariant_projector = Rep.equivariant_projector
        def equivariant_basis(self): return self.U.mat('Q', (self.n, self.U.dim('kq')))
    r = L(U, 'A', A.G, A.n)
    Q = r.equivariant_basis()
    denotes(U, r.equivariant_projector(), Q @ Q.conj().T, 'projector', ('apply', 'dense'))


@ob(R + 'Rep.equivariant_basis', bound='')
def basis_of_the_scalar(U):
    U.eq(Scalar.equivariant_basis(), U.table((1, 1), lambda ix: 1), 'basis')
    denotes(U, Scalar.equivariant_projector(), U.table((1, 1), lambda ix: 1), 'projector', ('apply',))


# ---------------------------------------------------------------- orthogonal_complement, under the contract of the SVD

def svd_state(U, wide):
    """an arbitrary matrix C = U S V^H with U, V unitary, singular values s_0..s_{r-1} above the cutoff and zero after them
    (assumed contract of the SVD; assumed gap: no singular value is positive and below the cutoff)"""
    if wide:
        m = U.dim('m')
        n = m + U.dim('d', 0)
    else:
        n = U.dim('n')
        m = n + U.dim('d')
    small = m if wide else n
    which = U.choose(['zero', 'full', 'between'], 'rank')
    r = 0 if which == 'zero' else small
    if which == 'between':
        r = U.dim('r')
        U.assume('ge', small - r - 1)
    return m, n, small, r


def _complement(wide):
    def f(U):
        m, n, small, r = svd_state(U, wide)
        if not U.symbolic: return concrete_complement(U, m, n, r)
        from vc import fakenp as K
        from vc.symarr import SymArray, asarr
        from vc.terms import delta
        from vc.poly import Poly, Unsupported
        A, W, sv = U.mat('svdU', (m, m)), U.mat('svdVH', (n, n)), U.mat('sv', (small,), True)
        for nm in ('svdU', 'svdVH'):
            for cj in (False, True):
                U.rule(nm, cj, nm, not cj, 1, 1, lambda f, g: delta(f.idx[0], g.idx[0]))
                U.rule(nm, cj, nm, not cj, 0, 0, lambda f, g: delta(f.idx[1], g.idx[1]))
        C = U.table((m, n), lambda ix: U.sum(r, lambda i: U.at(A, ix[0], i) * U.at(sv, i) * U.at(W, i, ix[1])) if type(r) is not int else 0)

        class Singular(SymArray):
            """the vector of singular values; comparing it with a cutoff gives an indicator whose sum is the rank"""
            def _ind(self, c):
                c = asarr(c).fn(()) if not isinstance(c, float) else c
                if not (isinstance(c, float) and 1e-8 <= c <= 1e-3): raise Unsupported("comparison of the singular values with something else than a fixed small cutoff")
                return Indicator((small,), lambda ix: 1 if U.lt(ix[0], r) else 0, 'i')
            def __gt__(self, c): return self._ind(c)
            def __ge__(self, c): return self._ind(c)

        class Indicator(SymArray):
            def sum(self, *a, **k): return r
        s = Singular((small,), lambda ix: U.at(sv, ix[0]) if type(r) is not int and U.lt(ix[0], r) else 0)
        seen = []

        def svd(a, full_matrices=True, compute_uv=True, **k):
            U.eq(a, C, 'argument of the SVD')
            seen.append(1)
            if full_matrices is not True or compute_uv is not True: raise Unsupported("reduced SVD")
            return A, s, W

        class Flag:
            def any(self, *a): return U.choose([False, True], 'isnan')
        old = K.JNP.__dict__.get('isnan'), K.NP.__dict__.get('isnan')
        for ns in (K.JNP, K.NP):
            ns.linalg.svd = svd
            ns.isnan = lambda x: Flag()
        try: Q = rr.orthogonal_complement(C)
        finally:
            for ns in (K.JNP, K.NP):
                del ns.linalg.svd
                del ns.isnan
        k = n - r
        U.eq(Q.shape[0], n, 'rows')
        U.eq(Q.shape[1], k, 'columns: n - rank')
        U.eq(Q.T.conj() @ Q, U.table((k, k), lambda ix: U.delta(*ix)), 'orthonormal columns')
        U.eq(C @ Q, U.table((m, k), lambda ix: 0), 'C Q = 0')
        # completeness: x - Q Q^H x = Y C x for all x, with Y = V_r diag(1/s) U_r^H; every x is W^H y
        y1, y2 = U.vec('y1', r) if type(r) is not int else None, U.vec('y2', k)
        part = lambda b: U.sum(r, lambda i: U.at(W, i, b).conj() * U.at(y1, i)) if type(r) is not int else 0
        x = U.table((n,), lambda ix: part(ix[0]) + U.sum(k, lambda j: U.at(W, r + j, ix[0]).conj() * U.at(y2, j)))
        Cx = C @ x
        YCx = U.table((n,), lambda ix: U.sum(r, lambda i: U.at(W, i, ix[0]).conj() * (1 / U.at(sv, i)) * U.sum(m, lambda a: U.at(A, a, i).conj() * U.at(Cx, a))) if type(r) is not int else 0)
        U.eq(x - Q @ (Q.T.conj() @ x), YCx, 'completeness')
    return f


def concrete_complement(U, m, n, r):
    import numpy as np, jax.numpy as jnp
    g = lambda *s: U.r.standard_normal(s) + 1j * U.r.standard_normal(s)
    C = g(m, r) @ g(r, n) if r else np.zeros((m, n))
    s = np.linalg.svd(C, compute_uv=False)
    if r and s[r - 1] < 1e-2: return U.true(True)
    Q = np.asarray(rr.orthogonal_complement(jnp.asarray(C)))
    U.true(Q.shape == (n, n - r), 'shape')
    U.eq(Q.conj().T @ Q, np.eye(n - r), 'orthonormal columns')
    U.eq(C @ Q / max(1, np.abs(C).max()), np.zeros((m, n - r)), 'C Q = 0')


for wide in (True, False):
    ob.add(_complement(wide), 'orthogonal_complement_' + ('wide' if wide else 'tall'), [R + 'orthogonal_complement'], bound='assumed: contract of the SVD, and no singular value strictly between zero and the cutoff; all sizes, all ranks', limit=60)
