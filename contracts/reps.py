"""Contracts of representations: abstract leaves, and composite objects in an arbitrary state of their class invariant."""
import emlp.reps
from emlp.reps.representation import Rep, Scalar, ScalarRep, Base, Dual
from emlp.reps.product_sum_reps import SumRep, SumRepFromCollection, ProductRep, DirectProduct
import emlp.reps.product_sum_reps as psr
from contracts.ops import AbsOp, denotes
from contracts.specs import *


class AbsGroup:
    """what representations use of a group"""
    def __init__(self, U, name, orthogonal=False, permutation=False, d=None, nd=1, nl=1):
        self.name, self.is_orthogonal, self.is_permutation = name, orthogonal, permutation
        self.d = d
        self.discrete_generators = [f"h{i}" for i in range(nd)]
        self.lie_algebra = [f"a{i}" for i in range(nl)]

    def __eq__(self, o): return isinstance(o, AbsGroup) and self.name == o.name
    def __hash__(self): return sum(map(ord, self.name))
    def __repr__(self): return self.name


def token(M, G):
    return M[G] if isinstance(M, dict) else M


def cmat(U, name, n):
    """an invertible matrix (same object for the same name)"""
    from contracts.ops import square
    key = ('sq', name)
    if key not in U.store: U.store[key] = square(U, name, n)
    return U.store[key]


class AbsRep(Rep):
    """an arbitrary representation known by its contract: rho(M) is the matrix <name>.<M>, drho(A) the matrix <name>'<A>.
    kind: 'd' dense matrices, 'o' lazy operators"""
    def __init__(self, U, name, G, n, kind='o', order=0, permutation=False):
        self.U, self.name, self.G, self.n, self.kind, self.order, self.is_permutation = U, name, G, n, kind, order, permutation

    def size(self): return self.n
    def __eq__(self, o): return type(o) is AbsRep and o.name == self.name and o.G == self.G
    def __hash__(self): return self.order
    def __str__(self): return self.name

    def __call__(self, G): return AbsRep(self.U, self.name, G, self.n, self.kind, self.order, self.is_permutation)

    def mat(self, M):
        t = token(M, self.G)
        g = '' if self.G is None else self.G.name
        A, Ai = cmat(self.U, f"{self.name}{g}.{t}", self.n)
        return A

    def rho(self, M):
        t = token(M, self.G)
        g = '' if self.G is None else self.G.name
        if self.G is not None and self.G.is_orthogonal: return orth_rho(self, g, t)
        A, Ai = cmat(self.U, f"{self.name}{g}.{t}", self.n)
        return AbsOp(A, Ai) if self.kind == 'o' else A

    def drho(self, M):
        t = token(M, self.G)
        g = '' if self.G is None else self.G.name
        A = self.U.mat(f"{self.name}{g}'{t}", (self.n, self.n))
        return AbsOp(A) if self.kind == 'o' else A


def orth_rho(rep, g, t):
    """matrix of an orthogonal group (real, its transpose is its inverse)"""
    U, nm = rep.U, f"{rep.name}{g}.{t}"
    key = ('orth', nm)
    if key not in U.store:
        if U.symbolic:
            A = U.mat(nm, (rep.n, rep.n), True)
            from vc.terms import delta
            U.rule(nm, False, nm, False, 0, 0, lambda f, g: delta(f.idx[1], g.idx[1]))
            U.rule(nm, False, nm, False, 1, 1, lambda f, g: delta(f.idx[0], g.idx[0]))
            A.meta = dict(inv=A.T)
        else:
            import numpy as np, jax.numpy as jnp
            q, _ = np.linalg.qr(np.asarray(U.mat(nm, (rep.n, rep.n), True)))
            A = jnp.asarray(q)
        U.store[key] = A
    A = U.store[key]
    return AbsOp(A, A.T) if rep.kind == 'o' else A


def leaves(U, k, kinds=None, G=None, names='ABCD', permutation=False):
    """k different abstract representations; their hashes (which decide the canonical order of equal sizes) in any order"""
    import itertools
    orders = list(itertools.permutations(range(1, k + 1)))
    od = U.choose(orders, 'hash order') if k > 1 else (1,)
    G = G if G is not None else AbsGroup(U, 'G')
    Gs = G if isinstance(G, (list, tuple)) else [G] * k
    return [AbsRep(U, names[t], Gs[t], U.dim('n' + names[t]), (kinds or 'o' * k)[t], od[t], permutation) for t in range(k)]


def den(U, r, M, d=False):
    """the matrix a representation object denotes (specification): group (d=False) or Lie algebra (d=True)"""
    if isinstance(r, AbsRep):
        x = r.drho(M) if d else r.rho(M)
        return x.M if isinstance(x, AbsOp) else x
    if isinstance(r, ScalarRep): return U.table((1, 1), lambda ix: 0 if d else 1)
    if isinstance(r, Dual):
        A = den(U, r.rep, M, d)
        if d:
            At = A.T
            return U.table(At.shape, lambda ix: -1 * U.at(At, *ix))
        return inverse(U, A).T
    if isinstance(r, Permuted): return permuted(U, den(U, r.base, M, d), r.p)
    items = list(r.reps.items())
    Ms = [den(U, q, M, d) for q, c in items]
    if isinstance(r, SumRep): D = directsum_spec(U, Ms, [c for q, c in items])
    else:
        fs = [m for m, (q, c) in zip(Ms, items) for _ in range(c)]
        D = (kronsum_spec if d else kron_spec)(U, fs)
    return permuted(U, D, r.perm)


def inverse(U, A):
    if U.symbolic: return A.meta['inv']
    import numpy as np
    return np.linalg.inv(np.asarray(A))


def permuted(U, D, p):
    """the matrix acting on v such that v[p] is acted on by D:   X = P^T D P,  X[p[i],p[j]] = D[i,j]"""
    q = U.perm_inv(p)
    return U.table(D.shape, lambda ix: U.at(D, U.at(q, ix[0]), U.at(q, ix[1])))


def counts(U, k, sym):
    return [U.dim(f"c{t}") if sym else U.choose([1, 2], 'count') for t in range(k)]


def sum_state(U, name, parts, cnts):
    """a SumRep in an arbitrary state of its class invariant: sorted multiset of summands, arbitrary internal permutation"""
    order = sorted(parts)
    cn = {id(p): c for p, c in zip(parts, cnts)}
    s = object.__new__(SumRep)
    U.made.append(s)
    s.reps = {p: cn[id(p)] for p in order}
    n = 0
    for p, c in zip(parts, cnts): n = n + p.size() * c
    s.perm = U.perm('p' + name, n)
    s.invperm = U.perm_inv(s.perm)
    s.canonical = False
    s.is_permutation = all(p.is_permutation for p in parts)
    return s


def product_state(U, name, parts, cnts, cls=ProductRep):
    order = sorted(parts)
    cn = {id(p): c for p, c in zip(parts, cnts)}
    s = object.__new__(cls)
    U.made.append(s)
    s.reps = {p: cn[id(p)] for p in order}
    n = 1
    for p, c in zip(parts, cnts):
        for _ in range(c): n = n * p.size()
    s.perm = U.perm('p' + name, n)
    s.invperm = U.perm_inv(s.perm)
    s.canonical = False
    if cls is ProductRep: s.G = parts[0].G
    s.is_permutation = all(p.is_permutation for p in parts)
    return s


def sorted_strictly(U, s):
    """the keys of a composite object are in strictly increasing canonical order"""
    ks = list(s.reps)
    for a, b in zip(ks, ks[1:]): U.true(a < b and not b < a, 'summands in canonical order')


def invariant(U, s, msg):
    """class invariant of the composite representations"""
    n = s.size()
    U.eq(s.perm.shape[0], n, msg + ': length of perm')
    ar = U.table((n,), lambda ix: ix[0], 'i')
    U.eq(s.perm[s.invperm], ar, msg + ': perm after invperm')
    U.eq(s.invperm[s.perm], ar, msg + ': invperm after perm')
    sorted_strictly(U, s)
    U.true(s.is_permutation == all(r.is_permutation for r in s.reps), msg + ': permutation flag')


def acts_as(U, r, M, dM, msg, tok='g', dtok='a', what=('apply', 'dense')):
    """the contract of a composite: it denotes M(rho) and dM(drho)"""
    U.eq(r.size(), M.shape[0], msg + ' size')
    denotes(U, r.rho(tok), M, msg + '.rho', what)
    denotes(U, r.drho(dtok), dM, msg + '.drho', what)


class Permuted(Rep):
    """an arbitrary representation whose canonical form differs from it: canonicalize() returns (base, p), contract
    v[p] is in the order of base"""
    def __init__(self, U, base, name):
        self.base, self.G, self.is_permutation = base, base.G, base.is_permutation
        self.p = U.perm(name, base.size())
        self.U = U

    def size(self): return self.base.size()
    def canonicalize(self): return self.base, self.p
    def __str__(self): return 'perm ' + str(self.base)
