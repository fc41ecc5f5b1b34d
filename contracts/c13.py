"""C13: gated representations and the gated nonlinearity."""
from vc.ob import Book
from contracts.reps import *
import emlp.nn.objax as nno
ob = Book()
N = 'nn/objax.py:'
FN = [N + 'gated', N + 'gate_indices', N + 'GatedNonlinearity.__call__']


class PermRep(AbsRep):
    """an arbitrary representation by permutation matrices"""
    def __init__(self, U, name, G, n, order=0):
        super().__init__(U, name, G, n, 'o', order, True)

    def rho(self, M):
        U, n = self.U, self.n
        p = U.perm(f"pi{self.name}.{token(M, self.G)}", n)
        A = U.table((n, n), lambda ix: U.delta(U.at(p, ix[0]), ix[1]))
        return AbsOp(A, A)

    def mat(self, M): return self.rho(M).M


def parts(U, names):
    """A, B, C: arbitrary representations; P: permutation representation; 1: scalar"""
    import itertools
    keys = sorted(set(names) - {'1'})
    orders = list(itertools.permutations(range(1, len(keys) + 1)))
    od = U.choose(orders, 'hash order') if len(keys) > 1 else (1,)
    G = AbsGroup(U, 'G')
    d = {'1': Scalar}
    for k, o in zip(keys, od): d[k] = PermRep(U, k, G, U.dim('n' + k), o) if k in 'PQ' else AbsRep(U, k, G, U.dim('n' + k), 'o', o)
    return [d[c] for c in names]


def sigmoid(U, x):
    if U.symbolic:
        from vc.terms import TExpr
        return TExpr.func('sigmoid', [TExpr.of(x)])
    import numpy as np
    return 1 / (1 + np.exp(-x))


def run(U, rep, x):
    """the nonlinearity of the library"""
    nno.gate_indices.cache_clear() if hasattr(nno.gate_indices, 'cache_clear') else None
    m = object.__new__(nno.GatedNonlinearity)
    U.made.append(m)
    m.rep = rep
    return m(x)


def is_scalar(r): return isinstance(r, ScalarRep)
def needs_gate(r): return not is_scalar(r) and not r.is_permutation


def check_gate(U, s, msg, whole=True):
    """contract: gated(s) is s followed by one scalar per gated copy; each component is multiplied by the sigmoid of its own gate"""
    n = s.size()
    isum = isinstance(s, SumRep)
    copies = [r for r, c in s.reps.items() for _ in range(c)] if isum else [s]
    k = sum(map(needs_gate, copies))
    g = nno.gated(s)
    U.eq(g.size(), n + k, msg + ': size of the gated representation')
    one, zero = U.table((1, 1), lambda ix: 1), U.table((1, 1), lambda ix: 0)
    if whole: acts_as(U, g, directsum_spec(U, [den(U, s, 'g'), one], [1, k]) if k else den(U, s, 'g'), directsum_spec(U, [den(U, s, 'a', True), zero], [1, k]) if k else den(U, s, 'a', True), msg + ': gated', what=('apply',)) if not isinstance(g, AbsRep) else None
    b = U.dim('b')
    x = U.mat('x', (b, n + k), True)
    y = run(U, s, x)
    U.eq(y.shape[0], b, msg + ': batch')
    U.eq(y.shape[1], n, msg + ': size of the result')
    # component by component, in the internal order
    off, gate = 0, 0
    for r in copies:
        m = r.size()
        pos = (lambda t, o=off: U.at(s.perm, o + t)) if isum else (lambda t: t)
        src = (lambda t, q=gate: n + q) if needs_gate(r) else pos
        got = U.table((b, m), lambda ix: U.at(y, ix[0], pos(ix[1])))
        U.eq(got, U.table((b, m), lambda ix: U.at(x, ix[0], pos(ix[1])) * sigmoid(U, U.at(x, ix[0], src(ix[1])))), f"{msg}: components of {type(r).__name__} number {off}")
        off, gate = off + m, gate + needs_gate(r)
    return g


def commutes(U, s, g, msg):
    n, N = s.size(), g.size()
    v = U.vec('v', N, True)
    R, GR = s.rho('g'), g.rho('g')
    y, z = run(U, s, GR @ v), R @ run(U, s, v)
    if isinstance(s, SumRep): y, z = y[s.perm], z[s.perm]
    U.eq(y, z, msg + ': commutes with the group')


def _sum(names, cnts):
    def f(U):
        ps = parts(U, names)
        s = sum_state(U, 's', ps, [int(c) for c in cnts])
        g = check_gate(U, s, 'sum')
        commutes(U, s, g, 'sum')
    return f


for names, cnts in (('A', '1'), ('A', '2'), ('P', '2'), ('1', '2'), ('1A', '11'), ('A1', '22'), ('AP', '11'), ('AP', '21'), ('AB', '11'), ('AB', '21'), ('PQ', '11'), ('AP1', '111'), ('AB1', '111'), ('AB', '23')):
    ob.add(_sum(names, cnts), f"sum_{names}_{cnts}", FN, bound=f"sum of {names} (P, Q: by permutations, 1: scalars) with multiplicities {cnts} in any internal order; sizes, entries, batch arbitrary; a single real row for the group action", limit=90, tier='thorough' if cnts == '23' else 'quick')


def _single(kind):
    def f(U):
        if kind == 'leaf': s, = parts(U, 'A')
        elif kind == 'permutation': s, = parts(U, 'P')
        elif kind == 'scalar': s = Scalar
        elif kind == 'dual': s = parts(U, 'A')[0].T
        elif kind == 'product': s = product_state(U, 's', leaves(U, 2), [1, 1])
        elif kind == 'square': s = product_state(U, 's', leaves(U, 1), [2])
        elif kind == 'direct': s = product_state(U, 's', leaves(U, 2, 'oo', [AbsGroup(U, 'G'), AbsGroup(U, 'H')]), [1, 1], DirectProduct)
        elif kind == 'permproduct': s = product_state(U, 's', parts(U, 'PQ'), [1, 1])
        if kind == 'direct':
            g = nno.gated(s)
            U.eq(g.size(), s.size() + 1, 'size')
            return
        g = check_gate(U, s, kind, kind not in ('scalar', 'dual'))
        if kind not in ('permproduct', 'square', 'product'): commutes(U, s, g, kind)
        elif kind != 'permproduct':
            n = s.size()
            v = U.vec('v', n + 1, True)
            U.eq(run(U, s, g.rho('g') @ v)[s.perm], (s.rho('g') @ run(U, s, v))[s.perm], kind + ': commutes with the group')
    return f


for kind in ('leaf', 'permutation', 'scalar', 'dual', 'product', 'square', 'direct', 'permproduct'):
    ob.add(_single(kind), 'single_' + kind, FN, bound='a single ' + kind + '; sizes, entries, batch arbitrary', limit=60)


@ob(*FN, bound='sums of two groups, one copy each')
def two_groups(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    s = sum_state(U, 's', leaves(U, 2, 'oo', [G, H]), [1, 1])
    check_gate(U, s, 'two groups', False)


@ob(N + 'gate_indices', bound='')
def gate_indices_depend_on_the_order(U):
    """the cached indices of one sum are not used for the same sum in another order"""
    if hasattr(nno.gate_indices, 'cache_clear'): nno.gate_indices.cache_clear()
    A, = parts(U, 'A')
    B = Scalar
    r1, r2 = SumRep(A, B), SumRep(B, A)
    x = U.vec('x', r1.size() + 1, True)
    n = A.size()
    for r, at in ((r1, 0), (r2, 1), (r1, 0)):
        m = object.__new__(nno.GatedNonlinearity)
        U.made.append(m)
        m.rep = r
        y = m(x)
        U.eq(y[at:at + n], U.table((n,), lambda ix: U.at(x, at + ix[0]) * sigmoid(U, U.at(x, n + 1))), 'gated by the appended scalar')
