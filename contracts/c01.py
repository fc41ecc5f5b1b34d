"""C01: direct sums act block-diagonally in the order written."""
from vc.ob import Book
from contracts.reps import *
ob = Book()
S = 'product_sum_reps.py:'
SUM = [S + 'SumRep.__init__', S + 'SumRep.compute_canonical', S + 'SumRep.canonicalize', S + 'SumRepFromCollection.__init__', S + 'SumRep.rho', S + 'SumRep.drho', S + 'SumRep.size']


def sums_of(U, parts, msg, build, what=('apply', 'dense')):
    """contract of the sum of ``parts``: block-diagonal in the order written, and in a valid state"""
    s = build()
    Ms, dMs = [den(U, p, 'g') for p in parts], [den(U, p, 'a', True) for p in parts]
    one = [1] * len(parts)
    acts_as(U, s, directsum_spec(U, Ms, one), directsum_spec(U, dMs, one), msg, what=what)
    invariant(U, s, msg)
    return s


def _plain(how, names):
    """sum of abstract representations, possibly the same one several times"""
    def f(U):
        k = len(set(names))
        ls = leaves(U, k, how)
        parts = [ls[ord(c) - 65] for c in names]
        sums_of(U, parts, 'sum ' + names, lambda: SumRep(*parts))
    return f


for names in ('A', 'AB', 'AA', 'ABA', 'BAAB'):
    for how in ('oo', 'dd', 'od') if len(names) < 3 else ('od',):
        ob.add(_plain(how, names), f"sum_of_leaves_{names}_{how}", SUM, bound=f"{len(names)} summands; sizes, entries arbitrary")


def _states(how):
    """sum of SumReps in arbitrary states (nesting): leaves shared between the summands"""
    def f(U):
        ls = leaves(U, 2)
        A, B = ls
        parts = []
        for t, h in enumerate(how):
            if h == 'A': parts.append(A)
            elif h == 'B': parts.append(B)
            elif h == '1': parts.append(sum_state(U, f"s{t}", [A], [U.dim(f"c{t}")]))
            elif h == '2': parts.append(sum_state(U, f"s{t}", [A, B], [U.dim(f"c{t}"), U.dim(f"d{t}")]))
        sums_of(U, parts, 'sum of sums ' + how, lambda: SumRep(*parts), ('apply',))
    return f


for how in ('1', '2', '1A', 'B1', '2A', 'A2', '12', '22'):
    ob.add(_states(how), f"sum_of_sums_{how}", SUM, bound='two kinds of leaves; multiplicities, sizes, entries and internal permutations arbitrary', limit=60)


def _permuted(how):
    def f(U):
        A, B = leaves(U, 2)
        parts = [Permuted(U, {'A': A, 'B': B}[h.upper()], f"q{t}") if h.islower() else {'A': A, 'B': B}[h] for t, h in enumerate(how)]
        sums_of(U, parts, 'sum of reordered ' + how, lambda: SumRep(*parts))
    return f


for how in ('a', 'ab', 'aA', 'aa', 'Aba'):
    ob.add(_permuted(how), f"sum_of_reordered_{how}", SUM, bound='summands whose canonical form is any reordering of them; sizes and entries arbitrary')


def _operators(case):
    """the operators + and n* build the sum of what is written"""
    def f(U):
        A, B = leaves(U, 2)
        a, b, da, db = den(U, A, 'g'), den(U, B, 'g'), den(U, A, 'a', True), den(U, B, 'a', True)
        one, zero = U.table((1, 1), lambda ix: 1), U.table((1, 1), lambda ix: 0)
        S1 = lambda *p: ([x for x, _ in p], [y for _, y in p])
        pa, pb, pc = (a, da), (b, db), (one, zero)
        if case == 'A+B': s, (M, dM) = A + B, S1(pa, pb)
        elif case == '2*A': s, (M, dM) = 2 * A, S1(pa, pa)
        elif case == 'A*2': s, (M, dM) = A * 2, S1(pa, pa)
        elif case == 'A+2': s, (M, dM) = A + 2, S1(pa, pc, pc)
        elif case == '1+A': s, (M, dM) = 1 + A, S1(pc, pa)
        elif case == 'sum': s, (M, dM) = sum([A, B, A]), S1(pa, pb, pa)
        elif case == '0+A': s, (M, dM) = 0 + A, S1(pa)
        elif case == 'A+0': s, (M, dM) = A + 0, S1(pa)
        elif case == 'A+B+A': s, (M, dM) = A + B + A, S1(pa, pb, pa)
        elif case == '1*A': s, (M, dM) = 1 * A, S1(pa)
        else: s, (M, dM) = A + 2 * B, S1(pa, pb, pb)
        cs = [1] * len(M)
        D, dD = directsum_spec(U, M, cs), directsum_spec(U, dM, cs)
        if isinstance(s, SumRep): acts_as(U, s, D, dD, case)
        else: U.true(s is A, case + ' is A')
    return f


for case in ('A+B', '2*A', 'A*2', 'A+2', '1+A', 'sum', '0+A', 'A+B+A', 'A+2*B', '1*A', 'A+0'):
    ob.add(_operators(case), 'sum_operators_' + case, [S + 'SumRep.__init__', 'representation.py:Rep.__add__', 'representation.py:Rep.__radd__', 'representation.py:mul_reps'], bound='the expression ' + case)


@ob(S + 'SumRep.__init__', bound='sums of representations of different groups; two kinds')
def sums_over_different_groups(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    A, B = leaves(U, 2, 'oo', [G, H])
    Ms = lambda g, h: [den(U, A, {G: g, H: h}), den(U, B, {G: g, H: h})]
    s = SumRep(A, B, A)
    tok, dtok = {G: 'g', H: 'h'}, {G: 'a', H: 'b'}
    a, b, da, db = den(U, A, tok), den(U, B, tok), den(U, A, dtok, True), den(U, B, dtok, True)
    acts_as(U, s, directsum_spec(U, [a, b, a], [1] * 3), directsum_spec(U, [da, db, da], [1] * 3), 'A+B+A', tok, dtok, ('apply',))


@ob(S + 'SumRep.canonicalize', S + 'SumRepFromCollection.__init__')
def canonical_form_of_a_sum(U):
    """canonicalize() returns (c, p): c has the identity order and acts as the sum does on vectors reordered by p"""
    A, B = leaves(U, 2)
    s = sum_state(U, 's', [A, B], [U.dim('ca'), U.dim('cb')])
    c, p = s.canonicalize()
    n = s.size()
    U.eq(c.size(), n, 'size')
    U.eq(c.perm, U.table((n,), lambda ix: ix[0], 'i'), 'identity order')
    invariant(U, c, 'canonical form')
    v = U.vec('v', n)
    U.eq((s.rho('g') @ v)[p], c.rho('g') @ v[p], 'rho')
    U.eq((s.drho('a') @ v)[p], c.drho('a') @ v[p], 'drho')


@ob(S + 'SumRep.as_dict', S + 'SumRep.__iter__', S + 'SumRep.__len__')
def components_of_a_sum(U):
    """as_dict returns, for every constituent, its copies in order"""
    A, B = leaves(U, 2)
    ca, cb = U.dim('ca'), U.dim('cb')
    s = sum_state(U, 's', [A, B], [ca, cb])
    n = s.size()
    v, V = U.vec('v', n), U.mat('V', (U.dim('b'), n))
    d, D = s.as_dict(v), s.as_dict(V)
    off = 0
    for r, c in s.reps.items():
        m = r.size()
        o = off
        U.eq(d[r], U.table((c, m), lambda ix: U.at(v, U.at(s.perm, o + ix[0] * m + ix[1]))), f"component {r}")
        U.eq(D[r], U.table((V.shape[0], c, m), lambda ix: U.at(V, ix[0], U.at(s.perm, o + ix[1] * m + ix[2]))), f"component {r} of a batch")
        off = off + c * m
