"""C02: tensor products act by Kronecker products in the order written."""
from vc.ob import Book
from contracts.reps import *
ob = Book()
S = 'product_sum_reps.py:'
PROD = [S + 'ProductRep.__init__', S + 'ProductRep.compute_canonical', S + 'ProductRep.canonicalize', S + 'ProductRep.rho', S + 'ProductRep.drho', S + 'ProductRep.size']
DP = [S + 'DirectProduct.__init__', S + 'DirectProduct.rho', S + 'DirectProduct.drho', S + 'ProductRep.compute_canonical', S + 'ProductRep.canonicalize']
DIST = [S + 'distribute_product', S + 'rep_permutation', S + 'SumRep.__init__', S + 'SumRep.compute_canonical', S + 'SumRepFromCollection.__init__']


def product_of(U, s, parts, msg, what=('apply',), tok='g', dtok='a'):
    Ms, dMs = [den(U, p, tok) for p in parts], [den(U, p, dtok, True) for p in parts]
    acts_as(U, s, kron_spec(U, Ms), kronsum_spec(U, dMs), msg, tok, dtok, what=what)
    if isinstance(s, (ProductRep, SumRep)): invariant(U, s, msg)


def pick(U, ls, how):
    """upper case: a leaf; lower case: a representation whose canonical form is any reordering of the leaf"""
    d = dict(zip('ABC', ls))
    return [Permuted(U, d[h.upper()], f"q{t}") if h.islower() else d[h] for t, h in enumerate(how)]


def _leaves(how, kinds='oo'):
    def f(U):
        ls = leaves(U, len(set(how.upper())), kinds)
        parts = pick(U, ls, how)
        product_of(U, ProductRep(*parts), parts, 'product ' + how, ('apply', 'dense') if how.isupper() and len(how) < 3 else ('apply',))
    return f


for how in ('A', 'AB', 'AA', 'ABA', 'BAB', 'AAB', 'a', 'ab', 'aA', 'Ba'):
    for kinds in (('oo', 'dd') if len(how) == 2 and how.isupper() else ('oo',)):
        ob.add(_leaves(how, kinds), f"product_of_{how}_{kinds}", PROD, bound=f"{len(how)} factors; sizes, entries and reorderings arbitrary", limit=60)


def _states(how):
    """products of ProductReps in arbitrary states; e.g. '11' = (A with itself, reordered), '2' = A x B reordered"""
    def f(U):
        A, B = leaves(U, 2)
        parts = []
        for t, h in enumerate(how):
            if h in 'AB': parts.append({'A': A, 'B': B}[h])
            elif h == '1': parts.append(product_state(U, f"s{t}", [A], [2]))
            elif h == '2': parts.append(product_state(U, f"s{t}", [A, B], [1, 1]))
        product_of(U, ProductRep(*parts), parts, 'product of products ' + how)
    return f


for how in ('1', '2', '1A', 'A1', '2A', 'A2', 'B1'):
    ob.add(_states(how), f"product_of_products_{how}", PROD, bound='at most 3 factors in all; sizes, entries and internal permutations arbitrary', limit=60)
for how in ('12', '22'):
    ob.add(_states(how), f"product_of_products_{how}", PROD, bound='4 factors in all; sizes, entries and internal permutations arbitrary', limit=100, tier='thorough')


def _operators(case):
    def f(U):
        A, B = leaves(U, 2)
        e = {'A*B': lambda: (A * B, [A, B]), 'B*A': lambda: (B * A, [B, A]), 'A*B*A': lambda: (A * B * A, [A, B, A]), 'A*(B*A)': lambda: (A * (B * A), [A, B, A]),
             'A**2': lambda: (A**2, [A, A]), 'A**3': lambda: (A**3, [A, A, A]), 'A**1': lambda: (A**1, [A]), 'S*A': lambda: (Scalar * A, [A]),
             'A*S': lambda: (A * Scalar, [A]), 'A**0': lambda: (A**0, []), 'A**2*B': lambda: (A**2 * B, [A, A, B]), 'S*S': lambda: (Scalar * Scalar, [])}
        s, parts = e[case]()
        if parts == [A]: U.true(s is A, case + ' is A')
        elif parts == []: U.true(isinstance(s, ScalarRep) and s.size() == 1, case + ' is the scalar')
        else: product_of(U, s, parts, case)
    return f


for case in ('A*B', 'B*A', 'A*B*A', 'A*(B*A)', 'A**2', 'A**3', 'A**1', 'S*A', 'A*S', 'A**0', 'A**2*B', 'S*S'):
    ob.add(_operators(case), f"product_operators_{case}", PROD + ['representation.py:Rep.__mul__', 'representation.py:Rep.__pow__', S + 'mul_reps', 'representation.py:ScalarRep.__mul__',
                                                                  'representation.py:ScalarRep.__rmul__'], bound='the expression ' + case + '; sizes and entries arbitrary', limit=60)


def two_groups(U):
    G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
    return G, H, {G: 'g', H: 'h'}, {G: 'a', H: 'b'}


def _direct(case):
    """products over different groups: every factor sees its own group's element"""
    def f(U):
        G, H, tok, dtok = two_groups(U)
        A, B = leaves(U, 2, 'oo', [G, H])
        C = AbsRep(U, 'C', G, U.dim('nC'), 'o', 7) if 'C' in case else None
        s, parts = {'A*B': lambda: (A * B, [A, B]), 'B*A': lambda: (B * A, [B, A]), 'A*B*A': lambda: (A * B * A, [A, B, A]), 'A*(B*A)': lambda: (A * (B * A), [A, B, A]),
                    '(A*A)*B': lambda: (A * A * B, [A, A, B]), 'DP(A,B)': lambda: (DirectProduct(A, B), [A, B]),
                    'A*B*C': lambda: (A * B * C, [A, B, C])}[case]()
        U.true(type(s) is DirectProduct, 'a direct product')
        product_of(U, s, parts, case, tok=tok, dtok=dtok)
    return f


for case in ('A*B', 'B*A', 'A*B*A', 'A*(B*A)', '(A*A)*B', 'DP(A,B)', 'A*B*C'):
    ob.add(_direct(case), f"products_over_two_groups_{case}", DP, bound='the expression ' + case + ', two groups; sizes and entries arbitrary', limit=60)


@ob(*DP, bound='two groups, one factor each, any internal order')
def direct_product_of_reordered(U):
    G, H, tok, dtok = two_groups(U)
    A, B = leaves(U, 2, 'oo', [G, H])
    case = U.choose(['aB', 'Ab', 'state*A', 'B*state'])
    if case == 'aB': parts = [Permuted(U, A, 'q'), B]
    elif case == 'Ab': parts = [A, Permuted(U, B, 'q')]
    else:
        st = product_state(U, 's', [A, B], [1, 1], DirectProduct)
        parts = [st, A] if case == 'state*A' else [B, st]
    product_of(U, DirectProduct(*parts), parts, case, tok=tok, dtok=dtok)


def _dist(case):
    """a product with a sum in it denotes the Kronecker product of the written factors"""
    def f(U):
        A, B = leaves(U, 2)
        def st(nm, ps, cs): return sum_state(U, nm, ps, cs)
        parts = {'A*s1': lambda: [A, st('s', [A], [2])], 's1*B': lambda: [st('s', [A], [2]), B], 's1*s1': lambda: [st('s', [A], [2]), st('t', [A], [1])],
                 'A*s2': lambda: [A, st('s', [A, B], [1, 1])], 's2*A': lambda: [st('s', [A, B], [1, 1]), A], 's12*B': lambda: [st('s', [A, B], [1, 2]), B],
                 's2*s1': lambda: [st('s', [A, B], [1, 1]), st('t', [B], [1])], 's2*s2': lambda: [st('s', [A, B], [1, 1]), st('t', [A, B], [1, 1])],
                 'p*s1': lambda: [product_state(U, 'q', [A, B], [1, 1]), st('s', [B], [2])], 'a*s2': lambda: [Permuted(U, A, 'q'), st('s', [A, B], [1, 1])]}[case]()
        s = parts[0] * parts[1]
        U.true(isinstance(s, SumRep), 'a sum')
        product_of(U, s, parts, case)
    return f


for case in ('A*s1', 's1*B', 's1*s1', 'A*s2', 's2*A', 's12*B', 's2*s1', 's2*s2', 'p*s1', 'a*s2'):
    ob.add(_dist(case), f"product_distributes_{case}", DIST + PROD, bound='two factors, at most two kinds of summands with the stated multiplicities; sizes, entries and internal permutations arbitrary', limit=100, tier='thorough' if case in ('s12*B', 's2*s2') else 'quick')


def _reppermutation(sizes):
    def f(U):
        sz = [tuple(U.dim(f"m{a}{b}") for b in range(k)) for a, k in enumerate(sizes)]
        p = psr.rep_permutation(tuple(sz))
        # block (b1,b2,..) in product order, inside it row-major: position -> flattened index
        import itertools
        tot = [sum(s[1:], s[0]) for s in sz]
        base = 0
        for bl in itertools.product(*[range(k) for k in sizes]):
            dims = [sz[a][b] for a, b in enumerate(bl)]
            vol = 1
            for d in dims: vol = vol * d
            offs = [sum(sz[a][:b], 0) for a, b in enumerate(bl)]

            def want(ix):
                i, out = ix[0], 0
                ds = unravel(U, i, dims)
                for a in range(len(sizes)): out = out * tot[a] + offs[a] + ds[a]
                return out
            U.eq(p[base:base + vol], U.table((vol,), want, 'i'), f"block {bl}")
            base = base + vol
        U.eq(p.shape[0], base, 'length')
    return f


for sizes in ((1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (3,), (3, 2), (1, 2, 1)):
    ob.add(_reppermutation(sizes), f"block_permutation_{'x'.join(map(str, sizes))}", [S + 'rep_permutation'], bound=f"{' x '.join(map(str, sizes))} blocks of arbitrary sizes", limit=60)
