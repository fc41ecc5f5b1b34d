"""C16: an expression written without a group and then applied to G is the representation written directly over G."""
from vc.ob import Book
from contracts.reps import *
from emlp.reps.product_sum_reps import DeferredSumRep, DeferredProductRep
ob = Book()
S = 'product_sum_reps.py:'
R = 'representation.py:'
FNS = [S + 'DeferredSumRep.__init__', S + 'DeferredSumRep.__call__', S + 'DeferredSumRep.T', S + 'DeferredProductRep.__init__', S + 'DeferredProductRep.__call__', S + 'DeferredProductRep.T',
       S + 'mul_reps', S + 'both_concrete', R + 'mul_reps', R + 'Rep.__add__', R + 'Rep.__radd__', R + 'Rep.__mul__', R + 'Rep.__rmul__', R + 'Rep.__pow__', R + 'Rep.__rshift__', R + 'Rep.__lshift__', R + 'Dual.__call__', R + 'ScalarRep.__call__', R + 'ScalarRep.__mul__', R + 'ScalarRep.__rmul__']


def symbolic_leaves(U, k, kinds=None, Gs=None):
    """k different representations without a group; applied to a group they are arbitrary representations of it"""
    return [AbsRep(U, r.name, None, r.n, r.kind, r.order, r.is_permutation) for r in leaves(U, k, kinds)]


def spec(U, e, env, dual=False, d=False):
    """matrix of an expression in the order written; env: letter -> (matrix, inverse transpose, Lie matrix)"""
    if isinstance(e, str):
        if e == '1': return U.table((1, 1), lambda ix: 0 if d else 1)
        A, Ait, a = env[e]
        if d:
            if not dual: return a
            at = a.T
            return U.table(at.shape, lambda ix: -1 * U.at(at, *ix))
        return Ait if dual else A
    op, *xs = e
    if op == 'T': return spec(U, xs[0], env, not dual, d)
    if op == 'n': Ms = [spec(U, xs[1], env, dual, d)] * xs[0]
    elif op == '^': Ms = [spec(U, xs[0], env, dual, d)] * xs[1]
    else: Ms = [spec(U, x, env, dual, d) for x in xs]
    if op in '+n': return directsum_spec(U, Ms, [1] * len(Ms))
    return kronsum_spec(U, Ms) if d else kron_spec(U, Ms)


def build(e, env):
    """the same expression with the operators of the library"""
    if isinstance(e, str): return Scalar if e == '1' else env[e]
    op, *xs = e
    if op == 'T': return build(xs[0], env).T
    if op == 'n': return xs[0] * build(xs[1], env)
    if op == '^': return build(xs[0], env)**xs[1]
    ys = [build(x, env) for x in xs]
    r = ys[0]
    for y in ys[1:]: r = r + y if op == '+' else r * y
    return r


def environment(U, ls, G, tok='g', dtok='a'):
    out = {}
    for c, r in zip('ABC', ls):
        q = r(G)
        A = den(U, q, tok)
        out[c] = (A, inverse(U, A).T, den(U, q, dtok, True))
    return out


def state(r, seen=()):
    """everything reachable from a symbolic expression"""
    if isinstance(r, (list, tuple)): return (type(r).__name__, id(r), tuple(state(x) for x in r))
    if isinstance(r, dict): return ('dict', tuple((state(k), state(v)) for k, v in r.items()))
    if isinstance(r, Rep): return (id(r), type(r).__name__, {k: state(v) for k, v in vars(r).items() if k not in ('U', 'G')}, getattr(r, 'G', None))
    return r if isinstance(r, (int, str, bool, type(None))) else id(r)


def same(x, y):
    """the later state y has everything of x unchanged (it may hold additional caches)"""
    if isinstance(x, dict): return isinstance(y, dict) and all(k in y and same(v, y[k]) for k, v in x.items())
    if isinstance(x, tuple): return isinstance(y, tuple) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return type(x) is type(y) and (x is y or x == y)


def applied(U, got, e, env, msg, tok='g', dtok='a', what=('apply',)):
    M, dM = spec(U, e, env), spec(U, e, env, d=True)
    if isinstance(got, (SumRep, ProductRep, Dual, AbsRep)) and not (isinstance(got, Dual) and got.rep.kind == 'd') and getattr(got, 'kind', 'o') == 'o':
        return acts_as(U, got, M, dM, msg, tok, dtok, what)
    U.eq(got.size(), M.shape[0], msg + ' size')
    U.eq(got.rho(tok), M, msg + ' rho')
    U.eq(got.drho(dtok), dM, msg + ' drho')


def name(e):
    if isinstance(e, str): return e
    op, *xs = e
    if op == 'T': return f"({name(xs[0])}).T"
    if op == 'n': return f"{xs[0]}*({name(xs[1])})"
    if op == '^': return f"({name(xs[0])})**{xs[1]}"
    return '(' + op.join(name(x) for x in xs) + ')'


def letters(e):
    if isinstance(e, str): return {e} - {'1'}
    return set().union(*[letters(x) for x in e[1:] if not isinstance(x, int)])


def _expr(e, kinds='oo'):
    def f(U):
        ls = symbolic_leaves(U, len(letters(e)), kinds[:len(letters(e))])
        r = build(e, dict(zip('ABC', ls)))
        U.true(isinstance(r, (DeferredSumRep, DeferredProductRep, Dual, AbsRep)) and not r.concrete, 'a symbolic expression')
        before = state(r)
        G = AbsGroup(U, 'G')
        applied(U, r(G), e, environment(U, ls, G), 'applied to G')
        U.true(same(before, state(r)), 'the expression is unchanged')
        # applied to another group afterwards: nothing of G is left
        H = AbsGroup(U, 'H')
        applied(U, r(H), e, environment(U, ls, H), 'applied to H')
        U.true(same(before, state(r)), 'the expression is unchanged')
    return f


A, B = 'A', 'B'
EXPRS = [A, ('T', A), ('+', A, B), ('+', A, B, A), ('+', A, '1'), ('+', '1', A), ('+', A, ('+', B, A)), ('n', 2, A), ('n', 3, A), ('n', 2, ('+', A, B)), ('*', A, B), ('*', A, A), ('*', A, B, A),
         ('*', A, ('*', B, A)), ('^', A, 2), ('^', A, 3), ('*', A, ('T', A)), ('*', ('T', A), B), ('T', ('+', A, B)), ('T', ('*', A, B)), ('T', ('T', ('+', A, B))), ('T', ('T', ('*', A, B))), ('+', ('*', A, B), A), ('+', ('T', A), A),
         ('*', A, ('+', A, B)), ('*', ('+', A, '1'), ('T', A)), ('T', ('+', A, ('T', B))), ('T', ('+', A, ('*', A, B))), ('n', 2, ('*', A, B)), ('^', ('+', A, '1'), 2), ('+', ('n', 2, A), B), ('T', ('n', 2, A))]
SLOW = {name(e) for e in (('n', 2, ('*', A, B)),)}
for e in EXPRS: ob.add(_expr(e), 'expression_' + name(e), FNS, bound=f"the expression {name(e)}; sizes and entries arbitrary", limit=60, tier='thorough' if name(e) in SLOW else 'quick')
for e in (('+', A, B), ('T', A)): ob.add(_expr(e, 'dd'), 'expression_dense_' + name(e), FNS, bound=f"the expression {name(e)}, dense matrices", limit=60)


def _hom(case):
    def f(U):
        ls = symbolic_leaves(U, 2)
        a, b = ls
        r = a >> b if case == '>>' else b << a
        G = AbsGroup(U, 'G')
        applied(U, r(G), ('*', B, ('T', A)), environment(U, ls, G), case)
    return f


for case in ('>>', '<<'): ob.add(_hom(case), 'maps_' + case, FNS, bound='A>>B, B<<A')


def _orth(e):
    """over an orthogonal group the dual of the instance is the representation itself"""
    def f(U):
        ls = symbolic_leaves(U, len(letters(e)))
        r = build(e, dict(zip('AB', ls)))
        G = AbsGroup(U, 'G', True)
        env = {}
        for c, q in zip('AB', ls):
            M = den(U, q(G), 'g')
            env[c] = (M, M, den(U, q(G), 'a', True))
        got = r(G)
        M = spec(U, e, env)
        U.eq(got.size(), M.shape[0], 'size')
        denotes(U, got.rho('g'), M, 'rho', ('apply',))
    return f


for e in (('T', A), ('+', A, ('T', B)), ('*', A, ('T', A)), ('T', ('*', A, B)), ('T', ('+', A, B))):
    ob.add(_orth(e), 'orthogonal_' + name(e), FNS, bound=f"the expression {name(e)} over an orthogonal group", limit=60)


def _tensor(p, q):
    """T(p,q,G): V**p * V.T**q over G"""
    def f(U):
        from emlp.reps.representation import T
        import emlp.reps.representation as rr
        a, = symbolic_leaves(U, 1)
        old = rr.V
        rr.V = a
        try:
            G = AbsGroup(U, 'G')
            sym, got, later = T(p, q), T(p, q, G), T(p, q)(G)
        finally: rr.V = old
        env = environment(U, [a], G)
        e = ('*', *['A'] * p, *[('T', 'A')] * q) if p + q else '1'
        if p + q == 0:
            U.true(sym == Scalar and got == Scalar and got.G is G, 'the scalar')
            return
        for r, m in ((got, 'T(p,q,G)'), (later, 'T(p,q)(G)')): applied(U, r, e, env, m)
    return f


for p, q in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (3, 0)):
    ob.add(_tensor(p, q), f"tensor_{p}_{q}", [R + 'T'] + FNS, bound=f"T({p},{q}); the representation V arbitrary", limit=60)


@ob(S + 'DeferredSumRep.__call__', S + 'DeferredProductRep.__call__', bound='')
def applying_to_no_group(U):
    a, b = symbolic_leaves(U, 2)
    for r in (a + b, a * b): U.true(r(None) is r, 'applied to None: the expression itself')


@ob(S + 'DeferredSumRep.__init__', S + 'DeferredProductRep.__init__', bound='')
def reuse_inside_other_expressions(U):
    """building a larger expression does not alter the parts"""
    a, b = symbolic_leaves(U, 2)
    s, p = a + b, a * b
    bs, bp = state(s), state(p)
    bigger = [s + a, a + s, s + s, s.T, 2 * s, s * a, p * a, a * p, p.T, p + s, p * p]
    U.true(same(bs, state(s)) and same(bp, state(p)), 'parts unchanged by building larger expressions')
    G = AbsGroup(U, 'G')
    env = environment(U, [a, b], G)
    e = ('+', ('+', A, B), A)
    applied(U, bigger[0](G), e, env, 's + a')
    applied(U, bigger[3](G), ('T', ('+', A, B)), env, 's.T')
    U.true(same(bs, state(s)) and same(bp, state(p)), 'parts unchanged by applying the larger expressions')
    applied(U, s(G), ('+', A, B), env, 's')


def _reapply(names, cnts):
    """a concrete sum, in any internal order, applied to another group keeps the order of its elements"""
    def f(U):
        G, H = AbsGroup(U, 'G'), AbsGroup(U, 'H')
        ls = leaves(U, len(names), None, G)
        s = sum_state(U, 's', ls, [int(c) for c in cnts])
        t = s(H)
        q = sum_state(U, 's', [r(H) for r in ls], [int(c) for c in cnts])
        acts_as(U, t, den(U, q, 'g'), den(U, q, 'a', True), 'sum applied to another group', what=('apply',))
        U.true(all(r.G == G for r in s.reps), 'the original is unchanged')
    return f


for names, cnts in (('A', '1'), ('A', '2'), ('AB', '11'), ('AB', '21')):
    ob.add(_reapply(names, cnts), f"concrete_sum_{names}_{cnts}", [S + 'SumRep.__call__', S + 'SumRep.__init__'], bound=f"sum of {names} with multiplicities {cnts} in any internal order", limit=60)
