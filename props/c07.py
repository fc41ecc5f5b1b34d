import numpy as np
import jax.numpy as jnp
import emlp.reps.linear_operators as lo
import emlp.reps.linear_operator_base as lb
from vc import oracle
from vc.case import require, Skip
from .exprs import close
from .ops_common import make_op, apply_all, mat, has_t, has_invT
from .c08 import rand_spec

ENV = {'JAX_ENABLE_X64': '1'}


def custom(rng, a, b, cplx, kind):
    """an operator given by callables"""
    M = mat(rng, a, b, cplx)
    J = jnp.asarray(M)
    H = J.conj().T
    kw = dict(matvec=lambda v: J @ v)
    if 'r' in kind: kw['rmatvec'] = lambda v: H @ v
    if 'm' in kind: kw['matmat'] = lambda v: J @ v
    if 'M' in kind: kw['rmatmat'] = lambda v: H @ v
    return lb.LinearOperator((a, b), **kw), M


# algebra expressions: ['leaf', spec] | ['custom',a,b,kind] | ['+',a,b] ['-',a,b] ['neg',a] ['s*',c,a] ['*s',a,c] ['@',a,b] ['**',a,p] ['T',a] ['H',a] ['invT',a] ['+arr',a] ['arr+',a]
def ev(e, rng, cplx):
    """(operator, dense, offers_transpose, offers_invT)"""
    k = e[0]
    if k == 'leaf':
        A, D = make_op(e[1], rng, cplx)
        if not isinstance(A, lb.LinearOperator): A = lo.lazify(A)
        return A, D, has_t(e[1]), has_invT(e[1]) or e[1][0] == 'M' and e[1][1] == e[1][2]
    if k == 'custom':
        A, D = custom(rng, *e[1:3], cplx, e[3])
        return A, D, 'r' in e[3] and 'M' in e[3] and 'm' in e[3], False
    if k in ('+', '-', '@'):
        A, a, t1, i1 = ev(e[1], rng, cplx)
        B, b, t2, i2 = ev(e[2], rng, cplx)
        if k == '+': return A + B, a + b, t1 and t2, True
        if k == '-': return A - B, a - b, t1 and t2, True
        return (A @ B if rng.random() < .5 else A * B), a @ b, t1 and t2, i1 and i2
    if k == '+arr' or k == 'arr+':
        A, a, t, i = ev(e[1], rng, cplx)
        M = mat(rng, *a.shape, cplx)
        J = jnp.asarray(M)
        return (A + J if k == '+arr' else J + A if hasattr(J, '_never') else A.__radd__(J)), a + M, t, True
    if k == '-arr':
        A, a, t, i = ev(e[1], rng, cplx)
        M = mat(rng, *a.shape, cplx)
        return A - jnp.asarray(M), a - M, t, True
    A, a, t, i = ev(e[-1] if k == 's*' else e[1], rng, cplx)
    if k == 'neg': return -A, -a, t, i
    if k in ('s*', '*s'):
        c = e[1] if k == 's*' else e[2]
        c = complex(*c) if isinstance(c, list) else c
        cc = c if rng.random() < .5 else (np.float64(c) if not isinstance(c, complex) else np.complex128(c))
        return (cc * A if k == 's*' and cc is c else A * cc), c * a, t, i and c != 0
    if k == '**': return A**e[2], np.linalg.matrix_power(a, e[2]), t, i
    if k == 'T': return A.T, a.T, t, False
    if k == 'H': return A.H, a.conj().T, t, False
    if k == 'invT': return A.invT(), np.linalg.inv(a).T, t, False
    raise KeyError(k)


def offers(e, what):
    """static: does expression e offer transpose / invT / all needed pieces"""
    k = e[0]
    if k == 'leaf': return has_t(e[1]) if what == 't' else (has_invT(e[1]) or e[1][0] == 'M' and e[1][1] == e[1][2])
    if k == 'custom': return all(x in e[3] for x in 'rmM') if what == 't' else False
    if k in ('+', '-'): return (offers(e[1], 't') and offers(e[2], 't')) if what == 't' else True
    if k in ('+arr', 'arr+', '-arr'): return offers(e[1], 't') if what == 't' else True
    if k == '@': return offers(e[1], what) and offers(e[2], what)
    if k in ('neg', '**', '*s'): return offers(e[1], what)
    if k == 's*': return offers(e[2], what)
    if k in ('T', 'H'): return what == 't'
    if k == 'invT': return what == 't' and offers(e[1], 't')
    raise KeyError(k)


def algebra(e, seed=0, cplx=False):
    rng = np.random.default_rng(seed)
    A, D, t, i = ev(e, rng, cplx)
    if np.abs(D).max() > 1e6: raise Skip('too large')
    apply_all(A, D, rng, cplx, 'operator')
    apply_all(A, D, rng, True, 'operator on complex input')
    d = np.asarray(A.to_dense())
    require(d.shape == D.shape and close(d, D), f"to_dense of {e} differs from the dense computation")
    if t:
        apply_all(A.T, D.T, rng, cplx, 'transpose')
        apply_all(A.H, D.conj().T, rng, True, 'adjoint')
        require(close(np.asarray(A.T.to_dense()), D.T), f"dense transpose of {e}")
        require(close(np.asarray(A.H.to_dense()), D.conj().T), f"dense adjoint of {e}")
    if i and D.shape[0] == D.shape[1] and np.linalg.cond(D) < 1e5:
        apply_all(A.invT(), np.linalg.inv(D).T, rng, cplx, 'inverse transpose')
        require(close(np.asarray(A.invT().to_dense()), np.linalg.inv(D).T), f"dense inverse transpose of {e}")


def reject(kind, a, b, c, d, seed=0):
    """mismatched shapes raise instead of broadcasting"""
    rng = np.random.default_rng(seed)
    A = lo.Lazy(jnp.asarray(mat(rng, a, b, False)))
    if kind in ('vec', 'mat', 'col'):
        B = jnp.asarray(vecof(rng, {'vec': (c,), 'mat': (c, d), 'col': (c, 1)}[kind]))
        f = lambda: A @ B
        bad = c != b
    elif kind.startswith('struct'):
        A, _ = make_op({'structI': ['I', b], 'structP': ['Perm', b], 'structK': ['Kron', [['M', 1, b], ['M', 2, 1]]], 'structS': ['Sum', [['M', 1, b]], [1]],
                        'structC': ['Concat', [['M', 2, b], ['M', 2, b]]], 'structD': ['Kronsum', [['M', b, b], ['M', 1, 1]]]}[kind], rng)
        B = jnp.asarray(vecof(rng, (c, d)))
        f = lambda: A @ B
        bad = c != b
    else:
        B = lo.Lazy(jnp.asarray(mat(rng, c, d, False)))
        if kind == 'add': f, bad = (lambda: A + B), (a, b) != (c, d)
        elif kind == 'sub': f, bad = (lambda: A - B), (a, b) != (c, d)
        elif kind == 'addarr': f, bad = (lambda: A + B.A), (a, b) != (c, d)
        elif kind == 'mul': f, bad = (lambda: A @ B), b != c
        elif kind == 'pow': f, bad = (lambda: A**2), a != b
        elif kind == 'negpow': f, bad = (lambda: A**-1), True
        elif kind == 'fracpow': f, bad = (lambda: A**.5), True
        elif kind == 'T': f, bad = (lambda: A.T @ jnp.asarray(vecof(rng, (c, d)))), c != a
        elif kind == 'concat': f, bad = (lambda: lo.ConcatLazy([A, B]) @ jnp.asarray(vecof(rng, (b, 2)))), (a, b) != (c, d)
    if not bad: raise Skip('shapes match')
    try: r = f()
    except Exception: return
    require(False, f"{kind} of shapes {(a, b)} and {(c, d)} is accepted and gives {getattr(r, 'shape', r)}")


def vecof(rng, s): return rng.standard_normal(s)


def rand_alg(rng, depth, a, b):
    r = lambda x, y: int(rng.integers(x, y))
    if depth == 0:
        x = rng.random()
        if x < .12: return ['custom', a, b, ['rmM', 'rmM', 'm', 'rm', 'rmM'][r(0, 5)]]
        if a == b and x < .3: return ['leaf', [['I', a], ['Perm', a], ['Shift', a, r(-2, 3)], ['Swap', [0, a - 1], a]][r(0, 4)]]
        if a == b and a % 2 == 0 and x < .4: return ['leaf', ['Kron', [['Lazy', 2, 2], ['M', a // 2, a // 2]]]]
        if a > 1 and b > 1 and x < .5: return ['leaf', ['Sum', [['M', 1, 1], ['Lazy', a - 1, b - 1]], [1, 1]]]
        if a % 2 == 0 and x < .6: return ['leaf', ['Concat', [['M', a // 2, b], ['Lazy', a // 2, b]]]]
        return ['leaf', ['Lazy' if x < .85 else 'M', a, b]]
    k = ['+', '-', '@', '@', 'neg', 's*', '*s', 'T', 'H', 'invT', '**', '+arr', 'arr+', '-arr'][r(0, 14)]
    R = lambda p, q: rand_alg(rng, depth - 1, p, q)
    c = [2, -1, .5, 3, [1, 2], [0, -1]][r(0, 6)]
    if k in ('+', '-'): return [k, R(a, b), R(a, b)]
    if k == '@':
        m = r(1, 5)
        return [k, R(a, m), R(m, b)]
    if k in ('neg', '+arr', 'arr+', '-arr'): return [k, R(a, b)]
    if k == 's*': return [k, c, R(a, b)]
    if k == '*s': return [k, R(a, b), c]
    if k in ('T', 'H'):
        e = R(b, a)
        return [k, e] if offers(e, 't') else R(a, b)
    if a == b and k == '**': return [k, R(a, b), r(0, 5)]
    if a == b and k == 'invT':
        e = R(a, a)
        return [k, e] if offers(e, 'i') else e
    return R(a, b)


def cases(tier, seed):
    k = 0
    L, M = lambda a, b: ['leaf', ['Lazy', a, b]], lambda a, b: ['leaf', ['M', a, b]]
    for e in (['@', L(3, 3), L(3, 3)], ['@', L(2, 3), L(3, 4)], ['@', ['@', L(2, 3), L(3, 4)], L(4, 2)], ['+', L(3, 2), L(3, 2)], ['-', L(3, 3), ['leaf', ['I', 3]]],
              ['-', ['leaf', ['Perm', 4]], ['leaf', ['I', 4]]], ['neg', L(3, 3)], ['s*', [1, 2], L(3, 3)], ['*s', L(2, 3), [0, -1]], ['s*', 2, ['s*', 3, L(2, 2)]],
              ['**', L(3, 3), 0], ['**', L(3, 3), 1], ['**', L(3, 3), 3], ['T', ['@', L(2, 3), L(3, 4)]], ['H', ['s*', [1, 2], L(2, 3)]], ['T', ['s*', [1, 2], L(2, 3)]],
              ['invT', ['@', L(3, 3), L(3, 3)]], ['invT', ['+', L(3, 3), L(3, 3)]], ['invT', ['s*', [1, 2], L(3, 3)]], ['invT', ['**', L(2, 2), 3]], ['invT', ['neg', L(2, 2)]],
              ['T', ['**', L(3, 3), 2]], ['H', ['T', L(2, 3)]], ['T', ['H', L(2, 3)]], ['H', ['+', L(2, 3), ['s*', [0, 1], L(2, 3)]]], ['+arr', L(3, 4)], ['arr+', L(3, 4)], ['-arr', L(3, 3)],
              ['@', ['T', L(3, 2)], ['H', L(4, 3)]], ['custom', 3, 4, 'rmM'], ['custom', 3, 4, 'm'], ['custom', 3, 3, 'rm'], ['T', ['custom', 2, 3, 'rmM']], ['H', ['custom', 2, 3, 'rmM']],
              ['@', ['custom', 2, 3, 'rmM'], L(3, 2)], ['**', ['custom', 2, 2, 'rmM'], 2], ['T', ['-', L(2, 2), ['custom', 2, 2, 'rmM']]], ['@', L(1, 3), L(3, 1)], ['@', L(3, 1), L(1, 3)], L(1, 1),
              ['T', ['leaf', ['Concat', [['M', 2, 3], ['Lazy', 2, 3]]]]], ['@', ['T', ['leaf', ['Concat', [['M', 2, 3], ['Lazy', 2, 3]]]]], L(4, 2)], ['H', ['leaf', ['Kronsum', [['M', 2, 2], ['Lazy', 2, 2]]]]],
              ['*s', ['leaf', ['I', 2]], 0], ['@', ['leaf', ['Perm', 5]], ['T', ['leaf', ['Perm', 5]]]], ['**', ['leaf', ['Shift', 5, 2]], 4], ['-', L(3, 4), L(3, 4)], ['custom', 3, 4, ''], ['custom', 1, 1, 'rmM']):
        for c in (False, True):
            k += 1
            yield 'algebra', dict(e=e, seed=k, cplx=c)
    for kind in ('add', 'sub', 'addarr', 'mul', 'concat'):
        for s in ((2, 3, 3, 2), (2, 3, 1, 3), (2, 3, 2, 1), (2, 3, 1, 1), (1, 1, 2, 3), (2, 3, 4, 3), (1, 3, 2, 3), (2, 1, 2, 3), (3, 3, 1, 3)):
            yield 'reject', dict(kind=kind, a=s[0], b=s[1], c=s[2], d=s[3])
    for kind in ('vec', 'mat', 'col', 'T', 'structI', 'structP', 'structK', 'structS', 'structC', 'structD'):
        for s in ((2, 3, 2, 2), (2, 3, 1, 2), (2, 3, 4, 3), (3, 1, 3, 2), (2, 3, 6, 2), (4, 2, 8, 1), (1, 2, 4, 3)):
            yield 'reject', dict(kind=kind, a=s[0], b=s[1], c=s[2], d=s[3])
    for kind in ('pow', 'negpow', 'fracpow'): yield 'reject', dict(kind=kind, a=2 if kind == 'pow' else 3, b=3, c=1, d=1)
    rng = np.random.default_rng(7000 + seed)
    for i in range(250 if tier == 'quick' else 5000):
        e = rand_alg(rng, int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        yield 'algebra', dict(e=e, seed=int(rng.integers(1 << 30)), cplx=bool(rng.random() < .5))
