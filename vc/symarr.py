"""Symbolic arrays: symbolic shape and an element function  index -> value  (value: integer polynomial or TExpr).
An element function that cannot decide where an index lies raises Refine on an index variable; whoever introduced the
variable (a summation, or the universally quantified goal index) splits it and evaluates again."""
import itertools
from . import poly as P, ctx
from .poly import Poly, Atom, Unsupported, nonneg, longdiv, exact_div, subs, var, pmul0, addraw, lincoef
from .terms import strip, TExpr, bind, delta, F


class Refine(BaseException):
    def __init__(self, v, alts, why=''):
        self.v, self.alts, self.why = v, alts, why   # alts: [(replacement, [new atoms], facts)]


def neg(p): return Poly({m: -c for m, c in p.t.items()})


def fresh(hi, like=None, bound=False, name='k'):
    if Poly.of(hi).const() == 1: return 0, None
    v = var(hi, name, like.bound if like is not None else bound)
    a, = v.atoms()
    return v, a


# ---------------------------------------------------------------- index decisions

def idx_vars(p): return [a for a in Poly.of(p).atoms() if a.kind == 'var']


def lt(e, n):
    """e < n, decided, or Refine, or a path fork when it concerns dimensions only"""
    e, n = Poly.of(e), Poly.of(n)
    d = n._add(e, -1)._add(Poly.of(1), -1)
    if nonneg(d): return True
    if nonneg(e._add(n, -1)): return False
    if ctx.cur is not None and ctx.cur.facts:
        if ctx.prove('ge', d): return True
        if ctx.prove('ge', e._add(n, -1)): return False
    vs = [a for a in d.allatoms() if a.kind == 'var']
    if not vs: return ctx.decide('ge', d)
    split_boundary(e, n)
    unperm(d)
    if ctx.prove('ge', d): return True
    if ctx.prove('ge', e._add(n, -1)): return False
    raise Unsupported(f"cannot decide {e} < {n}")


def split_boundary(e, n):
    """raise a Refine of an index variable of e at the boundary e < n (returns if there is no such split)"""
    d = e._add(n, -1)
    dimpart = Poly({m: c for m, c in d.t.items() if not any(a.kind in ('var', 'app', 'mod', 'div') for a, _ in m)})
    varpart = d._add(dimpart, -1)
    nb = neg(dimpart)              # varpart < nb
    for v in sorted(idx_vars(varpart), key=lambda a: a.name):
        if any(k > 1 for m in varpart.t for a, k in m if a == v): continue
        c, r = lincoef(varpart, v)
        if any(a.kind in ('var', 'app', 'mod', 'div') for a in c.allatoms()) or not nonneg(c._add(Poly.of(1), -1)): continue
        if not (nonneg(r) and nonneg(c._add(r, -1)._add(Poly.of(1), -1))): continue
        b = exact_div(nb, c)
        s = None
        if b is None:
            for lead in c.t.items():
                q = longdiv(nb, c, lead)
                if q and q[1].t and nonneg(q[1]) and nonneg(c._add(q[1], -1)):
                    b, s = q[0].norm(), q[1]
                    break
        if b is None: continue
        if not ctx.decide('ge', Poly.of(b)) or not ctx.decide('ge', Poly.of(v.hi)._add(Poly.of(b), -1)): continue
        cut(v, b, s is not None)


def cut(v, b, point=False):
    b, hi = Poly.of(b), Poly.of(v.hi)
    alts = []
    if b.t:
        x, xa = fresh(b.norm(), v)
        alts.append((x, [xa] if xa else [], []))
    rest = hi._add(b, -1)
    if point:
        alts.append((b.norm(), [], []))
        b = b._add(Poly.of(1))
        rest = hi._add(b, -1)
    if not nonneg(neg(rest)):
        x, xa = fresh(rest.norm(), v)
        alts.append(((b + x), [xa] if xa else [], []))
    if len(alts) == 1 and type(alts[0][0]) is Poly and alts[0][1] and alts[0][0].atoms() == {alts[0][1][0]} and not point: return
    raise Refine(v, alts, f"boundary {b}")


def digits(v, b):
    q = exact_div(v.hi, b)
    if q is None: return
    if type(q) is int and q == 1: return
    if type(b) is int and b == 1: return
    x, xa = fresh(q, v)
    y, ya = fresh(b, v)
    raise Refine(v, [(x * b + y, [t for t in (xa, ya) if t], [])], f"digits {b}")


def enum_var(v):
    if type(v.hi) is int and v.hi <= 64: raise Refine(v, [(i, [], []) for i in range(v.hi)], 'enumeration')


def divmod_idx(p, m):
    p, m = Poly.of(p), Poly.of(m)
    if m.const() == 1: return p.norm(), 0
    if p.const() is not None and m.const() is not None: return divmod(p.const(), m.const())
    best = None
    for lead in m.t.items():
        qr = longdiv(p, m, lead)
        if not qr: continue
        q, r = qr
        for k in (0, 1, -1):
            rr = r._add(P.pmul(Poly.of(k), m)) if k else r
            if nonneg(rr) and nonneg(m._add(rr, -1)._add(Poly.of(1), -1)): return q._add(Poly.of(k), -1).norm(), rr.norm()
        for mm, c in sorted(r.t.items(), key=repr):
            for a, e in mm:
                if a.kind == 'var' and e == 1:
                    co = Poly({tuple(x for x in mm if x[0] != a): c})
                    b = exact_div(m, co)
                    if b is not None and not (type(b) is int and b <= 1): digits(a, b)
        best = best or (q, r)
    for a in sorted(idx_vars(p), key=lambda a: a.name):
        if type(a.hi) is int and a.hi <= 64 and m.const() is not None: enum_var(a)
    unperm(p)
    r = wrap_mod(p, m)
    if r is not None: return r
    return P.pdivmod(p, m)


def wrap_mod(p, m):
    """quotient and remainder of v + c by m for an index v < m and a c that depends on dimensions only: the index is cut where the
    quotient changes"""
    vs = [a for a in p.allatoms() if a.kind in ('var', 'app', 'mod', 'div')]
    if len(vs) > 1 or vs and vs[0].kind != 'var' or any(a.kind in ('var', 'app', 'mod', 'div') for a in m.allatoms()): return None
    if not vs:
        if p.const() is None and not (ctx.prove('ge', p._add(P.pmul(Poly.of(3), m))) and ctx.prove('ge', P.pmul(Poly.of(3), m)._add(p, -1))): return None
        for j in (0, 1, -1, 2, -2, 3, -3):
            jm = P.pmul(Poly.of(j), m)
            if ctx.decide('ge', p._add(jm, -1)) and ctx.decide('ge', jm._add(m)._add(Poly.of(1), -1)._add(p, -1)): return j, p._add(jm, -1).norm()
        return None
    v = vs[0]
    if any(k > 1 for mm in p.t for a, k in mm if a == v): return None
    c, r = lincoef(p, v)
    if c.const() != 1 or any(a.kind != 'dim' for a in Poly.of(v.hi).allatoms()) or not ctx.decide('ge', m._add(Poly.of(v.hi), -1)): return None
    for j in (0, 1, -1, 2, -2, 3, -3):
        jm = P.pmul(Poly.of(j), m)
        if ctx.decide('ge', r._add(jm, -1)) and ctx.decide('ge', jm._add(m)._add(Poly.of(1), -1)._add(r, -1)):
            for t in range(3):
                up = P.pmul(Poly.of(j + t + 1), m)
                if lt(p, up): return j + t, p._add(up, -1)._add(m).norm()
    return None


def digit_split(a, b):
    """a == b  <=>  all pairs equal, by a common radix"""
    r = digit_split1(a, b)
    if r is not None: return r
    d = Poly.of(a)._add(Poly.of(b), -1)   # without the common terms
    a2, b2 = Poly({m: c for m, c in d.t.items() if c > 0}), Poly({m: -c for m, c in d.t.items() if c < 0})
    if (a2.skey(), b2.skey()) == (Poly.of(a).skey(), Poly.of(b).skey()) or not a2.t or not b2.t: return None
    return digit_split1(a2.norm(), b2.norm())


def digit_split1(a, b):
    pa, pb = Poly.of(a), Poly.of(b)
    rad = []
    for p in (pa, pb):
        co = {}
        for m, c in p.t.items():
            vs = [x for x, e in m if x.kind in ('var', 'app', 'mod', 'div')]
            if len(vs) != 1: continue
            co[vs[0]] = co.get(vs[0], Poly({}))._add(Poly({tuple(x for x in m if x[0] != vs[0]): c}))
        for c in co.values():
            if c.const() in (1, -1) or not nonneg(c._add(Poly.of(1), -1)): continue
            if not any(c.skey() == r.skey() for r in rad): rad.append(c)
    rad.sort(key=lambda r: (-sum(e for m in r.t for _, e in m), repr(r.skey())))
    for r in rad:
        try: qa, qb = P.pdivmod(pa, r, opaque=False), P.pdivmod(pb, r, opaque=False)
        except Unsupported: continue
        if qa is None or qb is None:
            # a bare variable against a structured index: split it into digits
            for p, q in ((pa, qa), (pb, qb)):
                if q is None:
                    n = p.norm()
                    if type(n) is Poly and len(n.t) == 1:
                        (m, c), = n.t.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var': digits(m[0][0], r.norm())
            continue
        if (qa[0] == 0 if type(qa[0]) is int else False) and (qb[0] == 0 if type(qb[0]) is int else False): continue
        return [(qa[0], qb[0]), (qa[1], qb[1])]
    return None


def unperm(p):
    """an opaque permutation applied to an index variable of its whole range: rename the index (change of variable x = pi^-1(y))"""
    for a in sorted(Poly.of(p).allatoms(), key=lambda a: repr(a.key)):
        if a.kind != 'app' or not a.name.endswith('^-1') or a.name not in P.PERM_INV: continue
        v = barevar(a.args[0])
        if v is None or not sdeq(v.hi, a.hi): continue
        w, wa = fresh(v.hi, v)
        raise Refine(v, [(P.perm_app(P.PERM_INV[a.name], w, a.hi), [wa], [])], 'permutation')


def barevar(e):
    e = Poly.of(e)
    if len(e.t) != 1: return None
    (m, c), = e.t.items()
    return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' else None


def in_range(x, n): return lt(x, n) and not lt(x, 0)


# ---------------------------------------------------------------- summation

def sum_over(hi, f):
    c = Poly.of(hi).const()
    if c is not None and c <= (12 if not P.PERM_INV else 1):
        r = TExpr.of(0)
        for i in range(c): r = r + f(i)
        return r
    k, ka = fresh(hi, bound=True)
    return _sum(k, [ka] if ka else [], f)


def _sum(e, vs, f):
    try:
        body = f(e)
        for v in vs: body = bind(v, TExpr.of(body))
        return body
    except Refine as r:
        if r.v not in vs: raise
        if any(a[2] for a in r.alts): raise Unsupported(f"case distinction on a summation index: {r.why}")
        out = TExpr.of(0)
        for rep, new, _ in r.alts: out = out + _sum(subs(e, {r.v: rep}), [v for v in vs if v != r.v] + new, f)
        return out


def pieces(f, hi):
    """all pieces of an index function on [0,hi): [(argument expression, variables, value)]"""
    k, ka = fresh(hi, name='j')
    out = []
    st = [(k, [ka] if ka else [])]
    while st:
        e, vs = st.pop()
        try: out.append((e, vs, f(e)))
        except Refine as r:
            if r.v not in vs: raise
            for rep, new, facts in reversed(r.alts):
                if facts: raise Unsupported("case distinction in an index array")
                st.append((subs(e, {r.v: rep}), [v for v in vs if v != r.v] + new))
    return out


# ---------------------------------------------------------------- arrays

def prodl(xs):
    r = 1
    for x in xs: r = r * x
    return r


def deq(a, b):
    """dimension equality (decided or forked)"""
    if type(a) is int and type(b) is int: return a == b
    return ctx.decide('eq', Poly.of(a)._add(Poly.of(b), -1))


def sdeq(a, b):
    """syntactic / provable equality without forking"""
    return P.prove_eq0(Poly.of(a)._add(Poly.of(b), -1))


class DT(str):
    pass


class SymArray:
    __array_priority__ = 1000
    __slots__ = ('shape', 'fn', 'kind', 'meta', 'dt')

    def __init__(self, shape, fn, kind='s', meta=None, dt=None):
        self.shape = tuple(Poly.of(s).norm() for s in shape)
        self.fn, self.kind, self.meta = fn, kind, meta
        self.dt = dt

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: prodl(s.shape))
    dtype = property(lambda s: s.dt or ('int64' if s.kind == 'i' else 'bool' if s.kind == 'b' else 'float32'))
    real = property(lambda s: s)

    def at(self, *idx): return self.fn(tuple(idx))

    def value_at_scalar(self):
        if self.shape == (): return TExpr.of(self.fn(()))
        if all(s == 1 if type(s) is int else False for s in self.shape): return TExpr.of(self.fn((0,) * self.ndim))
        raise Unsupported("array used as a scalar")

    def __len__(self): return self.shape[0].__index__()
    def __bool__(self):
        if all((s == 1 if type(s) is int else False) for s in self.shape): return bool(self.fn((0,) * self.ndim))
        raise Unsupported("truth value of an array")
    def __index__(self):
        if self.kind == 'i' and self.size == 1: return Poly.of(self.fn((0,) * self.ndim)).norm().__index__()
        raise TypeError("array as index")
    def __int__(self): return self.__index__()
    def __float__(self): return float(self.value_at_scalar())
    def item(self):
        v = self.fn((0,) * self.ndim)
        return v

    def __iter__(self):
        n = Poly.of(self.shape[0]).const()
        if n is None: raise Unsupported("iteration over a symbolic axis")
        return (self[i] for i in range(n))

    # ---- arithmetic
    def _bin(self, o, op, kind=None): return elementwise(op, self, o, kind=kind)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if not isarr(o) and not isscalar(o): return NotImplemented
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: TExpr.of(a) / TExpr.of(b), 's')
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: TExpr.of(b) / TExpr.of(a), 's')
    def __floordiv__(self, o): return self._bin(o, lambda a, b: ifloordiv(a, b))
    def __mod__(self, o): return self._bin(o, lambda a, b: imod(a, b))
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __pos__(self): return self
    def __pow__(self, n): return self._bin(n, lambda a, b: a ** b)
    def __abs__(self): return elementwise(sabs, self)
    def __eq__(self, o):
        if not isarr(o) and not isscalar(o): return False
        return self._bin(o, lambda a, b: Cmp('eq', a, b), 'b')
    def __ne__(self, o): return self._bin(o, lambda a, b: Cmp('ne', a, b), 'b')
    def __lt__(self, o): return self._bin(o, lambda a, b: Cmp('lt', a, b), 'b')
    def __gt__(self, o): return self._bin(o, lambda a, b: Cmp('lt', b, a), 'b')
    def __le__(self, o): return self._bin(o, lambda a, b: Cmp('le', a, b), 'b')
    def __ge__(self, o): return self._bin(o, lambda a, b: Cmp('le', b, a), 'b')
    def __invert__(self): return elementwise(lambda a: a.negate(), self, kind='b')
    __hash__ = None

    def __iadd__(self, o): return self + o

    def __matmul__(self, o):
        if not isarr(o): return NotImplemented
        return matmul(self, o)
    def __rmatmul__(self, o):
        if not isarr(o): return NotImplemented
        return matmul(asarr(o), self)
    def dot(self, o): return matmul(self, asarr(o))

    # ---- shape
    @property
    def T(self): return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int): axes = tuple(axes[0])
        if axes == (None,) or not axes: axes = tuple(range(self.ndim))[::-1]
        axes = [int(a) % self.ndim for a in axes]
        if sorted(axes) != list(range(self.ndim)): raise ValueError("axes don't match array")
        f = self.fn
        inv = [axes.index(i) for i in range(self.ndim)]
        return SymArray([self.shape[a] for a in axes], lambda ix: f(tuple(ix[inv[i]] for i in range(len(inv)))), self.kind)

    def conj(self): return elementwise(lambda a: a.conj() if isinstance(a, TExpr) else a, self)
    def conjugate(self): return self.conj()
    def astype(self, *a, **k):
        t = a[0] if a else k.get('dtype')
        if self.kind == 's' and (t is int or str(t) in ('int', 'int32', 'int64')):
            f = self.fn

            def fn(ix):
                c = TExpr.of(f(ix)).const()
                if c is None or c.denominator != 1 if not isinstance(c, int) else False: raise Unsupported("conversion of entries to integers")
                return int(c)
            return SymArray(self.shape, fn, 'i')
        return self
    def copy(self): return SymArray(self.shape, self.fn, self.kind)
    def block_until_ready(self): return self
    def ravel(self): return self.reshape(-1)
    def flatten(self): return self.reshape(-1)
    def squeeze(self, *a):
        return self.reshape([s for s in self.shape if not (type(s) is int and s == 1)])
    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def reshape(self, *sh, **kw):
        if len(sh) == 1 and not isinstance(sh[0], int): sh = tuple(sh[0])
        return reshape(self, sh)

    def sum(self, axis=None, keepdims=False, **k): return reduce_sum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k):
        s = reduce_sum(self, axis, keepdims)
        axes = range(self.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
        n = prodl([self.shape[a] for a in axes])
        return s / n
    def all(self, *a):
        return decide_all(self)
    def any(self, *a): return not decide_all(~self)

    @property
    def at_(self): return None

    def __getitem__(self, k): return getitem(self, k)

    def __setitem__(self, k, v):
        new = setitem(self, k, v)
        self.fn = new.fn

    def __repr__(self): return f"SymArray{self.shape}"


class _At:
    """x.at[...].set(v)"""
    def __init__(self, x): self.x = x
    def __getitem__(self, k): return _AtK(self.x, k)


class _AtK:
    def __init__(self, x, k): self.x, self.k = x, k
    def set(self, v): return setitem(self.x, self.k, v)
    def add(self, v): return setitem(self.x, self.k, self.x[self.k] + v)


# ``x.at`` is an index helper for user code and the element accessor (called) for the engine
class _AtBoth(_At):
    def __call__(self, *idx): return self.x.fn(tuple(idx))


SymArray.at = property(lambda s: _AtBoth(s))


class Cmp:
    """a comparison of two values, decided on demand"""
    def __init__(self, op, a, b, n=False): self.op, self.a, self.b, self.n = op, a, b, n

    def negate(self): return Cmp(self.op, self.a, self.b, not self.n)
    __invert__ = negate

    def decide(self):
        """True / False / None (unknown), raising Refine if an index variable has to be split"""
        a, b, op = self.a, self.b, self.op
        if isint(a) and isint(b):
            if op in ('eq', 'ne'):
                d = delta(a, b)
                r = d.const()
                r = None if r is None else bool(r)
                if op == 'ne' and r is not None: r = not r
            else: r = lt(a, b) if op == 'lt' else not lt(b, a)
        else:
            d = (TExpr.of(a) - TExpr.of(b)).canon()
            c = d.const()
            if op in ('eq', 'ne'):
                r = (c == 0) if c is not None else None
                if op == 'ne' and r is not None: r = not r
            else: r = None if c is None else ((c < 0) if op == 'lt' else (c <= 0))
        if r is None: return None
        return r != self.n

    def __bool__(self):
        r = self.decide()
        if r is None: raise Unsupported("undecided comparison")
        return r


def isint(x): return type(x) in (int, bool, Poly) or isinstance(x, _npint())


def _npint():
    import numpy as np
    return (np.integer,)


def isarr(x):
    import numpy as np
    return isinstance(x, SymArray) or type(x) is np.ndarray or isinstance(x, (list, tuple))


def isscalar(x):
    import numpy as np
    return type(x) in (int, float, complex, bool, Poly, TExpr) or isinstance(x, (np.number, np.bool_)) or isinstance(x, Cmp)


def asarr(x):
    import numpy as np
    if isinstance(x, SymArray): return x
    if hasattr(x, '__sym_array__'): return x.__sym_array__()
    if isscalar(x):
        v = x
        return SymArray((), lambda ix: v, 'i' if isint(x) else 's')
    if type(x) is np.ndarray:
        if x.dtype == object: return asarr(x.tolist())
        k = 'i' if x.dtype.kind in 'iu' else 'b' if x.dtype.kind == 'b' else 's'
        return table(x.shape, lambda ix: x[ix], k)
    if isinstance(x, (list, tuple, range)):
        xs = [asarr(y) for y in x]
        if not xs: return SymArray((0,), lambda ix: TExpr.of(0), 's')
        sh = xs[0].shape
        kind = 'i' if all(y.kind == 'i' for y in xs) else 's'
        return table((len(xs),) + sh, lambda ix: xs[ix[0]].fn(ix[1:]) if len(ix) > 1 or not sh else xs[ix[0]].fn(ix[1:]), kind, 1)
    if type(x).__module__.startswith('jax'): return asarr(np.asarray(x))
    raise Unsupported(f"not an array: {type(x).__name__}")


def table(shape, look, kind, naxes=None):
    """array with concrete (leading) axes"""
    n = len(shape) if naxes is None else naxes

    def fn(ix):
        ix = list(ix)
        for t in range(n):
            c = Poly.of(ix[t]).const()
            if c is None:
                vs = idx_vars(Poly.of(ix[t]))
                for v in vs: enum_var(v)
                raise Unsupported(f"index {ix[t]} into a table")
            ix[t] = c
        v = look(tuple(ix))
        import numpy as np
        if isinstance(v, np.generic): v = v.item()
        return v
    return SymArray(shape, fn, kind)


def conv(v, kind):
    if kind == 's': return TExpr.of(v)
    return v


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        ds = [s[i - n + len(s)] for s in shapes if i - n + len(s) >= 0]
        d = 1
        for x in ds:
            if type(x) is int and x == 1: continue
            if type(d) is int and d == 1: d = x
            elif not sdeq(d, x):
                if not deq(d, x):
                    if type(d) is not int and deq(d, 1): d = x
                    elif type(x) is not int and deq(x, 1): pass
                    else: raise ValueError(f"operands could not be broadcast together {shapes}")
        out.append(d)
    return tuple(out)


def bidx(a, ix):
    off = len(ix) - a.ndim
    return tuple(0 if (type(a.shape[t]) is int and a.shape[t] == 1) else ix[off + t] for t in range(a.ndim))


def elementwise(op, *xs, kind=None):
    xs = [asarr(x) for x in xs]
    sh = bshape([x.shape for x in xs])
    k = kind or ('s' if any(x.kind == 's' for x in xs) else xs[0].kind)
    fs = [(x, x.fn) for x in xs]

    def fn(ix):
        vals = [f(bidx(x, ix)) for x, f in fs]
        if k == 's': vals = [TExpr.of(v) for v in vals]
        r = op(*vals)
        return r.norm() if type(r) is Poly else r
    return SymArray(sh, fn, k)


def ifloordiv(a, b):
    if isint(a) and isint(b): return divmod_idx(a, b)[0]
    raise Unsupported("floor division of scalars")


def imod(a, b):
    if isint(a) and isint(b): return divmod_idx(a, b)[1]
    raise Unsupported("modulo of scalars")


def sabs(a):
    if isint(a): return a if not lt(a, 0) else -a
    c = a.const()
    if c is not None: return TExpr.of(abs(c))
    return TExpr.func('abs', [a])


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    fa, fb = a.fn, b.fn
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: scalar operand")
    n = a.shape[-1]
    m = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not sdeq(n, m) and not deq(n, m): raise ValueError(f"matmul: mismatch {a.shape} {b.shape}")
    la, lb = a.shape[:-2], b.shape[:-2]
    A1, B1 = a.ndim == 1, b.ndim == 1
    lead = bshape([la, lb]) if (la or lb) else ()
    sh = lead + (() if A1 else (a.shape[-2],)) + (() if B1 else (b.shape[-1],))
    nl = len(lead)

    def fn(ix):
        li, rest = ix[:nl], ix[nl:]
        ia = tuple(0 if (type(la[t]) is int and la[t] == 1) else li[nl - len(la) + t] for t in range(len(la)))
        ib = tuple(0 if (type(lb[t]) is int and lb[t] == 1) else li[nl - len(lb) + t] for t in range(len(lb)))
        i = () if A1 else (rest[0],)
        j = () if B1 else (rest[-1],)

        def body(k):
            x = TExpr.of(fa(ia + i + (k,)))
            if x.iszero(): return x
            return x * TExpr.of(fb(ib + (k,) + j))
        return sum_over(n, body)
    return SymArray(sh, fn, 's')


def reduce_sum(a, axis, keepdims=False):
    axes = list(range(a.ndim)) if axis is None else sorted(x % a.ndim for x in ([axis] if isinstance(axis, int) else axis))
    f, nd = a.fn, a.ndim
    keep = [t for t in range(nd) if t not in axes]
    sh = [a.shape[t] for t in keep] if not keepdims else [1 if t in axes else a.shape[t] for t in range(nd)]
    kind = a.kind
    dims = a.shape

    def fn(ix):
        full = [None] * nd
        for p, t in enumerate(keep): full[t] = ix[t] if keepdims else ix[p]

        def go(rem, full):
            if not rem: return f(tuple(full))
            t = rem[0]

            def g(k):
                fl = list(full)
                fl[t] = k
                return TExpr.of(go(rem[1:], fl))
            return sum_over(dims[t], g)
        if kind == 'i':
            c = [Poly.of(dims[t]).const() for t in axes]
            if any(x is None for x in c): raise Unsupported("sum over a symbolic axis of an index array")
            tot = 0
            for combo in itertools.product(*[range(x) for x in c]):
                fl = list(full)
                for t, v in zip(axes, combo): fl[t] = v
                tot = tot + f(tuple(fl))
            return tot
        return go(axes, full)
    r = SymArray(sh, fn, kind if kind == 'i' else 's')
    return scalarize(r)


def scalarize(r):
    """0-d results stay 0-d arrays of scalars: return the scalar itself"""
    if r.shape == (): return r.fn(())
    return r


def reshape(a, sh):
    sh = [s if type(s) in (int, Poly) else (Poly.of(s).norm() if isint(s) else s.fn(()) if isinstance(s, SymArray) else s) for s in sh]
    tot = prodl(a.shape)
    neg1 = [i for i, s in enumerate(sh) if type(s) is int and s == -1]
    if len(neg1) > 1: raise ValueError("can only specify one unknown dimension")
    if neg1:
        rest = prodl([s for i, s in enumerate(sh) if i != neg1[0]])
        q = exact_div(tot, rest)
        if q is None:
            if Poly.of(rest).const() == 0: raise ValueError("cannot reshape: unknown dimension with empty axes")
            q2, r2 = P.pdivmod(Poly.of(tot), Poly.of(rest))
            if not (type(r2) is int and r2 == 0): raise Unsupported(f"reshape {a.shape} -> {sh}")
            q = q2
        sh[neg1[0]] = q
    if not sdeq(prodl(sh), tot) and not deq(prodl(sh), tot): raise ValueError(f"cannot reshape array of size {tot} into shape {tuple(sh)}")
    old, new = list(a.shape), list(sh)
    # minimal groups of axes with equal products
    groups, i, j = [], 0, 0
    while i < len(old) or j < len(new):
        gi, gj = [], []
        po = pn = 1
        while True:
            if gi and gj and same(po, pn): break
            if i < len(old) and (not gi or not bigger(po, pn) or j >= len(new)):
                gi.append(i)
                po = po * old[i]
                i += 1
            elif j < len(new):
                gj.append(j)
                pn = pn * new[j]
                j += 1
            elif i < len(old):
                gi.append(i)
                po = po * old[i]
                i += 1
            else: break
            if not gi and not gj: break
        groups.append((gi, gj, same(po, pn)))
    if not all(g[2] for g in groups): groups = [(list(range(len(old))), list(range(len(new))), True)]
    # trailing axes of size one left alone
    f = a.fn

    def fn(ix):
        out = [None] * len(old)
        for gi, gj, _ in groups:
            nz = [t for t in gi if not (type(old[t]) is int and old[t] == 1)]
            mz = [t for t in gj if not (type(new[t]) is int and new[t] == 1)]
            for t in gi: out[t] = 0
            if len(nz) == 1 and len(mz) == 1:
                out[nz[0]] = ix[mz[0]]
                continue
            flat = 0
            for t in gj: flat = flat * new[t] + ix[t]
            for t in reversed(gi[1:]):
                if type(old[t]) is int and old[t] == 1: continue
                if all((type(old[s]) is int and old[s] == 1) for s in gi[:gi.index(t)]):
                    break
                flat, out[t] = divmod_idx(flat, old[t])
            first = next((s for s in gi if not (type(old[s]) is int and old[s] == 1)), gi[0] if gi else None)
            if first is not None: out[first] = flat
        return f(tuple(out))
    return SymArray(sh, fn, a.kind)


def same(a, b): return Poly.of(a)._add(Poly.of(b), -1).norm() == 0 if type(Poly.of(a)._add(Poly.of(b), -1).norm()) is int else False


def bigger(a, b):
    """heuristic: is a (old product so far) ahead of b"""
    if same(a, b): return False
    q = exact_div(b, a)
    if q is not None: return False
    return True


# ---------------------------------------------------------------- indexing

class Slice:
    def __init__(self, sl, n):
        self.start, self.stop, self.step = norm_slice(sl, n)


def norm_slice(sl, n):
    step = 1 if sl.step is None else sl.step
    if type(step) is not int: raise Unsupported("symbolic slice step")

    def fix(x, default):
        if x is None: return default
        if isinstance(x, SymArray): x = x.fn((0,) * x.ndim)
        if not isint(x): raise TypeError("slice indices must be integers")
        if type(x) is int and type(n) is int:
            return max(0, min(n, x + n if x < 0 else x)) if step > 0 else max(-1, min(n - 1, x + n if x < 0 else x))
        if ctx.decide('ge', neg(Poly.of(x))._add(Poly.of(1), -1)): x = x + n     # negative
        if not ctx.decide('ge', Poly.of(x)): x = 0
        if not ctx.decide('ge', Poly.of(n)._add(Poly.of(x), -1)): x = n
        return x
    if step > 0:
        a, b = fix(sl.start, 0), fix(sl.stop, n)
        ln = b - a
        if not ctx.decide('ge', Poly.of(ln)): ln = 0
        if step == 1: return a, ln, 1
        q, r = P.pdivmod(Poly.of(ln) + (step - 1) if True else 0, Poly.of(step))
        return a, q, step
    if step == -1:
        if sl.start is None and sl.stop is None: return n - 1, n, -1
        a = n - 1 if sl.start is None else fix(sl.start, None)
        b = -1 if sl.stop is None else fix(sl.stop, None)
        ln = a - b
        if not ctx.decide('ge', Poly.of(ln)): ln = 0
        return a, ln, -1
    raise Unsupported("slice step")


def expand_key(a, k):
    if not isinstance(k, tuple): k = (k,)
    n = len([x for x in k if x is not None and x is not Ellipsis and not (isinstance(x, SymArray) and x.kind == 'b' and x.ndim > 1)])
    if not any(x is Ellipsis for x in k): k = k + (Ellipsis,)
    out, seen = [], False
    for x in k:
        if x is Ellipsis and not seen:
            out += [slice(None)] * (a.ndim - n)
            seen = True
        elif x is Ellipsis: pass
        else: out.append(x)
    if len([x for x in out if x is not None]) != a.ndim: raise IndexError("too many indices for array")
    return out


def wrapneg(x, n):
    """python index semantics"""
    if type(x) is int and type(n) is int:
        if not -n <= x < n: raise IndexError(f"index {x} is out of bounds for axis with size {n}")
        return x % n if n else x
    if type(x) is int:
        if x >= 0: return x
        return n + x
    if nonneg(x): return x
    if lt(x, 0): return x + n
    return x


def getitem(a, k):
    import numpy as np
    if not isinstance(k, tuple) and isinstance(k, (list, np.ndarray)): k = asarr(k)
    ks = expand_key(a, k)
    ks = [asarr(x) if isinstance(x, (list, np.ndarray)) else x for x in ks]
    ks = [x.fn(()) if isinstance(x, SymArray) and x.ndim == 0 else x for x in ks]
    if any(isinstance(x, SymArray) and x.kind == 'b' for x in ks): raise Unsupported("boolean mask")
    f = a.fn
    adv = [t for t, x in enumerate(ks) if isinstance(x, SymArray)]
    advi = [t for t, x in enumerate(ks) if isinstance(x, SymArray) or (x is not None and not isinstance(x, slice))]
    if not adv:
        plan, sh, ax = [], [], 0
        for x in ks:
            if x is None:
                sh.append(1)
                plan.append(('new',))
                continue
            n = a.shape[ax]
            if isinstance(x, slice):
                st, ln, step = norm_slice(x, n)
                sh.append(ln)
                plan.append(('sl', st, step))
            elif isint(x):
                plan.append(('ix', wrapneg(x if type(x) is Poly else int(x), n)))
            else: raise Unsupported(f"index {type(x).__name__}")
            ax += 1

        def fn(ix):
            out, p = [], 0
            for pl in plan:
                if pl[0] == 'new': p += 1
                elif pl[0] == 'ix': out.append(pl[1])
                else:
                    out.append(pl[1] + ix[p] * pl[2])
                    p += 1
            return f(tuple(out))
        r = SymArray(sh, fn, a.kind)
        return r if sh else r.fn(())
    # advanced indexing
    bs = bshape([ks[t].shape for t in adv])
    nb = len(bs)
    contiguous = all(t2 - t1 == 1 for t1, t2 in zip(advi, advi[1:]))
    pos = advi[0] if contiguous else 0
    sh, plan, ax = [], [], 0
    placed = False
    if not contiguous:
        sh += list(bs)
        placed = True
    for t, x in enumerate(ks):
        if t in advi and contiguous and not placed:
            bpos = len(sh)
            sh += list(bs)
            placed = True
        if x is None:
            plan.append(('new', len(sh)))
            sh.append(1)
            continue
        n = a.shape[ax]
        if isinstance(x, slice):
            st, ln, step = norm_slice(x, n)
            plan.append(('sl', st, step, len(sh)))
            sh.append(ln)
        elif isinstance(x, SymArray): plan.append(('adv', x, x.fn, n))
        else: plan.append(('ix', wrapneg(x, n)))
        ax += 1
    bpos = bpos if contiguous else 0

    def fn(ix):
        out = []
        bi = ix[bpos:bpos + nb]
        for pl in plan:
            if pl[0] == 'sl': out.append(pl[1] + ix[pl[3]] * pl[2])
            elif pl[0] == 'ix': out.append(pl[1])
            elif pl[0] == 'adv': out.append(wrapneg(pl[2](bidx(pl[1], bi)), pl[3]))
        return f(tuple(out))
    return SymArray(sh, fn, a.kind)


def setitem(a, k, v):
    """a copy of ``a`` with a[k] = v; positions are decided by the index (Refine), later writes win"""
    import numpy as np
    v = asarr(v)
    ks = expand_key(a, k if isinstance(k, tuple) else (asarr(k) if isinstance(k, (list, np.ndarray)) else k,))
    ks = [asarr(x) if isinstance(x, (list, np.ndarray)) else x for x in ks]
    f, g = a.fn, v.fn
    kind = a.kind if a.kind == v.kind else ('s' if 's' in (a.kind, v.kind) else a.kind)
    adv = [t for t, x in enumerate(ks) if isinstance(x, SymArray)]
    if any(x is None for x in ks): raise Unsupported("newaxis in assignment")
    if not adv:
        plan, sh = [], []
        for t, x in enumerate(ks):
            if isinstance(x, slice):
                st, ln, step = norm_slice(x, a.shape[t])
                plan.append((st, ln, step))
                sh.append(ln)
            else: plan.append((wrapneg(x, a.shape[t]), None, 1))
        b = bshape([tuple(sh), v.shape]) if v.ndim else tuple(sh)
        if v.ndim > len(sh): raise Unsupported("assignment of a larger array")

        def fn(ix):
            sub = []
            for i, (st, ln, step) in zip(ix, plan):
                if ln is None:
                    d = ieq(i, st)
                    if not d: return conv(f(ix), kind)
                else:
                    p = (i - st) if step == 1 else (st - i) if step == -1 else None
                    if p is None:
                        q, r = divmod_idx(i - st, step)
                        if not ieq(r, 0): return conv(f(ix), kind)
                        p = q
                    if step == 1:
                        if lt(i, st) or not lt(i, st + ln): return conv(f(ix), kind)
                    elif not in_range(p, ln): return conv(f(ix), kind)
                    sub.append(p)
            return conv(g(bidx(v, tuple(sub))), kind)
        return SymArray(a.shape, fn, kind)
    # index arrays of concrete length along one axis, slices elsewhere
    if len(adv) == 1 and all(isinstance(x, slice) and x == slice(None) for t, x in enumerate(ks) if t not in adv):
        t0 = adv[0]
        rows = ks[t0]
        if rows.ndim != 1: raise Unsupported("assignment with a matrix of indices")
        n = Poly.of(rows.shape[0]).const()
        rf = rows.fn
        if n is None:
            # rows t -> pi(t + c) for a permutation pi (or the identity): x is hit iff c <= pi^-1(x) < c + length
            L = rows.shape[0]
            tv = P.var(L, 't')
            ta, = tv.atoms()
            at = Poly.of(rf((tv,))).norm()
            pi = None
            if len(at.t) == 1:
                (mm, cc), = at.t.items()
                if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == 'app' and mm[0][0].name in P.PERM_INV: pi, at = mm[0][0], Poly.of(mm[0][0].args[0]).norm()
            c = at._add(tv, -1)
            if ta in c.allatoms(): raise Unsupported("assignment to symbolically many indices")

            def fn(ix):
                y = ix[t0] if pi is None else P.perm_app(P.PERM_INV[pi.name], ix[t0], pi.hi)
                if lt(y, c) or not lt(y, c + L): return conv(f(ix), kind)
                return conv(g(bidx(v, ix[:t0] + (y - c,) + ix[t0 + 1:])), kind)
            return SymArray(a.shape, fn, kind)

        def fn(ix):
            for r in reversed(range(n)):   # the last assignment wins
                if ieq(ix[t0], wrapneg(rf((r,)), a.shape[t0])):
                    sub = ix[:t0] + (r,) + ix[t0 + 1:]
                    return conv(g(bidx(v, sub)), kind)
            return conv(f(ix), kind)
        return SymArray(a.shape, fn, kind)
    raise Unsupported("advanced assignment")


def ieq(i, j):
    """i == j decided (Refine into the two cases, or fork on dimensions)"""
    d = Poly.of(i)._add(Poly.of(j), -1)
    c = d.const()
    if c is not None: return c == 0
    if nonneg(d._add(Poly.of(1), -1)) or nonneg(neg(d)._add(Poly.of(1), -1)): return False
    if ctx.prove('ne', d): return False
    if ctx.prove('eq', d): return True
    vs = idx_vars(d)
    if not vs and not any(a.kind == 'var' for a in d.allatoms()): return ctx.decide('eq', d)
    for v in sorted(vs, key=lambda a: a.name):
        A, B = lincoef(d, v)
        if A.const() in (1, -1):
            e = Poly({m: (-x if A.const() == 1 else x) for m, x in B.t.items()})
            if v in e.allatoms(): continue
            if type(v.hi) is int and v.hi <= 16: enum_var(v)
            if v.bound:
                # SUM over v: v < e, v == e, v > e
                if not any(a.kind == 'var' for a in e.allatoms()) and ctx.decide('ge', e) and ctx.decide('ge', Poly.of(v.hi)._add(e, -1)._add(Poly.of(1), -1)):
                    cut(v, e.norm(), True)
                continue
            raise Refine(v, [(e.norm(), [], [('ge', e), ('ge', Poly.of(v.hi)._add(e, -1)._add(Poly.of(1), -1))]), (Poly.atom(v), [v], [('ne', d)])], f"{i} == {j}")
    raise Unsupported(f"undecided: {i} == {j}")


# ---------------------------------------------------------------- universal statements

class Failed(Exception):
    def __init__(self, msg, **k):
        super().__init__(msg)
        self.info = k


def forall(shape, pred, names='x', limit=4000):
    """explores all index pieces; pred(idx) -> (ok, detail).  Returns (number of pieces, first failure or None)"""
    idx, vs = [], []
    for t, n in enumerate(shape):
        c = Poly.of(n).const()
        if c == 0: return 0, None
        if c == 1:
            idx.append(0)
            continue
        x, a = fresh(n, name=names)
        idx.append(x)
        vs.append(a)
    st = [(tuple(idx), vs, [])]
    n = 0
    while st:
        ix, vs, facts = st.pop()
        n += 1
        if n > limit: raise Unsupported("too many index cases")
        base = len(ctx.cur.facts)
        ctx.cur.facts.extend(facts)
        if facts: ctx._cache.clear()
        ctx.cur.temp += bool(facts)
        try:
            if facts and not ctx.feasible(): continue
            ok, detail = pred(ix)
            if not ok: return n, (ix, detail)
        except Refine as r:
            if r.v not in vs: raise Unsupported(f"refinement of a foreign index: {r.why}")
            for rep, new, fs in reversed(r.alts):
                mp = {r.v: rep}
                same = isinstance(rep, Poly) and rep.skey() == Poly.atom(r.v).skey()
                st.append((ix if same else tuple(subs(i, mp) for i in ix), [v for v in vs if v != r.v] + list(new),
                           [(k, Poly.of(subs(Poly.of(p).norm(), mp)) if not same else p) for k, p in facts + list(fs)]))
        finally:
            del ctx.cur.facts[base:]
            ctx.cur.temp -= bool(facts)
            if facts: ctx._cache.clear()
    return n, None


def decide_all(a):
    """all(a) for a boolean array: True if proved elementwise, False if refuted somewhere, else an explored truth value"""
    if a.kind != 'b': raise Unsupported("all() of a non boolean array")
    state = dict(unknown=False)

    def pred(ix):
        c = a.fn(ix)
        r = c.decide() if isinstance(c, Cmp) else bool(c)
        if r is None:
            state['unknown'] = True
            return True, None
        return r, None
    try: n, bad = forall(a.shape, pred)
    except Unsupported:
        state['unknown'], bad = True, None
    if bad is not None: return False
    if not state['unknown']: return True
    return ctx.choose(2) == 0


# ---------------------------------------------------------------- permutations

def inverse_perm(p):
    """argsort of a permutation of [0,n) (contract of numpy.argsort): the inverse. Requires p to be a bijection."""
    f, n = p.fn, p.shape[0]
    if p.meta and p.meta.get('inv') is not None: return p.meta['inv']
    check_bijection(p)
    memo = []

    def all_pieces():
        if memo: return memo[0]
        r = pieces(lambda j: f((j,)), n)
        if not ctx.cur.temp: memo.append(r)
        return r

    def fn(ix):
        x = Poly.of(ix[0])
        c = x.const()
        nn = x.norm()
        if type(nn) is Poly and len(nn.t) == 1:
            (m, k), = nn.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var':
                v = m[0][0]
                if sdeq(v.hi, n):
                    alts = []
                    for e, vs, val in all_pieces():
                        vv = Poly.of(val)
                        if len(all_pieces()) == 1 and len(vs) == 1 and vv.norm() is not None and type(val) is Poly and val.skey() == Poly.atom(vs[0]).skey() and type(e) is Poly and e.skey() == Poly.atom(vs[0]).skey():
                            return x.norm()    # identity permutation
                        if v.bound: vs, e, val = rebound(vs, e, val)
                        alts.append((val, vs, []))
                    raise Refine(v, alts, 'permutation')
        ps = all_pieces()
        for e, vs, val in ps:
            s = solve(Poly.of(val), x, vs)
            if s is not None: return subs(e, s)
        # the value may become decidable once a variable is split: try the boundaries of the pieces
        for e, vs, val in ps:
            lo = low(val, vs)
            if lo is not None: lt(x, lo)
        for v in idx_vars(x): enum_var(v)
        raise Unsupported(f"inverse permutation at {x} ({[(str(a), str(a.hi)) for a in x.allatoms() if a.kind=='var']}; pieces {[str(p[2]) for p in ps]})")
    r = SymArray((n,), fn, 'i', meta=dict(inv=p))
    return r


def rebound(vs, e, val):
    mp, new = {}, []
    for v in vs:
        nv, na = fresh(v.hi, bound=True)
        mp[v] = nv
        new.append(na)
    return new, subs(e, mp), subs(val, mp)


def low(val, vs):
    """minimum of a piece (all digits zero), if its digits are plain"""
    mp = {v: 0 for v in vs}
    p = Poly.of(val)
    out = Poly({})
    for m, c in p.t.items():
        if not any(a.kind in ('var', 'app', 'mod', 'div') for a, _ in m): out = out._add(Poly({m: c}))
    return out.norm()


def solve(val, x, vs):
    """values of the variables with val == x, or None.  val: sum of radix * digit (digit: a variable or an opaque
    permutation of one), plus a constant"""
    co, const = {}, Poly({})
    for m, c in val.t.items():
        ds = [(a, e) for a, e in m if a.kind in ('var', 'app', 'mod', 'div') and (a in vs or Poly.atom(a).allatoms() & set(vs))]
        if not ds:
            const = const._add(Poly({m: c}))
            continue
        if len(ds) != 1 or ds[0][1] != 1: return None
        a = ds[0][0]
        co[a] = co.get(a, Poly({}))._add(Poly({tuple(t for t in m if t[0] != a): c}))
    digs = [(c, a) for a, c in co.items()]
    # largest radix first
    digs.sort(key=lambda d: (-sum(e for m in d[0].t for _, e in m), repr(d[0].skey())))
    order = []
    rest = list(digs)
    while rest:   # choose the digit whose radix dominates the remaining ones
        for d in rest:
            tail = Poly({})
            for o in rest:
                if o is not d: tail = tail._add(pmul0(o[0], Poly.of(o[1].hi)._add(Poly.of(1), -1)))
            if nonneg(d[0]._add(tail, -1)._add(Poly.of(1), -1)):
                order.append(d)
                rest.remove(d)
                break
        else: return None
    cur = x._add(const, -1)
    out = {}
    for c, a in order:
        q = P.pdivmod(cur, c, opaque=False) if c.const() != 1 else (cur.norm(), 0)
        if q is None:
            unperm(cur)
            return None
        qv, cur = Poly.of(q[0]), Poly.of(q[1])
        if not (ge0(qv) and ge0(Poly.of(a.hi)._add(qv, -1)._add(Poly.of(1), -1))):
            unperm(qv)
            return None
        if a.kind == 'var': out[a] = qv.norm()
        elif a.kind == 'app' and a.name in P.PERM_INV:
            arg = a.args[0]
            y = P.perm_app(P.PERM_INV[a.name], qv, a.hi)
            s = solve(arg, Poly.of(y), [v for v in vs if v in arg.allatoms()])
            if s is None: return None
            out.update(s)
        else: return None
    if cur.t: return None
    if set(out) != set(vs): return None
    # verification: substituting back gives x
    return out if P.prove_eq0(Poly.of(subs(val.norm(), out))._add(x, -1)) else None


def ge0(p): return nonneg(p) or ctx.prove('ge', p)


def check_bijection(p):
    """proof obligation: p is a bijection of [0,n): the pieces are in range and every piece is injective, and pieces
    have disjoint images (then, as the piece domains partition [0,n), p is a bijection)"""
    if p.meta and p.meta.get('perm'): return
    f, n = p.fn, p.shape[0]
    ps = pieces(lambda j: f((j,)), n)
    for e, vs, val in ps:
        val = Poly.of(val)
        if not (ge0(val) and ge0(Poly.of(n)._add(val, -1)._add(Poly.of(1), -1))): raise Unsupported(f"argsort: value {val} not provably in range")
        mp = {v: Poly.atom(Atom('var', v.name + "'", 0, v.hi, (), v.bound)) for v in vs}
        s = solve(val, Poly.of(subs(val.norm(), mp)), vs)
        if s is None or any(Poly.of(s[v]).skey() != mp[v].skey() for v in vs): raise Unsupported(f"argsort: piece {val} not provably injective")
    for a, b in itertools.combinations(ps, 2):
        if not disjoint(Poly.of(a[2]), a[1], Poly.of(b[2]), b[1]): raise Unsupported(f"argsort: pieces {a[2]} and {b[2]} not provably disjoint")
    ctx.stats['bijections'] = ctx.stats.get('bijections', 0) + 1


def disjoint(a, avs, b, bvs):
    d = a._add(b, -1)
    if nonneg(d._add(Poly.of(1), -1)) or nonneg(neg(d)._add(Poly.of(1), -1)): return True
    x, y = strip(d)
    if x is not None and x.kind == y.kind == 'app' and x.name == y.name and x.name in P.PERM_INV: return disjoint(Poly.of(x.args[0]), avs, Poly.of(y.args[0]), bvs)
    # some digit differs: reduce by common radices
    try: r = digit_split(a.norm(), b.norm())
    except Refine: r = None
    if r is not None:
        if any(disjoint(Poly.of(x), avs, Poly.of(y), bvs) for x, y in r): return True
    return ctx.prove('ne', d)


def opaque_perm(name, n):
    """an arbitrary permutation of [0,n), with its inverse"""
    P.PERM_INV[name] = name + '^-1'
    P.PERM_INV[name + '^-1'] = name
    a = SymArray((n,), lambda ix: P.perm_app(name, ix[0], n), 'i', meta=dict(perm=True))
    b = SymArray((n,), lambda ix: P.perm_app(name + '^-1', ix[0], n), 'i', meta=dict(perm=True, inv=a))
    a.meta['inv'] = b
    return a


def matrix(name, shape, real=False):
    from . import terms
    if real: terms.REAL.add(name)
    return SymArray(shape, lambda ix: TExpr.entry(name, ix), 's')


def arange(n): return SymArray((n,), lambda ix: ix[0], 'i', meta=dict(perm=True))
