"""Models (assumed contracts) of the numpy / jax.numpy / jax functions used by the code, over symbolic arrays.
They are substituted for the ``np``, ``jnp``, ``jax`` .. globals of the real modules; everything else of the modules is
the code of /repo itself.  Each model is cross-checked against numpy on every run (see selfcheck.py)."""
import itertools, math, types
import numpy as _np
from . import ctx, poly as P, symarr as S
from .poly import Poly, Unsupported, exact_div
from .terms import TExpr, delta
from .symarr import SymArray, asarr, elementwise, prodl, Cmp, isint, isarr, isscalar


class Missing:
    def __init__(self, name): self._n = name
    def __call__(self, *a, **k): raise Unsupported(f"{self._n} is not modelled")
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Missing(self._n + '.' + k)


class Namespace(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Missing(k)


class _ndmeta(type):
    def __instancecheck__(cls, o): return isinstance(o, (SymArray, _np.ndarray))


class ndarray(metaclass=_ndmeta):
    pass


def arange(*a, dtype=None):
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: (lo, hi), st = a, 1
    else: lo, hi, st = a
    lo, hi = val(lo), val(hi)
    if all(type(x) is int for x in (lo, hi, st)):
        r = list(range(lo, hi, st))
        if lo == 0 and st == 1: return SymArray((hi,), lambda ix: ix[0], 'i', meta=dict(perm=True))
        if st == 1: return SymArray((len(r),), lambda ix: lo + ix[0], 'i')
        return S.table((len(r),), lambda ix: r[ix[0]], 'i')
    if st != 1: raise Unsupported("arange with a step")
    n = hi - lo
    if type(lo) is int and lo == 0: return S.arange(n)
    return SymArray((n,), lambda ix: lo + ix[0], 'i')


def val(x):
    if isinstance(x, SymArray): return x.fn((0,) * x.ndim)
    if isinstance(x, _np.integer): return int(x)
    return x


def argsort(a, *x, **k):
    a = asarr(a)
    if a.kind != 'i': raise Unsupported("argsort of scalars")
    n = Poly.of(a.shape[0]).const()
    if n is not None:
        v = [Poly.of(a.fn((i,))).const() for i in range(n)]
        if all(x is not None for x in v):
            r = sorted(range(n), key=lambda i: (v[i], i))
            return S.table((n,), lambda ix: r[ix[0]], 'i')
    return S.inverse_perm(a)


def array(x, dtype=None, copy=None, **k):
    a = asarr(x)
    if dtype is not None and a.kind == 'i' and isfloat(dtype): return tos(a)
    return SymArray(a.shape, a.fn, a.kind, a.meta) if type(a) is SymArray else a


def isfloat(dt): return dt in (float, complex) or 'float' in str(dt) or 'complex' in str(dt)


def tos(a):
    f = a.fn
    return SymArray(a.shape, lambda ix: TExpr.of(f(ix)), 's')


def asarray(x, dtype=None, **k): return array(x, dtype)


def shapeof(s):
    s = val(s)
    return (s,) if isint(s) else tuple(val(x) for x in s)


def zeros(shape, dtype=None): return const(shape, 0, dtype)
def ones(shape, dtype=None): return const(shape, 1, dtype)
def full(shape, v, dtype=None):
    v = val(v)
    return const(shape, v, int if dtype is None and isint(v) and not isinstance(v, bool) else dtype)


def const(shape, v, dtype):
    k = 'i' if dtype in (int, 'int', 'int32', 'int64') else 's'
    v = v if k == 'i' else TExpr.of(v)
    return SymArray(shapeof(shape), lambda ix: v, k)


def zeros_like(a, dtype=None): return zeros(asarr(a).shape, dtype)
def ones_like(a, dtype=None): return ones(asarr(a).shape, dtype)


def eye(n, m=None, dtype=None, k=0, **kw):
    n, m = val(n), val(m)
    return SymArray((n, n if m is None else m), lambda ix: delta(ix[0] + k if k else ix[0], ix[1]), 's')


def concatenate(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    if not xs: raise ValueError("need at least one array to concatenate")
    nd = xs[0].ndim
    if nd == 0: raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for x in xs[1:]:
        if x.ndim != nd: raise ValueError("all the input array dimensions must match")
        for t in range(nd):
            if t != axis and not S.sdeq(x.shape[t], xs[0].shape[t]) and not S.deq(x.shape[t], xs[0].shape[t]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    kind = 'i' if all(x.kind == 'i' for x in xs) else 'b' if all(x.kind == 'b' for x in xs) else 's'
    bounds, tot = [], 0
    for x in xs:
        bounds.append((tot, x.fn, x.shape[axis]))
        tot = tot + x.shape[axis]
    sh = list(xs[0].shape)
    sh[axis] = tot
    bounds = [b for b in bounds if not (type(b[2]) is int and b[2] == 0)] or bounds[:1]

    def fn(ix):
        i = ix[axis]
        for t, (off, f, n) in enumerate(bounds):
            if t == len(bounds) - 1 or S.lt(i, off + n):
                r = f(ix[:axis] + (i - off,) + ix[axis + 1:])
                return TExpr.of(r) if kind == 's' else r
    return SymArray(sh, fn, kind)


def atleast2(x):
    x = asarr(x)
    return x if x.ndim > 1 else x.reshape(1, -1) if x.ndim == 1 else x.reshape(1, 1)


def vstack(xs): return concatenate([atleast2(x) for x in xs], 0)
def hstack(xs):
    xs = [asarr(x) for x in xs]
    xs = [x if x.ndim else x.reshape(1) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def expand_dims(a, axis):
    a = asarr(a)
    axis = axis % (a.ndim + 1)
    return a.reshape(a.shape[:axis] + (1,) + a.shape[axis:])


def stack(xs, axis=0):
    if isinstance(xs, SymArray): xs = [xs[i] for i in range(len(xs))]
    return concatenate([expand_dims(x, axis) for x in xs], axis if axis >= 0 else axis + asarr(xs[0]).ndim + 1)


def split(a, n, axis=0):
    a = asarr(a)
    ln = a.shape[axis]
    if isint(n):
        q = exact_div(ln, n)
        if q is None:
            q2, r2 = P.pdivmod(Poly.of(ln), Poly.of(n))
            if not (type(r2) is int and r2 == 0): raise ValueError("array split does not result in an equal division")
            q = q2
        bs = [i * q for i in range(1, val(n))]
    else: bs = [val(x) for x in n]
    out = []
    for lo, hi in zip([0] + list(bs), list(bs) + [ln]):
        out.append(a[(slice(None),) * (axis % a.ndim) + (slice(lo, hi),)])
    return out


def moveaxis(a, s, d):
    a = asarr(a)
    if isinstance(s, int): s, d = [s], [d]
    s, d = [x % a.ndim for x in s], [x % a.ndim for x in d]
    order = [i for i in range(a.ndim) if i not in s]
    for dd, ss in sorted(zip(d, s)): order.insert(dd, ss)
    return a.transpose(order)


def swapaxes(a, x, y): return asarr(a).swapaxes(x, y)
def transpose(a, axes=None):
    a = asarr(a)
    if axes is None: return a.T
    return a.transpose([val(x) for x in axes] if not isinstance(axes, SymArray) else [int(axes[i]) for i in range(len(axes))])


def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        n = max(a.ndim, b.ndim)
        a = a.reshape((1,) * (n - a.ndim) + a.shape)
        b = b.reshape((1,) * (n - b.ndim) + b.shape)
    fa, fb = a.fn, b.fn

    def fn(ix):
        qs = [S.divmod_idx(i, n) for i, n in zip(ix, b.shape)]
        return fa(tuple(q[0] for q in qs)) * fb(tuple(q[1] for q in qs))
    return SymArray([x * y for x, y in zip(a.shape, b.shape)], fn, 's' if 's' in (a.kind, b.kind) else a.kind)


def block_diag(*Ms):
    Ms = [atleast2(M) for M in Ms]
    R, C, ro, cofs = 0, 0, [], []
    for M in Ms:
        ro.append(R)
        cofs.append(C)
        R, C = R + M.shape[0], C + M.shape[1]

    def fn(ix):
        i, j = ix
        for t, M in enumerate(Ms):
            if t == len(Ms) - 1 or S.lt(i, ro[t] + M.shape[0]):
                if S.lt(j, cofs[t]) or not S.lt(j, cofs[t] + M.shape[1]): return TExpr.of(0)
                return TExpr.of(M.fn((i - ro[t], j - cofs[t])))
    return SymArray((R, C), fn, 's')


def einsum(spec, *ops, **k):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    lhs, _, out = spec.partition('->')
    terms = lhs.split(',')
    if any('...' in t for t in terms):
        nb = max(o.ndim - len(t.replace('...', '')) for o, t in zip(ops, terms))
        bl = 'ZYXWUQ'[:nb]
        terms = [t.replace('...', bl[nb - (o.ndim - len(t.replace('...', ''))):]) for o, t in zip(ops, terms)]
        out = out.replace('...', bl)
    if '->' not in spec:
        cnt = {}
        for c in ''.join(terms): cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim: raise ValueError("einsum: wrong number of subscripts")
        for c, n in zip(t, o.shape):
            if c in dims and not (type(n) is int and n == 1):
                if type(dims[c]) is int and dims[c] == 1: dims[c] = n
                elif not S.sdeq(dims[c], n) and not S.deq(dims[c], n): raise ValueError("einsum: size mismatch")
            else: dims.setdefault(c, n)
    summed = [c for c in dict.fromkeys(''.join(terms)) if c not in out]
    shapes = [o.shape for o in ops]

    def fn(ix):
        env = dict(zip(out, ix))

        def go(rem, env):
            if not rem:
                r = TExpr.of(1)
                for t, o, sh in zip(terms, ops, shapes):
                    r = r * TExpr.of(o.fn(tuple(0 if (type(n) is int and n == 1) else env[c] for c, n in zip(t, sh))))
                    if r.iszero(): return r
                return r
            return S.sum_over(dims[rem[0]], lambda v: go(rem[1:], {**env, rem[0]: v}))
        return go(summed, env)
    return S.scalarize(SymArray([dims[c] for c in out], fn, 's'))


def conj(x):
    if isinstance(x, (int, float, Poly)): return x
    if isinstance(x, complex): return x.conjugate()
    return x.conj()


def prod(x, axis=None, **k):
    if isinstance(x, SymArray):
        if axis is not None or x.ndim != 1: raise Unsupported("prod over an axis")
        x = [x[i] for i in range(len(x))]
    return prodl(list(x))


def cumsum(x, axis=None, **k):
    x = [x[i] for i in range(len(x))] if isinstance(x, SymArray) else [val(y) for y in x]
    out, t = [], 0
    for y in x:
        t = t + y
        out.append(t)
    return asarr(out)


def roll(a, k, axis=None):
    a = asarr(a)
    if axis is None: return roll(a.reshape(-1), k, 0).reshape(a.shape)
    axis = axis % a.ndim
    n, f = a.shape[axis], a.fn
    k = val(k)

    def fn(ix):
        i = ix[axis]
        s = S.divmod_idx(k, n)[1]     # 0 <= s < n
        j = i - s
        if S.lt(i, s): j = j + n
        return f(ix[:axis] + (j,) + ix[axis + 1:])
    return SymArray(a.shape, fn, a.kind)


def rot90(a, k=1, axes=(0, 1)):
    a = asarr(a)
    x, y = axes
    k = val(k)
    if type(k) is not int: raise Unsupported("rot90 with a symbolic number of turns")
    k %= 4
    if k == 0: return a
    if k == 2: return flip(flip(a, x), y)
    ax = list(range(a.ndim))
    ax[x], ax[y] = ax[y], ax[x]
    if k == 1: return flip(a, y).transpose(ax)
    return flip(a.transpose(ax), y)


def flip(a, axis):
    n, f = a.shape[axis], a.fn
    return SymArray(a.shape, lambda ix: f(ix[:axis] + (n - 1 - ix[axis],) + ix[axis + 1:]), a.kind)


def isscalar_(x): return isscalar(x) and not isinstance(x, Cmp) or isinstance(x, (float, complex, str))
def ndim(x): return asarr(x).ndim
def shape(x): return asarr(x).shape


def unary(name, real=False):
    def f(x, *a, **k):
        x = asarr(x) if not isscalar(x) else x
        g = lambda v: TExpr.func(name, [TExpr.of(v)])
        if isscalar(x): return const_or(name, TExpr.of(x), g)
        return elementwise(lambda v: const_or(name, TExpr.of(v), g), x, kind='s')
    return f


EXACT = {('exp', 0): 1, ('sqrt', 0): 0, ('sqrt', 1): 1, ('sin', 0): 0, ('cos', 0): 1, ('log', 1): 0}


def const_or(name, v, g):
    c = v.const()
    if c is not None and (name, c) in EXACT: return TExpr.of(EXACT[name, c])
    return g(v)


def absolute(x):
    if isscalar(x): return S.sabs(TExpr.of(x))
    return elementwise(S.sabs, x)


def minmax(op):
    def f(a, b):
        if isint(a) and isint(b): return (a if a <= b else b) if op == 'min' else (a if a >= b else b)
        def g(x, y):
            if isint(x) and isint(y): return (x if S.lt(x, y) else y) if op == 'min' else (y if S.lt(x, y) else x)
            return TExpr.func(op, [x, y])
        return S.scalarize(elementwise(g, a, b))
    return f


def sum_(x, axis=None, **k):
    if isinstance(x, SymArray): return x.sum(axis)
    if hasattr(x, '__next__') or isinstance(x, (list, tuple)):
        x = list(x)
        if all(isint(y) or isinstance(y, TExpr) for y in x):
            r = 0
            for y in x: r = r + y
            return r
    return asarr(x).sum(axis)


def mean(x, axis=None, **k): return asarr(x).mean(axis)


def outer(a, b):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return a.reshape(-1, 1) * b.reshape(1, -1)


def diag(a, k=0):
    a = asarr(a)
    f = a.fn
    if a.ndim == 1: return SymArray((a.shape[0],) * 2, lambda ix: TExpr.of(f((ix[0],))) * delta(ix[0], ix[1]), 's')
    return SymArray((a.shape[0],), lambda ix: f((ix[0], ix[0])), a.kind)


def trace(a):
    f = asarr(a).fn
    return S.sum_over(asarr(a).shape[0], lambda i: TExpr.of(f((i, i))))


def broadcast_to(a, shape):
    a = asarr(a)
    return SymArray(shapeof(shape), lambda ix: a.fn(S.bidx(a, ix)), a.kind)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None: a, axis = a.reshape(-1), 0
    f, n = a.fn, val(n)
    axis %= a.ndim
    sh = list(a.shape)
    sh[axis] = sh[axis] * n
    return SymArray(sh, lambda ix: f(ix[:axis] + (S.divmod_idx(ix[axis], n)[0],) + ix[axis + 1:]), a.kind)


def tile(a, n):
    a, n = asarr(a), val(n)
    if not isint(n) or a.ndim != 1: raise Unsupported("tile")
    f = a.fn
    return SymArray((a.shape[0] * n,), lambda ix: f((S.divmod_idx(ix[0], a.shape[0])[1],)), a.kind)


def squeeze(a, *x): return asarr(a).squeeze()
def reshape(a, sh): return asarr(a).reshape(sh)
def dot(a, b): return S.matmul(a, b)


def matmul(a, b): return S.matmul(a, b)


def linalg_inv(a):
    """contract: A inv(A) = inv(A) A = 1 (only asserted for named matrices, through rewrite rules)"""
    a = asarr(a)
    if a.meta and 'inv' in a.meta: return a.meta['inv']
    raise Unsupported("inverse of a matrix without a name")


class DType:
    """dtypes are not modelled (real-number semantics)"""
    def __init__(self, name='float32'): self.name = name
    def __call__(self, x=0): return x
    def __eq__(self, o): return str(o) == str(self)
    def __hash__(self): return hash(self.name)
    def __repr__(self): return self.name
    kind = 'f'


def dtype(x): return DType(str(getattr(x, 'name', x)))


class Scalar(DType):
    def __call__(self, x=0): return asarr(x) if isarr(x) else x


def isclose_missing(*a, **k): raise Unsupported("tolerance comparison")


def make(name):
    ns = Namespace(
        __name__=name, arange=arange, argsort=argsort, array=array, asarray=asarray, zeros=zeros, ones=ones, full=full,
        zeros_like=zeros_like, ones_like=ones_like, eye=eye, identity=eye, concatenate=concatenate, vstack=vstack, hstack=hstack,
        stack=stack, expand_dims=expand_dims, split=split, moveaxis=moveaxis, swapaxes=swapaxes, transpose=transpose, kron=kron,
        einsum=einsum, conj=conj, conjugate=conj, prod=prod, cumsum=cumsum, roll=roll, rot90=rot90, isscalar=isscalar_, ndim=ndim,
        shape=shape, exp=unary('exp'), sqrt=unary('sqrt'), sin=unary('sin'), cos=unary('cos'), log=unary('log'), abs=absolute,
        absolute=absolute, maximum=minmax('max'), minimum=minmax('min'), sum=sum_, mean=mean, outer=outer, diag=diag, trace=trace,
        broadcast_to=broadcast_to, repeat=repeat, tile=tile, squeeze=squeeze, reshape=reshape, dot=dot, matmul=matmul,
        ndarray=ndarray, newaxis=None, pi=math.pi, inf=math.inf, dtype=dtype, integer=_np.integer, number=_np.number,
        float32=Scalar('float32'), float64=Scalar('float64'), complex64=Scalar('complex64'), complex128=Scalar('complex128'),
        int32=Scalar('int32'), int64=Scalar('int64'), flip=flip, ravel=lambda a: asarr(a).reshape(-1), copy=lambda a: asarr(a).copy(),
        linalg=Namespace(inv=linalg_inv), random=Namespace(), allclose=isclose_missing, isclose=isclose_missing, real=lambda x: x,
        atleast_2d=atleast2, block_diag=block_diag, square=lambda x: x * x, negative=lambda x: -x, add=lambda a, b: a + b,
        multiply=lambda a, b: a * b, subtract=lambda a, b: a - b, issubdtype=lambda a, b: False, bool_=bool)
    return ns


# ---- jax

def jit(f=None, **k):
    if f is None: return lambda g: g
    return f


def vmap(f, in_axes=0, out_axes=0):
    if out_axes != 0: raise Unsupported("vmap out_axes")

    def g(*args):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        args = [asarr(a) for a in args]
        n = next(a.shape[x] for a, x in zip(args, ax) if x is not None)

        def call(i):
            return f(*[a if x is None else a[(slice(None),) * x + (i,)] for a, x in zip(args, ax)])
        probe = call(0)
        if isinstance(probe, tuple):
            return tuple(lift(lambda i, t=t: call(i)[t], asarr(probe[t]), n) for t in range(len(probe)))
        return lift(call, asarr(probe), n)
    return g


def lift(call, probe, n): return SymArray((n,) + probe.shape, lambda ix: asarr(call(ix[0])).fn(ix[1:]), probe.kind)


def jvp(f, primals, tangents):
    """contract: directional derivative; computed with a nilpotent infinitesimal"""
    n = f"eps{next(_eps)}"
    e = TExpr.entry(n, ())
    from . import terms
    terms.REAL.add(n)
    xs = [asarr(x) + asarr(t) * e for x, t in zip(primals, tangents)]
    out = asarr(f(*xs))

    def part(k):
        def fn(ix):
            r = {}
            for (b, fs), c in out.fn(ix).t.items():
                d = [ex for g, ex in fs if g.kind == 'e' and g.name == n]
                if any(any(m.kind == 'e' and m.name == n for (bb, gg), _ in a.t.items() for m, _ in gg) for g, _ in fs for a in g.args):
                    raise Unsupported("derivative through an uninterpreted function")
                d = d[0] if d else 0
                if d < 0: raise Unsupported("derivative of an inverse")
                if d == k: r[(b, tuple(x for x in fs if not (x[0].kind == 'e' and x[0].name == n)))] = c
            return TExpr(r)
        return SymArray(out.shape, fn, 's')
    return part(0), part(1)


_eps = itertools.count()


def make_jax(jnp):
    return Namespace(__name__='jax', jit=jit, vmap=vmap, device_put=lambda x, *a: x, jvp=jvp, numpy=jnp, Array=ndarray,
                     scipy=Namespace(linalg=Namespace(block_diag=block_diag)), nn=Namespace(sigmoid=unary('sigmoid'), swish=unary('swish')),
                     lax=Namespace(), tree_util=Namespace(), random=Namespace())


def symlen(x):
    if isinstance(x, SymArray): return x.shape[0]
    return len(x)


def symrange(*a):
    return range(*[Poly.of(x).norm().__index__() if type(x) is Poly else x for x in a])


NP = make('numpy')
JNP = make('jax.numpy')
JAX = make_jax(JNP)
