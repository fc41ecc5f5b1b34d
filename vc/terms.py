"""Scalars: polynomials with (Gaussian) rational coefficients over uninterpreted matrix entries, with bound summation
indices.  A value is a sum of monomials  coef * SUM_{binders} prod factor^exponent.  Equality is decided by a normal
form (renaming of binders, registered rewrite rules such as inverse / homomorphism / unitarity)."""
import itertools
from fractions import Fraction
from .poly import Poly, Atom, Unsupported, subs, nonneg, pdivmod, exact_div, prove_eq0, addraw, pmul0, powint
from . import ctx
from . import poly as _p


class F:
    """factor; kind: 'e' entry name[idx] (conj flag), 'p' integer atom, 'd' [poly == 0], 'f' uninterpreted function"""
    __slots__ = ('kind', 'name', 'idx', 'cj', 'args', 'key', '_h', '_at')

    def __init__(self, kind, name, idx=(), cj=False, args=()):
        self.kind, self.name, self.idx, self.cj, self.args = kind, name, tuple(idx), cj, tuple(args)
        self.key = (kind, name if kind != 'p' else name.key, tuple(Poly.of(i).skey() for i in self.idx), cj, tuple(a.ckey() for a in self.args))
        self._h = hash(self.key)
        self._at = None

    def __hash__(self): return self._h
    def __eq__(self, o): return self is o or self.key == o.key

    def atoms(self):
        if self._at is None:
            s = set()
            if self.kind == 'p': s |= Poly.atom(self.name).allatoms()
            for i in self.idx: s |= Poly.of(i).allatoms()
            for a in self.args: s |= a.free_atoms()
            self._at = s
        return self._at

    def __repr__(self):
        n = {'e': self.name, 'p': repr(self.name), 'd': 'delta', 'f': self.name}[self.kind]
        s = n + ('~' if self.cj else '')
        if self.idx: s += '[' + ','.join(map(str, self.idx)) + ']'
        if self.args: s += '(' + '; '.join(map(repr, self.args)) + ')'
        return s

    def subs(self, mp):
        """-> TExpr"""
        if not (self.atoms() & set(mp)): return TExpr({((), ((self, 1),)): ONE})
        if self.kind == 'p': return TExpr.of(subs(Poly.atom(self.name), mp))
        if self.kind == 'd': return delta(subs(self.idx[0], mp), 0)
        return TExpr({((), ((F(self.kind, self.name, [subs(i, mp) for i in self.idx], self.cj, [a.subs(mp) for a in self.args]), 1),)): ONE})


ONE = (Fraction(1), Fraction(0))
REAL = set()        # names of real matrices
REALF = set()       # names of real valued functions (of real arguments)
RULES = {}
DIMS = {}   # name of a matrix of unknown entries -> its shape          # (name1, cj1, name2, cj2) -> list of (pos1, pos2, builder)


def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def fmul(f1, f2):
    d = dict(f1)
    for f, e in f2:
        d[f] = d.get(f, 0) + e
        if not d[f]: del d[f]
        elif f.kind == 'd': d[f] = 1
    return tuple(sorted(d.items(), key=lambda x: repr(x[0].key)))


def tatoms(fs):
    s = set()
    for f, e in fs: s |= f.atoms()
    return s


class TExpr:
    __slots__ = ('t', '_ck', '_fa')

    def __init__(self, t): self.t, self._ck, self._fa = t, None, None

    @staticmethod
    def of(x):
        if type(x) is TExpr: return x
        if type(x) is Poly:
            t = TExpr({})
            for m, c in x.t.items():
                k = ((), tuple(sorted(((F('p', a), e) for a, e in m), key=lambda y: repr(y[0].key))))
                t = t + TExpr({k: (Fraction(c), Fraction(0))})
            return t
        import numpy as np
        if isinstance(x, (bool, np.bool_)): x = int(x)
        if isinstance(x, (int, np.integer)): return TExpr({((), ()): (Fraction(int(x)), Fraction(0))} if x else {})
        if isinstance(x, Fraction): return TExpr({((), ()): (x, Fraction(0))} if x else {})
        if isinstance(x, (float, np.floating)): return TExpr({((), ()): (Fraction(float(x)).limit_denominator(10**12), Fraction(0))} if x else {})
        if isinstance(x, (complex, np.complexfloating)):
            return TExpr({((), ()): (Fraction(x.real).limit_denominator(10**12), Fraction(x.imag).limit_denominator(10**12))} if x else {})
        if hasattr(x, 'value_at_scalar'): return x.value_at_scalar()
        raise Unsupported(f"not a scalar: {type(x).__name__}")

    @staticmethod
    def entry(name, idx, cj=False):
        return TExpr({((), ((F('e', name, [Poly.of(i).norm() for i in idx], cj and name not in REAL), 1),)): ONE})

    @staticmethod
    def func(name, args, idx=()):
        return TExpr({((), ((F('f', name, idx, False, [TExpr.of(a) for a in args]), 1),)): ONE})

    def free_atoms(self):
        if self._fa is None:
            s = set()
            for (b, fs), c in self.t.items(): s |= (tatoms(fs) - set(b))
            self._fa = s
        return self._fa

    def iszero(self): return not self.t

    # -- ring operations
    def _add(self, o, s=1):
        t = dict(self.t)
        for k, c in o.t.items():
            v = cadd(t.get(k, (0, 0)), (s * c[0], s * c[1]))
            if v == (0, 0): t.pop(k, None)
            else: t[k] = v
        return TExpr(t)

    def __add__(self, o):
        o = co(o)
        return NotImplemented if o is None else self._add(o)
    __radd__ = __add__

    def __sub__(self, o):
        o = co(o)
        return NotImplemented if o is None else self._add(o, -1)

    def __rsub__(self, o):
        o = co(o)
        return NotImplemented if o is None else o._add(self, -1)

    def __neg__(self): return TExpr({k: (-c[0], -c[1]) for k, c in self.t.items()})
    def __pos__(self): return self

    def __mul__(self, o):
        o = co(o)
        if o is None: return NotImplemented
        out = {}
        for (b1, f1), c1 in self.t.items():
            for (b2, f2), c2 in o.t.items():
                c = cmul(c1, c2)
                if b1 and b2 and set(b1) & set(b2):
                    b2n, mp = [], {}
                    for b in b2:
                        nb = _p.var(b.hi, 'k', True)
                        a, = nb.atoms()
                        mp[b] = nb
                        b2n.append(a)
                    r = prod(f.subs(mp) if e == 1 else f.subs(mp) ** e for f, e in f2)
                    for (bb, ff), cc in r.t.items():
                        acc(out, (sb(b1 + tuple(b2n) + bb), fmul(f1, ff)), cmul(c, cc))
                    continue
                acc(out, (sb(b1 + b2), fmul(f1, f2)), c)
        return TExpr(out)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = co(o)
        return NotImplemented if o is None else self * inverse(o)

    def __rtruediv__(self, o):
        o = co(o)
        return NotImplemented if o is None else o * inverse(self)

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n): n = int(n)
        if n == 0.5 or isinstance(n, float): return TExpr.func(f"pow{n}", [self])
        n = int(n)
        if n < 0: return inverse(self) ** (-n)
        r = TExpr.of(1)
        for _ in range(n): r = r * self
        return r

    def conj(self):
        out = {}
        for (b, fs), c in self.t.items():
            r = fmul((), [(F(f.kind, f.name, f.idx, (not f.cj) and f.name not in REAL) if f.kind == 'e' else cjf(f), e) for f, e in fs])
            acc(out, (b, r), (c[0], -c[1]))
        return TExpr(out)

    def subs(self, mp):
        out = TExpr({})
        keys = set(mp)
        for (b, fs), c in self.t.items():
            if not (tatoms(fs) & keys):
                out = out._add(TExpr({(b, fs): c}))
                continue
            r = TExpr({(b, ()): c})
            for f, e in fs:
                g = f.subs(mp)
                r = r * (g if e == 1 else g ** e)
            out = out._add(r)
        return out

    # -- equality
    def canon(self):
        return normal(self)

    def ckey(self):
        if self._ck is None:
            n = normal(self)
            self._ck = tuple(sorted(((repr(mkey(k)), c) for k, c in n.t.items())))
        return self._ck

    def __eq__(self, o):
        o = co(o)
        if o is None: return False
        if equal(self, o): return True
        raise Unsupported("comparison of symbolic scalars")

    def __ne__(self, o): return not (self == o)
    def __hash__(self): return hash(self.ckey())

    def _cmp(self, o, op):
        return opaque_bool(op, self, TExpr.of(o))
    def __lt__(self, o): return opaque_bool('lt', self, TExpr.of(o))
    def __gt__(self, o): return opaque_bool('lt', TExpr.of(o), self)
    def __le__(self, o): return not opaque_bool('lt', TExpr.of(o), self)
    def __ge__(self, o): return not opaque_bool('lt', self, TExpr.of(o))

    def const(self):
        if not self.t: return 0
        if len(self.t) == 1:
            (k, c), = self.t.items()
            if k == ((), ()): return c[0] if not c[1] else None
        return None

    def __bool__(self):
        c = self.const()
        if c is None: raise Unsupported("truth value of a symbolic scalar")
        return bool(c)

    def __float__(self):
        c = self.const()
        if c is None: raise Unsupported("float() of a symbolic scalar")
        return float(c)
    def __int__(self): return int(float(self))
    def __index__(self): raise TypeError("scalar used as an index")

    # numpy scalar look-alike
    shape, ndim, size = (), 0, 1
    @property
    def T(self): return self
    @property
    def real(self): return self
    def reshape(self, *a):
        from .symarr import asarr
        return asarr(self).reshape(*a)
    def astype(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def __getitem__(self, k):
        from .symarr import asarr
        return asarr(self)[k]

    def __repr__(self):
        if not self.t: return '0'
        out = []
        for (b, fs), c in self.t.items():
            s = '*'.join(repr(f) + (f"^{e}" if e != 1 else '') for f, e in fs)
            if b: s = f"SUM_{{{','.join(f'{x.name}<{x.hi}' for x in b)}}}({s})"
            cc = str(c[0]) if not c[1] else f"({c[0]}+{c[1]}i)"
            out.append(s if c == ONE and s else (f"{cc}*{s}" if s else cc))
        return ' + '.join(out)


def cjf(f):
    if f.kind == 'f':
        if f.name in REALF or all(a.conj().t == a.t for a in f.args): return f
        return F('f', f.name, f.idx, not f.cj, f.args)
    return f


def sb(b): return tuple(sorted(b, key=lambda a: repr(a.key)))


def acc(out, k, c):
    v = cadd(out.get(k, (0, 0)), c)
    if v == (0, 0): out.pop(k, None)
    else: out[k] = v


def co(x):
    if type(x) is TExpr: return x
    try: return TExpr.of(x)
    except Unsupported: return None


def prod(it):
    r = TExpr.of(1)
    for x in it: r = r * x
    return r


def inverse(x):
    x = TExpr.of(x)
    if not x.t: raise ZeroDivisionError("division by zero")
    if len(x.t) == 1:
        ((b, fs), c), = x.t.items()
        if not b:
            n = c[0] * c[0] + c[1] * c[1]
            return TExpr({((), tuple((f, -e) for f, e in fs)): (c[0] / n, -c[1] / n)})
    return TExpr.func('inv', [x])


_bools = {}


def opaque_bool(op, a, b):
    """comparison of symbolic reals: constant, or an uninterpreted truth value explored both ways (memoised per path)"""
    d = normal(b._add(a, -1))
    c = d.const()
    if c is not None and op == 'lt': return c > 0
    k = (id(ctx.cur), op, d.ckey())
    if k not in _bools: _bools[k] = ctx.choose(2) == 0
    return _bools[k]


# ---- Kronecker deltas

def delta(a, b):
    """[a == b] for integer expressions"""
    p = Poly.of(a)._add(Poly.of(b), -1)
    c = p.const()
    if c is not None: return TExpr.of(1 if c == 0 else 0)
    q, n = p._add(Poly.of(1), -1), Poly({m: -k for m, k in p.t.items()})._add(Poly.of(1), -1)
    if nonneg(q) or nonneg(n): return TExpr.of(0)
    # digits: split by the radices that occur
    from .symarr import digit_split
    r = digit_split(Poly.of(a).norm(), Poly.of(b).norm())
    if r is not None:
        out = TExpr.of(1)
        for x, y in r: out = out * delta(x, y)
        return out
    # opaque injective maps
    from .poly import PERM_INV
    pa, pb = strip(p)
    if pa is not None and pb is not None and pa.kind == 'app' and pa.name in PERM_INV:
        if pb.kind == 'app' and pb.name == pa.name: return delta(pa.args[0], pb.args[0])
    fl = flip(p)
    if fl is not None and fl[0].endswith('^-1'): return delta(fl[2], fl[3])    # orientation: in terms of the permutation, not of its inverse
    if ctx.prove('ne', p): return TExpr.of(0)
    if ctx.prove('eq', p): return TExpr.of(1)
    lead = max(p.t.items(), key=lambda x: repr(x[0]))
    if lead[1] < 0: p = Poly({m: -k for m, k in p.t.items()})
    return TExpr({((), ((F('d', 'd', [p]), 1),)): ONE})


def flip(p):
    """pi(x) - y  ->  (name of pi, pi^-1(y) - x, pi^-1(y), x), when y is known to lie in the range"""
    from .poly import PERM_INV, perm_app
    for m, k in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or abs(k) != 1: continue
        x = m[0][0]
        if x.kind != 'app' or x.name not in PERM_INV: continue
        rest = Poly({mm: (-kk if k == 1 else kk) for mm, kk in p.t.items() if mm != m})
        if not (nonneg(rest) and nonneg(Poly.of(x.hi)._add(rest, -1)._add(Poly.of(1), -1))): continue
        y = perm_app(PERM_INV[x.name], rest, x.hi)
        return x.name, Poly.of(y)._add(Poly.of(x.args[0]), -1), y, x.args[0].norm()
    return None


def strip(p):
    """p = x - y with single atoms"""
    if len(p.t) != 2: return None, None
    pos = [m for m, c in p.t.items() if c == 1 and len(m) == 1 and m[0][1] == 1]
    neg = [m for m, c in p.t.items() if c == -1 and len(m) == 1 and m[0][1] == 1]
    if len(pos) == 1 and len(neg) == 1: return pos[0][0][0], neg[0][0][0]
    return None, None


# ---- summation

def bind(k, body):
    """SUM_{k} body; k a bound variable atom"""
    out = TExpr({})
    for (b, fs), c in body.t.items():
        out = out._add(bind1(k, b, fs, c))
    return out


def bind1(k, b, fs, c):
    if k not in tatoms(fs):
        return TExpr({(b, fs): c}) * TExpr.of(k.hi)
    for f, e in fs:
        if f.kind == 'd' and k in f.atoms():
            p = Poly.of(f.idx[0])
            if any(k in Poly.atom(a).allatoms() and a != k for a in p.atoms()):
                fl = flip(p)
                if fl is None or any(k in Poly.atom(a).allatoms() and a != k for a in fl[1].atoms()): continue
                p = fl[1]
            A, B = _p.lincoef(p, k)
            ac = A.const()
            if ac in (1, -1):
                e_ = Poly({m: (-v if ac == 1 else v) for m, v in B.t.items()})
                if nonneg(e_) or ctx.prove('ge', e_): lo = True
                else: lo = False
                up = Poly.of(k.hi)._add(e_, -1)._add(Poly.of(1), -1)
                hi = nonneg(up) or ctx.prove('ge', up)
                if lo and hi:
                    rest = tuple(x for x in fs if x[0] is not f)
                    r = TExpr({(b, ()): c})
                    for g, ee in rest:
                        gs = g.subs({k: e_.norm()})
                        r = r * (gs if ee == 1 else gs ** ee)
                    return r
                if nonneg(Poly({m: -v for m, v in e_._add(Poly.of(1)).t.items()})) or nonneg(e_._add(Poly.of(k.hi), -1)):
                    return TExpr({})
                from .symarr import split_boundary
                split_boundary(e_, Poly.of(k.hi) if lo else Poly.of(0))
    for a in sorted((a for a in tatoms(fs) if a.kind == 'app' and a.name.endswith('^-1') and a.name in _p.PERM_INV), key=lambda a: repr(a.key)):
        if Poly.of(a.args[0]).skey() == Poly.atom(k).skey() and prove_eq0(Poly.of(a.hi)._add(Poly.of(k.hi), -1)):   # change of variable k = pi(j)
            j = _p.var(k.hi, 'k', True)
            ja, = j.atoms()
            r = TExpr({(b, fs): c}).subs({k: Poly.of(_p.perm_app(_p.PERM_INV[a.name], j, a.hi)).norm()})
            return bind(ja, r)
    return TExpr({(sb(b + (k,)), fs): c})


# ---- normal form

def mkey(k):
    b, fs = k
    return (tuple((a.key, Poly.of(a.hi).skey()) for a in b), tuple((f.key, e) for f, e in fs))


_canon_atoms = {}


def cvar(i, hi):
    h = Poly.of(hi).skey()
    if (i, h) not in _canon_atoms: _canon_atoms[i, h] = Atom('var', f"#{i}", 0, hi, (), True)
    return _canon_atoms[i, h]


def normal(x):
    for _ in range(30):
        y = rewrite(x)
        if y is None: break
        x = y
    out = TExpr({})
    for k, c in x.t.items():
        out = out._add(rename(k, c))
    return out


def rename(k, c):
    b, fs = k
    if not b: return TExpr({k: c})
    if len(b) > 6: raise Unsupported("too many summation indices")
    sig = {}
    for v in b:   # invariant signature restricts the permutations tried
        sig[v] = (repr(Poly.of(v.hi).skey()), tuple(sorted((f.kind, str(f.name) if f.kind != 'p' else 'p', f.cj, e, tuple(i for i, q in enumerate(f.idx) if v in Poly.of(q).allatoms()))
                                                          for f, e in fs if v in f.atoms())))
    groups = {}
    for v in b: groups.setdefault(repr(sig[v]), []).append(v)
    best = None
    for perm in itertools.product(*[list(itertools.permutations(groups[g])) for g in sorted(groups)]):
        order = [v for g in perm for v in g]
        mp = {v: Poly.atom(cvar(i, v.hi)) for i, v in enumerate(order)}
        nb = tuple(cvar(i, v.hi) for i, v in enumerate(order))
        nf = tuple(sorted(((ren(f, mp), e) for f, e in fs), key=lambda y: repr(y[0].key)))
        kk = repr(mkey((nb, nf)))
        if best is None or kk < best[0]: best = (kk, (nb, nf))
    return TExpr({best[1]: c})


def ren(f, mp):
    if not (f.atoms() & set(mp)): return f
    if f.kind == 'p': return F('p', next(iter(Poly.of(subs(Poly.atom(f.name), mp)).atoms())))
    return F(f.kind, f.name, [subs(i, mp) for i in f.idx], f.cj, [a.subs(mp) for a in f.args])


def rewrite(x):
    """one rewriting pass with the registered rules; None if nothing applies"""
    for k, c in x.t.items():
        b, fs = k
        fl = [(f, e) for f, e in fs]
        for f, e in fl:   # contraction over an index of range 1: no summation sign
            if f.kind != 'e': continue
            for g, e2 in fl:
                if g is f or g.kind != 'e': continue
                for p1, p2, build in RULES.get((f.name, f.cj, g.name, g.cj), ()):
                    if not (one(f, p1) and one(g, p2)): continue
                    full = build(f, g)
                    if full is None: continue
                    rest = tuple((h, ee - 1 if h in (f, g) else ee) for h, ee in fl if h not in (f, g) or ee > 1)
                    t = dict(x.t)
                    del t[k]
                    ctx.stats['rewrites'] = ctx.stats.get('rewrites', 0) + 1
                    return TExpr(t)._add(elim(TExpr({(b, rest): c}) * full))
        for f, e in fl:
            if e != 1 or f.kind != 'e': continue
            for g, e2 in fl:
                if e2 != 1 or g is f or g.kind != 'e': continue
                for p1, p2, build in RULES.get((f.name, f.cj, g.name, g.cj), ()):
                    i, j = Poly.of(f.idx[p1]), Poly.of(g.idx[p2])
                    if i.skey() != j.skey(): continue
                    if len(i.t) != 1: continue
                    (m, cc), = i.t.items()
                    if cc != 1 or len(m) != 1 or m[0][1] != 1: continue
                    v = m[0][0]
                    if v not in b: continue
                    if any(v in h.atoms() for h, _ in fl if h is not f and h is not g): continue
                    if any(v in Poly.of(q).allatoms() for t, q in enumerate(f.idx) if t != p1) or any(v in Poly.of(q).allatoms() for t, q in enumerate(g.idx) if t != p2): continue
                    full = build(f, g)
                    if full is None: continue
                    rest = tuple(h for h in fl if h[0] is not f and h[0] is not g)
                    t = dict(x.t)
                    del t[k]
                    new = TExpr({(tuple(a for a in b if a != v), rest): c}) * full
                    ctx.stats['rewrites'] = ctx.stats.get('rewrites', 0) + 1
                    # deltas introduced under binders
                    return TExpr(t)._add(elim(new))
    return None


def one(f, p):
    """factor f has index 0 at position p, of range 1"""
    d = DIMS.get(f.name)
    return d is not None and Poly.of(f.idx[p]).const() == 0 and ctx.prove('eq', Poly.of(d[p])._add(Poly.of(1), -1))


def elim(x):
    """resolve deltas on bound variables"""
    out = TExpr({})
    for (b, fs), c in x.t.items():
        done = False
        for f, e in fs:
            if f.kind != 'd': continue
            for v in b:
                if v in f.atoms():
                    r = bind1(v, tuple(a for a in b if a != v), fs, c)
                    if (b, fs) not in r.t:
                        out = out._add(elim(r))
                        done = True
                        break
            if done: break
        if not done: out = out._add(TExpr({(b, fs): c}))
    return out


def equal(a, b):
    d = a._add(b, -1)
    if not d.t: return True
    return normal(d).iszero()
