"""Symbolic integers: polynomials with integer coefficients over atoms.

Atoms are dimension symbols (>= lo), index variables (0 <= v < hi), applications of opaque integer
functions (with a range) and div/mod terms.  All reasoning is over mathematical integers.  Decisions are taken by
 (1) a structural procedure that eliminates bounded atoms at the end of their range (sound, incomplete),
 (2) z3 over nonlinear integer arithmetic with the path facts,
 (3) forking of the execution path (only for conditions on free symbols, see ctx.Context).
"""
import itertools
import math
from . import ctx


class Unsupported(BaseException):
    """The construct is outside of the engine's reach: the obligation is undecided."""


_cnt = itertools.count()


class Atom:
    __slots__ = ('key', '_h', 'kind', 'name', 'lo', 'hi', 'args', 'bound')

    def __init__(self, kind, name, lo=0, hi=None, args=(), bound=False):
        self.kind, self.name, self.lo, self.hi, self.args, self.bound = kind, name, lo, hi, tuple(args), bound
        self.key = (kind, name, tuple(a.skey() if isinstance(a, Poly) else a for a in self.args))
        self._h = hash(self.key)

    def __hash__(self): return self._h
    def __eq__(self, o): return self is o or (isinstance(o, Atom) and self.key == o.key)
    def __lt__(self, o): return repr(self.key) < repr(o.key)

    def __repr__(self):
        if self.args: return f"{self.name}({','.join(map(str, self.args))})"
        return self.name


class Poly:
    """Polynomial; immutable. Constant results of operators are returned as plain ints."""
    __slots__ = ('t', '_k')
    # ``isinstance(poly, int)`` holds in Python code while C code (range, list repetition, slicing ..) still sees
    # a non-int and goes through __index__, which refuses.
    __class__ = property(lambda self: int)

    def __init__(self, t):
        self.t = t
        self._k = None

    # ---- construction
    @staticmethod
    def of(x):
        if type(x) is Poly: return x
        import numpy as np
        if isinstance(x, (int, np.integer)): return Poly({(): int(x)} if x else {})
        raise Unsupported(f"not an integer: {type(x)}")

    @staticmethod
    def atom(a): return Poly({((a, 1),): 1})

    def norm(self):
        """int if constant"""
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return self

    def skey(self):
        if self._k is None:
            self._k = tuple(sorted((tuple((a.key, e) for a, e in m), c) for m, c in self.t.items()) if len(self.t) < 2
                            else sorted(((tuple((a.key, e) for a, e in m), c) for m, c in self.t.items()), key=repr))
        return self._k

    def atoms(self): return {a for m in self.t for a, _ in m}

    def allatoms(self):
        out = set()
        for a in self.atoms():
            out.add(a)
            for x in a.args:
                if type(x) is Poly: out |= x.allatoms()
        return out

    def const(self):
        n = self.norm()
        return n if type(n) is int else None

    # ---- arithmetic
    def _add(self, o, s=1):
        t = dict(self.t)
        for m, c in o.t.items():
            c = t.get(m, 0) + s * c
            if c: t[m] = c
            else: t.pop(m, None)
        return simp(Poly(t))

    def __add__(self, o):
        o = coerce(o)
        return NotImplemented if o is None else self._add(o).norm()
    __radd__ = __add__

    def __sub__(self, o):
        o = coerce(o)
        return NotImplemented if o is None else self._add(o, -1).norm()

    def __rsub__(self, o):
        o = coerce(o)
        return NotImplemented if o is None else o._add(self, -1).norm()

    def __neg__(self): return Poly({m: -c for m, c in self.t.items()}).norm()
    def __pos__(self): return self

    def __mul__(self, o):
        o = coerce(o)
        return NotImplemented if o is None else pmul(self, o).norm()
    __rmul__ = __mul__

    def __pow__(self, n):
        if type(n) is Poly or not isinstance(n, int):
            return powint(self, n)
        r = Poly.of(1)
        for _ in range(n): r = pmul(r, self)
        return r.norm()

    def __rpow__(self, b): return powint(b, self)

    def __floordiv__(self, o):
        o = coerce(o)
        return NotImplemented if o is None else pdivmod(self, o)[0]

    def __mod__(self, o):
        o = coerce(o)
        return NotImplemented if o is None else pdivmod(self, o)[1]

    def __rfloordiv__(self, o): return pdivmod(Poly.of(o), self)[0]
    def __rmod__(self, o): return pdivmod(Poly.of(o), self)[1]

    def __truediv__(self, o):
        if coerce(o) is None: return NotImplemented
        from .terms import TExpr
        return TExpr.of(self) / TExpr.of(o)

    def __rtruediv__(self, o):
        if coerce(o) is None: return NotImplemented
        from .terms import TExpr
        return TExpr.of(o) / TExpr.of(self)

    def __abs__(self):
        return self if self >= 0 else -self

    # ---- comparisons (decide, or fork the path)
    def __eq__(self, o):
        o = coerce(o)
        if o is None: return False
        return ctx.decide('eq', self._add(o, -1))

    def __ne__(self, o):
        o = coerce(o)
        if o is None: return True
        return not ctx.decide('eq', self._add(o, -1))

    def __le__(self, o):
        o = coerce(math.floor(o) if type(o) is float and math.isfinite(o) else o)
        return NotImplemented if o is None else ctx.decide('ge', o._add(self, -1))

    def __lt__(self, o):
        o = coerce(math.ceil(o) if type(o) is float and math.isfinite(o) else o)
        return NotImplemented if o is None else ctx.decide('ge', o._add(self, -1)._add(Poly.of(1), -1))

    def __ge__(self, o):
        o = coerce(math.ceil(o) if type(o) is float and math.isfinite(o) else o)
        return NotImplemented if o is None else ctx.decide('ge', self._add(o, -1))

    def __gt__(self, o):
        o = coerce(math.floor(o) if type(o) is float and math.isfinite(o) else o)
        return NotImplemented if o is None else ctx.decide('ge', self._add(o, -1)._add(Poly.of(1), -1))

    def __bool__(self): return not (self == 0)
    def __hash__(self): return hash(self.skey())

    def __index__(self):
        n = self.const()
        if n is None: raise Unsupported(f"concrete integer needed for {self}")
        return n
    __int__ = lambda self: self._int()
    def _int(self):
        n = self.const()
        if n is None: raise Unsupported(f"concrete integer needed for {self}")
        return n
    def __float__(self): return float(self._int())
    def __round__(self, *a): return self

    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: repr(x[0])):
            s = '*'.join((repr(a) + (f'^{e}' if e > 1 else '')) for a, e in m)
            out.append(s if c == 1 and s else (f'{c}*{s}' if s else str(c)))
        return '(' + '+'.join(out) + ')' if len(out) > 1 else out[0]
    __str__ = __repr__
    def __format__(self, spec): return repr(self)

    # numpy-scalar look-alike
    @property
    def shape(self): return ()
    ndim = 0

    def astype(self, *a): return self
    def conj(self): return self


def coerce(x):
    if type(x) is Poly: return x
    if type(x) is bool or type(x) is int: return Poly({(): int(x)} if x else {})
    import numpy as np
    if isinstance(x, np.integer): return Poly({(): int(x)} if x else {})
    return None


def pmul(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            c = t.get(m, 0) + c1 * c2
            if c: t[m] = c
            else: t.pop(m, None)
    return simp(Poly(t))


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    pw = [a for a in d if a.kind == 'pow']
    if pw:  # d^e * d^f = d^(e+f), with d itself counted as d^1
        for a in pw:
            if a not in d: continue
            base, ex = a.args
            e = ex * d.pop(a)
            ba = next(iter(Poly.of(base).atoms()))
            for b in list(d):
                if b.kind == 'pow' and b.args[0].skey() == base.skey(): e = e + b.args[1] * d.pop(b)
            if ba in d: e = e + d.pop(ba)
            r = powint(base, e)
            if r == 1 if type(r) is int else False: continue
            (mm, cc), = Poly.of(r).t.items()
            for b, k in mm: d[b] = d.get(b, 0) + k
    return tuple(sorted(d.items()))


def powint(b, e):
    """b**e for a symbolic exponent e >= 0: an atom, with d^0=1, d^1=d and d^(e+k)=d^e*d^k handled by mmul."""
    b, e = Poly.of(b), Poly.of(e)
    if e.const() is not None:
        if e.const() < 0: raise Unsupported("negative power")
        return b.__pow__(e.const())
    if b.const() == 1: return 1
    if len(b.t) != 1 or list(b.t.values()) != [1] or len(next(iter(b.t))) != 1 or next(iter(b.t))[0][1] != 1:
        raise Unsupported(f"power {b}**{e}")
    return Poly.atom(Atom('pow', 'pow', 1, None, (b, e)))


def simp(p):
    """recombine m*(q//m) + q%m -> q"""
    mods = [(m, a) for m in p.t for a, e in m if a.kind == 'mod' and e == 1]
    for m, a in mods:
        if m not in p.t: continue
        c = p.t[m]
        rest = tuple(x for x in m if x[0] != a)
        q, mod = a.args
        d = Poly.atom(Atom('div', 'div', a.args and 0, None, (q, mod)))
        base = Poly({rest: c})
        full = pmul0(pmul0(base, mod), d)
        if all(p.t.get(k) == v for k, v in full.t.items()):
            t = dict(p.t)
            for k in full.t: del t[k]
            del t[m]
            return simp(addraw(Poly(t), pmul0(base, q)))
    return p


def addraw(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        c = t.get(m, 0) + c
        if c: t[m] = c
        else: t.pop(m, None)
    return Poly(t)


def pmul0(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            c = t.get(m, 0) + c1 * c2
            if c: t[m] = c
            else: t.pop(m, None)
    return Poly(t)


# ---- symbols

def dim(name, lo=1):
    return Poly.atom(Atom('dim', name, lo))


def var(hi, name='i', bound=False):
    """index variable 0 <= v < hi; ``bound`` variables are summation indices (no path forks on them)"""
    return Poly.atom(Atom('var', f"{name}{next(_cnt)}", 0, hi, (), bound))


def app(name, args, hi, lo=0):
    if type(lo) is int and hi is not None and Poly.of(hi).const() == lo + 1: return lo
    return Poly.atom(Atom('app', name, lo, hi, [Poly.of(a) for a in args]))


PERM_INV = {}


def perm_app(name, e, n):
    """apply the opaque permutation ``name`` of [0,n)"""
    e = Poly.of(e)
    inv = PERM_INV[name]
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].name == inv:
            return m[0][0].args[0].norm()
    return app(name, [e], n)


def is_bound(p):
    return any(a.bound for a in Poly.of(p).allatoms())


def subs(p, mp):
    """substitute atoms; mp: Atom -> Poly/int"""
    if type(p) is not Poly: return p
    if not (p.allatoms() & set(mp)): return p
    out = Poly({})
    for m, c in p.t.items():
        r = Poly.of(c)
        for a, e in m:
            v = mp[a] if a in mp else rebuild(a, mp)
            for _ in range(e): r = pmul(r, Poly.of(v))
        out = out._add(r)
    return out.norm()


def rebuild(a, mp):
    if not a.args: return Poly.atom(a)
    args = [subs(x, mp) for x in a.args]
    if a.kind == 'div': return pdivmod(Poly.of(args[0]), Poly.of(args[1]))[0]
    if a.kind == 'mod': return pdivmod(Poly.of(args[0]), Poly.of(args[1]))[1]
    if a.kind == 'pow': return powint(*args)
    if a.name in PERM_INV: return perm_app(a.name, args[0], a.hi)
    return Poly.atom(Atom(a.kind, a.name, a.lo, subs(a.hi, mp) if a.hi is not None else None, [Poly.of(x) for x in args], a.bound))


# ---- structural decision procedure

def nonneg(p, depth=0):
    """True only if p >= 0 for all values of the atoms within their ranges"""
    p = Poly.of(p)
    c = p.const()
    if c is not None: return c >= 0
    if all(k > 0 for k in p.t.values()) and all((a.lo is not None and sign(a.lo)) for m in p.t for a, _ in m): return True
    if depth > 12: return False
    # eliminate a bounded atom occurring linearly
    cands = [a for a in p.atoms() if a.hi is not None or a.kind in ('dim', 'pow', 'div')]
    cands.sort(key=lambda a: (0 if a.kind == 'var' else 1 if a.kind in ('app', 'mod') else 2 if a.kind != 'dim' else 3))
    for a in cands:
        if a.kind in ('dim', 'pow', 'div'): break
        if any(e > 1 for m in p.t for b, e in m if b == a): continue
        A, B = lincoef(p, a)
        if nonneg(A, depth + 1):
            return nonneg(addraw(pmul0(A, Poly.of(a.lo)), B), depth + 1)
        if nonneg(Poly({m: -c for m, c in A.t.items()}), depth + 1):
            return nonneg(addraw(pmul0(A, Poly.of(a.hi)._add(Poly.of(1), -1)), B), depth + 1)
    dims = [a for a in p.atoms()]
    if all(a.lo is not None and type(a.lo) is int for a in dims):
        q = p
        shifted = {a: Poly.of(a.lo)._add(Poly.atom(Atom('sh', f"{a.key!r}'", 0))) for a in dims if a.lo}
        if shifted:
            t = Poly({})
            for m, c in q.t.items():
                r = Poly.of(c)
                for a, e in m:
                    for _ in range(e): r = pmul0(r, shifted.get(a, Poly.atom(a)))
                t = addraw(t, r)
            q = t
        return all(k >= 0 for k in q.t.values())
    return False


def sign(lo):
    return lo >= 0 if type(lo) is int else nonneg(lo)


def lincoef(p, a):
    A, B = {}, {}
    for m, c in p.t.items():
        if any(b == a for b, _ in m): A[tuple(x for x in m if x[0] != a)] = c
        else: B[m] = c
    return Poly(A), Poly(B)


def prove_ge0(p):
    """sound proof of p>=0 from ranges and path facts (no forking)"""
    p = Poly.of(p)
    if nonneg(p): return True
    return ctx.prove('ge', p)


def prove_eq0(p):
    p = Poly.of(p)
    if not p.t: return True
    if p.const() is not None: return False
    return ctx.prove('eq', p)


# ---- division

def mono_div(m, d):
    """monomial m / d or None"""
    md = dict(m)
    for a, e in d:
        if md.get(a, 0) < e: return None
        md[a] -= e
        if not md[a]: del md[a]
    return tuple(sorted(md.items()))


def longdiv(p, m, lead):
    lm, lc = lead
    q, r, rest = Poly({}), Poly({}), p
    for _ in range(200):
        hit = None
        for mm, c in rest.t.items():
            d = mono_div(mm, lm)
            if d is not None and c % lc == 0:
                hit = (d, c // lc)
                break
        if hit is None: return q, rest
        k = Poly({hit[0]: hit[1]})
        q = addraw(q, k)
        rest = addraw(rest, pmul0(Poly({x: -y for x, y in k.t.items()}), m))
    return None


def exact_div(p, m):
    """p/m as polynomial or None"""
    p, m = Poly.of(p), Poly.of(m)
    for lead in m.t.items():
        r = longdiv(p, m, lead)
        if r and not r[1].t: return r[0].norm()
    return None


def pdivmod(p, m, opaque=True):
    """floor division with remainder, structural; falls back on opaque div/mod atoms"""
    p, m = Poly.of(p), Poly.of(m)
    if m.const() == 1: return p.norm(), 0
    if m.const() == 0: raise ZeroDivisionError
    if p.const() is not None and m.const() is not None: return divmod(p.const(), m.const())
    best = None
    for lead in m.t.items():
        qr = longdiv(p, m, lead)
        if not qr: continue
        q, r = qr
        for k in (0, 1, -1):  # remainder off by one multiple of m (negative indices)
            rr = r._add(pmul(Poly.of(k), m)) if k else r
            if nonneg(rr) and nonneg(m._add(rr, -1)._add(Poly.of(1), -1)):
                return q._add(Poly.of(k), -1).norm(), rr.norm()
        # split a bounded atom of the remainder at a multiple of its coefficient
        for mm, c in list(r.t.items()):
            for a, e in mm:
                if a.hi is None or e != 1 or a.kind not in ('var', 'app', 'mod'): continue
                co = Poly({tuple(x for x in mm if x[0] != a): c})
                b = exact_div(m, co)
                if b is None or (type(b) is int and b <= 1): continue
                if exact_div(a.hi, b) is None: continue
                hiq = exact_div(a.hi, b)
                if hiq == 1 and type(hiq) is int: continue
                dv = Poly.atom(Atom('div', 'div', 0, hiq, (Poly.atom(a), Poly.of(b)), a.bound))
                md = Poly.atom(Atom('mod', 'mod', 0, Poly.of(b), (Poly.atom(a), Poly.of(b)), a.bound))
                r2 = addraw(addraw(r, Poly({mm: -c})), pmul0(co, md))
                q2 = q._add(dv)
                res = pdivmod(r2, m, opaque=False)
                if res is not None: return q2._add(Poly.of(res[0])).norm(), Poly.of(res[1]).norm()
        best = (q, r)
    if not opaque: return None
    q, r = best if best else (Poly({}), p)
    if ctx.prove('ge', r) and ctx.prove('ge', m._add(r, -1)._add(Poly.of(1), -1)): return q.norm(), r.norm()
    if not nonneg(m._add(Poly.of(1), -1)) and not ctx.prove('ge', m._add(Poly.of(1), -1)):
        raise Unsupported(f"division of {p} by {m}: divisor may be zero or negative")
    lo = 0 if nonneg(r) else None
    b = is_bound(r)
    dv = Poly.atom(Atom('div', 'div', lo, None, (r, m), b))
    md = Poly.atom(Atom('mod', 'mod', 0, m, (r, m), b))
    return q._add(dv).norm(), md.norm()
