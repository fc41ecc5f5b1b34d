"""The two readings of a contract (an obligation is a Python function of a universe U):
  Sym   all sizes, entries, permutations and choices at once, on the real code with symbolic arrays
  Conc  one random concrete instance, on the unmodified real code with numpy/jax arrays (engine cross-check, replay)"""
import time, signal, traceback
import numpy as np
from . import ctx, poly as P, terms
from .poly import Poly, Unsupported
from .symarr import Refine


class Fail(Exception):
    pass


class Soft(Fail):
    """an intermediate form is not the expected one; only counts together with a failing input"""


class Skip(Exception):
    """the instance does not satisfy the precondition"""


class Sym:
    symbolic = True

    def __init__(self, ctxt, sentinel=False):
        self.c = ctxt
        self.sentinel = sentinel
        self.goals = self.pieces = 0
        self.choices = []
        self.broken = 0
        self.store = {}
        self.made = []

    def dim(self, name, lo=1):
        if name in self.c.dimsub: return self.c.dimsub[name]
        return P.dim(name, lo)

    def choose(self, options, label=''):
        options = list(options)
        k = ctx.choose(len(options), 'U') if len(options) > 1 else 0
        self.choices.append(k)
        return options[k]

    def assume(self, kind, p):
        p = Poly.of(p)
        if p.const() is not None:
            c = p.const()
            if not (c >= 0 if kind == 'ge' else c == 0 if kind == 'eq' else c != 0): raise ctx.Abort()
            return
        ctx.assume(kind, p)

    def mat(self, name, shape, real=False):
        from .symarr import matrix
        terms.DIMS[name] = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        return matrix(name, shape, real)

    def vec(self, name, n, real=False): return self.mat(name, (n,), real)

    def scalar(self, name, real=False):
        if real: terms.REAL.add(name)
        return terms.TExpr.entry(name, ())

    def perm(self, name, n):
        from .symarr import opaque_perm
        return opaque_perm(name, n)

    def perm_inv(self, p):
        from .symarr import inverse_perm, asarr
        return inverse_perm(asarr(p))

    def index_fn(self, name, n, hi):
        """an arbitrary map [0,n) -> [0,hi)"""
        from .symarr import SymArray
        return SymArray((n,), lambda ix: P.app(name, [ix[0]], hi), 'i')

    def table(self, shape, f, kind='s'):
        from .symarr import SymArray
        return SymArray(shape, f, kind)

    def lt(self, i, n):
        from .symarr import lt
        return lt(i, n)

    def divmod(self, i, n):
        from .symarr import divmod_idx
        return divmod_idx(i, n)

    def delta(self, i, j): return terms.delta(i, j)

    def sum(self, n, f):
        from .symarr import sum_over
        return sum_over(n, f)

    def at(self, a, *ix):
        from .symarr import asarr
        return asarr(a).fn(tuple(ix))

    def rule(self, *a, **k): rule(*a, **k)

    def true(self, cond, msg=''):
        self.goals += 1
        if self.sentinel:
            self.broken += 1
            return
        if not bool(cond): raise Fail(f"{msg}: false")

    def eq(self, a, b, msg=''):
        from .symarr import asarr, forall, sdeq, isint
        self.goals += 1
        if isint(a) and isint(b):
            ok = P.prove_eq0(Poly.of(a)._add(Poly.of(b)._add(Poly.of(1 if self.sentinel else 0)), -1))
            if self.sentinel:
                self.broken += not ok
                return
            if not ok: raise Fail(f"{msg}: {a} is not {b}")
            return
        a, b = asarr(a), asarr(b)
        if a.ndim != b.ndim or not all(sdeq(x, y) for x, y in zip(a.shape, b.shape)):
            if self.sentinel: return
            raise Fail(f"{msg}: shape {a.shape}, expected {b.shape}")
        self_ = self

        def pred(ix):
            x, y = a.fn(ix), b.fn(ix)
            if self_.sentinel: y = y + 1
            if isint(x) and isint(y):
                return P.prove_eq0(Poly.of(x)._add(Poly.of(y), -1)), f"{x} is not {y}"
            d = terms.TExpr.of(x) - terms.TExpr.of(y)
            if d.iszero(): return True, None
            n = terms.normal(d)
            return n.iszero(), f"difference {str(n)[:600]}"
        n, bad = forall(a.shape, pred)
        self.pieces += n
        if self.sentinel:
            self.broken += bad is not None
            return
        if bad is not None: raise Fail(f"{msg}: at {bad[0]}: {bad[1]}")

    def raises(self, exc, f, msg=''):
        self.goals += 1
        try: f()
        except Unsupported: raise
        except exc:
            self.broken += 1
            return
        except Exception as e: raise Fail(f"{msg}: {type(e).__name__} raised instead of {exc}")
        if self.sentinel: return
        raise Fail(f"{msg}: no {exc} raised")


def rule(n1, cj1, n2, cj2, p1, p2, build):
    terms.RULES.setdefault((n1, cj1, n2, cj2), []).append((p1, p2, build))


class Conc:
    """one concrete instance"""
    symbolic = False

    def __init__(self, seed, dims=None, choices=None, big=3):
        self.r = np.random.default_rng(seed)
        self.dims = dict(dims or {})
        self.forced = list(choices or [])
        self.nc = 0
        self.big = big
        self.goals = 0
        self.cache = {}
        self.store = {}
        self.made = []
        import jax
        self.tol = 1e-6 if jax.config.jax_enable_x64 else 3e-3

    def dim(self, name, lo=1):
        if name not in self.dims: self.dims[name] = int(lo + self.r.integers(0, self.big))
        return int(self.dims[name])

    def choose(self, options, label=''):
        options = list(options)
        k = self.forced[self.nc] if self.nc < len(self.forced) else int(self.r.integers(len(options)))
        self.nc += 1
        return options[k % len(options)]

    def assume(self, kind, p):
        if not (p >= 0 if kind == 'ge' else p == 0 if kind == 'eq' else p != 0): raise Skip()

    def mat(self, name, shape, real=False):
        key = (name, tuple(shape))
        if key not in self.cache:
            x = self.r.standard_normal(shape)
            if not real: x = x + 1j * self.r.standard_normal(shape)
            self.cache[key] = x
        import jax.numpy as jnp
        return jnp.asarray(self.cache[key])

    def vec(self, name, n, real=False): return self.mat(name, (n,), real)

    def scalar(self, name, real=False):
        x = self.mat(name, (), real)
        return complex(x) if not real else float(x)

    def perm(self, name, n): return self.cache.setdefault((name, n), self.r.permutation(n))
    def perm_inv(self, p): return np.argsort(p)
    def index_fn(self, name, n, hi): return self.cache.setdefault((name, n, hi), self.r.integers(0, hi, n))

    def table(self, shape, f, kind='s'):
        out = np.zeros(shape, dtype=complex if kind == 's' else int)
        for ix in np.ndindex(*shape): out[ix] = f(ix)
        return out

    def lt(self, i, n): return i < n
    def divmod(self, i, n): return divmod(i, n)
    def delta(self, i, j): return 1 if i == j else 0
    def sum(self, n, f): return sum((f(i) for i in range(n)), 0)
    def at(self, a, *ix): return np.asarray(a)[tuple(ix)]
    def rule(self, *a, **k): pass

    def true(self, cond, msg=''):
        self.goals += 1
        if not bool(cond): raise Fail(f"{msg}: false")

    def eq(self, a, b, msg=''):
        self.goals += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: raise Fail(f"{msg}: shape {a.shape}, expected {b.shape}")
        if a.size == 0: return
        s = max(1., float(np.max(np.abs(b))))
        e = float(np.max(np.abs(a - b)))
        if not e <= self.tol * s: raise Fail(f"{msg}: error {e:.3g} (scale {s:.3g}), dims {self.dims}")

    def raises(self, exc, f, msg=''):
        self.goals += 1
        try: f()
        except exc: return
        except Exception as e: raise Fail(f"{msg}: {type(e).__name__}: {e} raised instead of {exc}")
        raise Fail(f"{msg}: no {exc} raised")


# ---------------------------------------------------------------- running one obligation

class Timeout(BaseException):
    pass


def find_model():
    """concrete dimensions of the failing path"""
    m = ctx.model() or {}
    out = dict(m)
    for n, e in ctx.cur.dimsub.items():
        v = Poly.of(P.subs(e, {a: m.get(a.name, max(a.lo or 0, 2)) for a in Poly.of(e).atoms()}) if type(e) is Poly else e).const()
        if v is not None: out[n] = v
    return out


def _alarm(*a): raise Timeout()


def fresh_state(prefix, z3_ms):
    ctx.set(ctx.Context(prefix, z3_ms))
    terms._bools.clear()
    terms.RULES.clear()
    terms.DIMS.clear()
    terms.REAL.clear()
    P.PERM_INV.clear()


def run_symbolic(fn, limit, max_paths=400, z3_ms=1500, sentinel=False, reset=lambda: None):
    """-> dict(status, detail, paths, goals, pieces, model, choices)"""
    t0 = time.time()
    todo = [((), (), ())]
    paths = goals = pcs = broken = 0
    before = dict(ctx.stats)
    status, detail, model, choices, definite = 'proved', '', None, None, False
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        while todo:
            if paths >= max_paths:
                status, detail = 'undecided', f"more than {max_paths} paths"
                break
            fresh_state(todo.pop(), z3_ms)
            reset()
            u = Sym(ctx.cur, sentinel)
            try:
                fn(u)
            except (ctx.Abort, Skip):
                todo.extend(ctx.cur.pending)
                continue
            except (Unsupported, Refine, RecursionError, MemoryError) as e:
                if ctx.cur.facts and not ctx.feasible(): pass
                else:
                    status, detail = 'undecided', f"outside the engine's reach: {e}"
                    if not sentinel: break
            except Timeout: raise
            except ctx.Restart as e:
                todo.append(e.item)
                todo.extend(ctx.cur.pending)
                continue
            except Exception as e:
                from .ob import stale
                if ctx.cur.facts and not ctx.feasible(): pass
                elif stale(e, u):
                    status, detail = 'undecided', f"the contract does not fit the code's internals: {type(e).__name__}: {e}"
                    break
                else:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{f.filename.split('/repo/')[-1]}:{f.lineno} {f.name}" for f in tb if '/repo/' in f.filename][-2:]
                    status = 'candidate'
                    detail = (str(e) if isinstance(e, Fail) else f"{type(e).__name__}: {e} {' '.join(where)}")
                    definite = isinstance(e, Fail) and not isinstance(e, Soft)
                    model = find_model()
                    choices = u.choices
                    break
            paths += 1
            goals += u.goals
            pcs += u.pieces
            broken += u.broken
            todo.extend(ctx.cur.pending)
    except Timeout:
        status, detail = 'undecided', f"time limit of {limit:.0f} s"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if status == 'proved' and goals == 0: status, detail = 'undecided', 'no goals'
    st = {k: round(ctx.stats.get(k, 0) - before.get(k, 0), 3) for k in ctx.stats}
    return dict(status=status, definite=definite, detail=detail, paths=paths, goals=goals, pieces=pcs, model=model, choices=choices, broken=broken,
                stats=st, t=round(time.time() - t0, 2))
