import numpy as np
import jax, jax.numpy as jnp
import torch
from vc.case import require, Skip
from emlp.nn.pytorch import torchify_fn

def _loop(x, n=3): return jax.lax.fori_loop(0, n, lambda i, v: jnp.sin(v) * x, x)

A = np.arange(12.).reshape(3, 4) / 10
F = {   # name -> (function, shapes)
    'square': (lambda x: x**2, [(3,)]), 'scalar': (lambda x: (x**3).sum(), [(4,)]), '0d': (lambda x: jnp.exp(x), [()]), 'mul': (lambda x, y: x * y, [(3,), (3,)]), 'matmul': (lambda x, y: x @ y, [(2, 3), (3, 4)]),
    'bcast': (lambda x, y: jnp.tanh(x) * y + x, [(3, 1), (4,)]), 'identity': (lambda x: x, [(5,)]), 'const': (lambda x: jnp.ones(3), [(2,)]), 'unused': (lambda x, y: 2 * x, [(3,), (4,)]), 'linear': (lambda x: A @ x, [(4,)]),
    'two': (lambda x: (x**2, jnp.sin(x)), [(3,)]), 'twomixed': (lambda x, y: (x @ y, (x**2).sum()), [(2, 3), (3,)]), 'three': (lambda x, y: (x * y, x, y.sum()), [(3,), (3,)]), 'one_tuple': (lambda x: (x**2,), [(3,)]),
    'empty': (lambda x: (x**2).sum() + 1., [(0, 3)]), 'index': (lambda x: x[::-1][:2], [(4,)]), 'reshape': (lambda x: x.reshape(-1), [(2, 3)]), 'loop': (_loop, [(3,)]), 'jitted': (jax.jit(lambda x, y: jnp.cos(x) * y), [(3,), (3,)]),
    'where': (lambda x: jnp.where(x > 0, x, .1 * x), [(6,)]), 'three_args': (lambda x, y, z: jnp.sin(x) @ y + z, [(2, 3), (3, 2), (2, 2)]), 'same': (lambda x, y: x @ y.T + y @ x.T, [(3, 3), (3, 3)]),
    'big': (lambda x: jnp.sin(x) * x, [(200, 30)]), 'norm': (lambda x: jnp.linalg.norm(x), [(5,)]), 'prod': (lambda x, y: jnp.concatenate([x * y.sum(), y * x.sum()]), [(3,), (2,)]),
}


KONST = jnp.arange(3.) + 1
KNP = np.arange(4., dtype=np.float32)
F.update({'konst': (lambda x: (x * KONST, KONST), [(3,)]), 'konst_np': (lambda x: (KNP, x * KNP), [(4,)]), 'konst_only': (lambda x: KONST, [(3,)]), 'konst_jit': (jax.jit(lambda x: (x + KONST, KONST)), [(3,)]),
          'again': (lambda x, y: (x, y, x * y), [(3,), (3,)])})


def t2n(t): return t.detach().numpy().copy()


def ref(f, xs, cot):
    y, vjp = jax.vjp(f, *[jnp.asarray(x) for x in xs])
    ct = tuple(jnp.asarray(c) for c in cot) if isinstance(y, tuple) else jnp.asarray(cot[0])
    return y, vjp(ct)


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or (np.isfinite(a).all() and np.abs(a - b).max() <= 2e-5 * (1 + np.abs(b).max())))


def inputs(rng, shapes, layout=0):
    xs = [rng.standard_normal(s).astype(np.float32) for s in shapes]
    ts = []
    for x in xs:
        if layout == 1 and x.ndim == 2: t = torch.tensor(x.T.copy()).t()
        elif layout == 2 and x.ndim >= 1 and x.size:
            b = torch.zeros((2 * x.shape[0], *x.shape[1:]))
            b[::2] = torch.tensor(x)
            t = b[::2]
        elif layout == 3: t = torch.tensor(x).double()
        else: t = torch.tensor(x)
        ts.append(t)
    return xs, ts


def outs(y): return list(y) if isinstance(y, tuple) else [y]


def single(name, seed=0, layout=0, need=None):
    """values and vector Jacobian product for a random cotangent; need: which inputs require a gradient"""
    f, shapes = F[name]
    rng = np.random.default_rng(seed)
    xs, ts = inputs(rng, shapes, layout)
    need = [True] * len(xs) if need is None else (need + [True] * len(xs))[:len(xs)]
    ts = [t.requires_grad_() if n else t for t, n in zip(ts, need)]
    y = torchify_fn(f)(*ts)
    yj = f(*[jnp.asarray(x) for x in xs])
    require(isinstance(y, tuple) == isinstance(yj, tuple) and len(outs(y)) == len(outs(yj)), lambda: f"{name}: structure of the result: {type(y)}")
    for a, b in zip(outs(y), outs(yj)):
        require(isinstance(a, torch.Tensor) and near(t2n(a), b), lambda: f"{name}: values differ: {a} {b}")
        require(a.requires_grad == any(need), lambda: f"{name}: result requires_grad={a.requires_grad}")
    if not any(need): return
    cot = [rng.standard_normal(np.shape(b)).astype(np.float32) for b in outs(yj)]
    _, gs = ref(f, xs, cot)
    torch.autograd.backward(outs(y), [torch.tensor(c) for c in cot])
    for t, n, g in zip(ts, need, gs):
        if n: require(t.grad is not None and near(t2n(t.grad), g), lambda: f"{name}: the gradient differs from the vector-Jacobian product: {t.grad} instead of {g}")
        else: require(t.grad is None, f"{name}: a gradient for an input that needs none")


def history(names, seed=0, steps=10):
    """interleaved forward and backward passes of several wrapped functions on many inputs, inputs overwritten in between"""
    rng = np.random.default_rng(seed)
    fs = {n: torchify_fn(F[n][0]) for n in names}
    live = []
    for s in range(steps):
        if live and rng.random() < .4:
            rec = live.pop(int(rng.integers(len(live))))
            finish(*rec, rng)
            continue
        n = str(rng.choice(names))
        f, shapes = F[n]
        xs, ts = inputs(rng, shapes, int(rng.integers(3)))
        if rng.random() < .25:
            with torch.no_grad(): y = fs[n](*[t.requires_grad_() for t in ts])
            for a, b in zip(outs(y), outs(f(*[jnp.asarray(x) for x in xs]))): require(near(t2n(a), b) and not a.requires_grad, f"{n} without gradients")
            continue
        leaves = [t.clone().requires_grad_() for t in ts]
        mode = int(rng.integers(3))
        args = [l * 1. for l in leaves] if mode == 2 else leaves      # inputs that are not leaves
        y = fs[n](*args)
        vals = [t2n(a) for a in outs(y)]
        if mode == 1:
            with torch.no_grad():
                for l in leaves: l.mul_(-3.)                                # an optimiser step before the backward pass
            for a, v in zip(outs(y), vals): require(near(t2n(a), v), f"{n}: the value changed when the input was overwritten")
        live.append((n, f, xs, leaves, y))
    while live: finish(*live.pop(int(rng.integers(len(live)))), rng)


def finish(n, f, xs, leaves, y, rng):
    yj = f(*[jnp.asarray(x) for x in xs])
    for a, b in zip(outs(y), outs(yj)): require(near(t2n(a), b), lambda: f"{n}: values differ after other calls")
    cots = [[rng.standard_normal(np.shape(b)).astype(np.float32) for b in outs(yj)] for _ in range(2)]
    twice = rng.random() < .3
    gs = [np.zeros(l.shape) for l in leaves]
    for i, c in enumerate(cots[:1 + twice]):
        keep = twice and i == 0
        torch.autograd.backward(outs(y), [torch.tensor(z) for z in c], retain_graph=keep)
        gs = [g + np.asarray(h) for g, h in zip(gs, ref(f, xs, c)[1])]
    for l, g in zip(leaves, gs): require(l.grad is not None and near(t2n(l.grad), g), lambda: f"{n}: gradient after interleaved calls differs: {l.grad} instead of {g}")


def modified(name, seed=0):
    """the results belong to the caller: modifying them in place changes neither the function, nor its inputs, nor other results"""
    f, shapes = F[name]
    g = torchify_fn(f)
    rng = np.random.default_rng(seed)
    xs, _ = inputs(rng, shapes)
    for grad in (False, True, False):
        ts = [torch.tensor(x, requires_grad=grad) for x in xs]
        with torch.no_grad():
            other = [t2n(a) for a in outs(g(*ts))]
        y, z = g(*ts), g(*ts)
        zv = [t2n(a) for a in outs(z)]
        with torch.no_grad():
            for a in outs(y): a.mul_(-3.).add_(1.)
        for a, v in zip(outs(z), zv): require(near(t2n(a), v), f"{name}: another result changed when one was modified in place")
        for t, x in zip(ts, xs): require(near(t2n(t), x), f"{name}: an input changed when a result was modified in place")
        for a, v in zip(outs(g(*ts)), other): require(near(t2n(a), v), lambda: f"{name}: the function returns {a} instead of {v} after an earlier result was modified in place")


def chain(seed=0):
    """a wrapped function inside of a torch computation, used several times in one graph, shared parameters"""
    rng = np.random.default_rng(seed)
    W = rng.standard_normal((4, 4)).astype(np.float32)
    x = rng.standard_normal((3, 4)).astype(np.float32)
    f = lambda w, x: jnp.tanh(x @ w)
    g = torchify_fn(f)
    w, t = torch.tensor(W, requires_grad=True), torch.tensor(x, requires_grad=True)
    h = g(w, t)
    h = g(w * 2, h.sin()) + h
    h = g(w, h)
    (h**2).sum().backward()
    def loss(w, x):
        h = f(w, x)
        h = f(w * 2, jnp.sin(h)) + h
        return (f(w, h)**2).sum()
    a, b = jax.grad(loss, (0, 1))(jnp.asarray(W), jnp.asarray(x))
    require(near(t2n(w.grad), a) and near(t2n(t.grad), b), "a wrapped function used several times in one graph: wrong gradient")


def nondiff(seed=0):
    """inputs that are not differentiable: integer tensors, python numbers, None"""
    rng = np.random.default_rng(seed)
    for nm, f, extra in (('int tensor', lambda x, i: x[i], torch.tensor([0, 2])), ('number', lambda x, c: x * c, 2.5), ('none', lambda x, c: x * 3, None)):
        x = rng.standard_normal(4).astype(np.float32)
        t = torch.tensor(x, requires_grad=True)
        y = torchify_fn(f)(t, extra)
        e = extra.numpy() if isinstance(extra, torch.Tensor) else extra
        require(near(t2n(y), f(jnp.asarray(x), e)), f"{nm}: value")
        c = rng.standard_normal(y.shape).astype(np.float32)
        y.backward(torch.tensor(c))
        g = jax.vjp(lambda x: f(x, e), jnp.asarray(x))[1](jnp.asarray(c))[0]
        require(near(t2n(t.grad), g), f"{nm}: gradient")


def layers(kind, seed=0):
    """gradients of the torch layers built on it with respect to parameters and inputs are those of the jax formula"""
    from emlp.groups import SO, S
    from emlp.reps import V, T, Scalar
    import emlp.nn.pytorch as P
    rng = np.random.default_rng(seed)
    G = SO(2) if seed % 2 else S(3)
    rin, rout = V(G) + Scalar + T(2)(G), T(2)(G) + V(G) + Scalar
    torch.manual_seed(seed)
    L = getattr(P, kind)(rin, rout if kind == 'Linear' else rin)
    x = torch.tensor(rng.standard_normal((3, rin.size())).astype(np.float32), requires_grad=True)
    c = torch.tensor(rng.standard_normal((3, (rout if kind == 'Linear' else rin).size())).astype(np.float32))
    (L(x) * c).sum().backward()
    ps = [x] + list(L.parameters())
    for p in ps:
        d = torch.tensor(rng.standard_normal(p.shape).astype(np.float32))
        eps = 3e-2      # all maps are polynomials of degree <= 2 in each argument: the central difference is exact
        def at(s):
            with torch.no_grad():
                old = p.detach().clone()
                p.copy_(old + s * d)
                v = float((L(x).double() * c.double()).sum())
                p.copy_(old)
            return v
        fd, an = (at(1.) - at(-1.)) / 2, float((p.grad * d).sum())
        require(abs(fd - an) <= 2e-3 * (1 + abs(fd)), lambda: f"{kind}: directional derivative {an} instead of {fd}")


def cases(tier, seed):
    q = tier == 'quick'
    for n in F:
        for layout in range(4): yield 'single', dict(name=n, seed=layout + seed, layout=layout)
        yield 'single', dict(name=n, seed=9, need=[False] * 3)
        yield 'modified', dict(name=n, seed=seed)
        if len(F[n][1]) > 1:
            for need in ([True, False, False], [False, True, True], [False, False, True]):
                yield 'single', dict(name=n, seed=11, need=need)
    for s in range(4): yield 'chain', dict(seed=s)
    yield 'nondiff', dict(seed=seed)
    for s in range(2): yield 'layers', dict(kind='Linear', seed=s)
    for s in range(2): yield 'layers', dict(kind='BiLinear', seed=s)
    rng = np.random.default_rng(17000 + seed)
    names = [n for n in F if n not in ('const', 'empty', 'konst_only')]
    for _ in range(40 if q else 1500):
        yield 'history', dict(names=[str(x) for x in rng.choice(names, int(rng.integers(1, 4)), replace=False)], seed=int(rng.integers(1 << 30)), steps=int(rng.integers(4, 20)))
