"""The same module in the four frameworks, with parameters replaced by random ones."""
import numpy as np
import jax, jax.numpy as jnp

FW = ['objax', 'haiku', 'flax', 'torch']


def lib(fw):
    import emlp.nn.objax, importlib
    return importlib.import_module({'objax': 'emlp.nn.objax', 'haiku': 'emlp.nn.haiku', 'flax': 'emlp.nn.flax', 'torch': 'emlp.nn.pytorch'}[fw])


class Net:
    """params: list of (name, numpy array) in creation order;  __call__(x) with the current parameters"""
    def __init__(self, fw, ctor, nin, extra=()):
        self.fw = fw
        L = lib(fw)
        self.extra = extra
        self.mod = ctor(L)
        x0 = np.zeros((2, nin), np.float32)
        if fw == 'objax':
            self.vs = [(k, v) for k, v in self.mod.vars().items()]
            self.params = [(k, np.asarray(v.value)) for k, v in self.vs]
        elif fw == 'torch':
            self.params = [(k, p.detach().numpy()) for k, p in self.mod.named_parameters()]
        elif fw == 'haiku':
            import haiku as hk
            self.tr = hk.without_apply_rng(hk.transform(self.mod))
            p = self.tr.init(jax.random.PRNGKey(0), jnp.asarray(x0))
            self.tree(p)
        else:
            p = self.mod.init(jax.random.PRNGKey(0), jnp.asarray(x0))
            self.tree(p)

    def tree(self, p):
        flat, self.td = jax.tree_util.tree_flatten_with_path(p)
        self.params = [('/'.join(str(getattr(k, 'key', k)) for k in path), np.asarray(v)) for path, v in flat]

    def randomize(self, rng, scale=1.):
        out = []
        for k, v in self.params:
            s = scale / np.sqrt(max(1, v.shape[-1])) if v.ndim == 2 else scale * .7
            out.append((k, (s * rng.standard_normal(v.shape)).astype(np.float32)))
        self.set(out)

    def mode(self, training):
        if self.fw == 'torch': self.mod.train(training)

    def set(self, params):
        self.params = params
        if self.fw == 'objax':
            for (k, v), (_, a) in zip(self.vs, params): v.assign(jnp.asarray(a))
        elif self.fw == 'torch':
            import torch
            with torch.no_grad():
                for p, (_, a) in zip(self.mod.parameters(), params): p.copy_(torch.tensor(a))

    def __call__(self, x):
        x = np.asarray(x, np.float32)
        if self.fw == 'torch':
            import torch
            return self.mod(torch.tensor(x), *self.extra).detach().numpy().astype(float)
        if self.fw == 'objax': return np.asarray(self.mod(jnp.asarray(x), *self.extra)).astype(float)
        p = jax.tree_util.tree_unflatten(self.td, [jnp.asarray(a) for _, a in self.params])
        f = self.tr.apply if self.fw == 'haiku' else self.mod.apply
        return np.asarray(f(p, jnp.asarray(x))).astype(float)
