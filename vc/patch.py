"""Deductive mode: the modules of /repo with their numpy/jax globals replaced by the symbolic models."""
import sys

INSTALLED = []


def install():
    if INSTALLED: return
    import emlp, emlp.reps, emlp.groups, emlp.nn, emlp.datasets
    from . import fakenp as K
    import numpy, jax, jax.numpy
    names = ['emlp.reps.linear_operator_base', 'emlp.reps.linear_operators', 'emlp.reps.representation', 'emlp.reps.product_sum_reps',
             'emlp.groups', 'emlp.nn.objax', 'emlp.datasets']
    import importlib
    for n in names:
        try: m = importlib.import_module(n)
        except Exception: continue
        for k, v in list(vars(m).items()):
            if v is numpy: setattr(m, k, K.NP)
            elif v is jax.numpy: setattr(m, k, K.JNP)
            elif v is jax: setattr(m, k, K.JAX)
            elif v is jax.jit: setattr(m, k, K.jit)
            elif v is jax.vmap: setattr(m, k, K.vmap)
            elif v is jax.device_put: setattr(m, k, K.JAX.device_put)
        m.len, m.range = K.symlen, K.symrange
    import emlp.reps.product_sum_reps as psr
    import emlp.reps.linear_operator_base as lob
    lob.LinearOperator.__repr__ = lambda self: f"<{self.shape} {type(self).__name__}>"    # %d formatting of symbolic sizes in error messages
    if hasattr(psr.rep_permutation, '__wrapped__'): psr.rep_permutation = psr.rep_permutation.__wrapped__
    INSTALLED.append(1)
