"""Concrete cases: a named function of JSON parameters that runs the real code and raises on a violation."""
import json, os, sys, time, traceback


class Violation(AssertionError):
    """the property does not hold on this concrete input"""


class Skip(Exception):
    """the input is outside of the property's preconditions"""


def require(cond, msg):
    if not cond: raise Violation(msg() if callable(msg) else msg)


def run_case(mod, fn, params):
    """-> (status, detail)   status in ok, skip, fail"""
    import numpy as np
    f = oblig if fn == '__oblig__' else getattr(mod, fn)
    np.random.seed((params.get('seed', 0) * 7919 + 13) % (2**31))
    try:
        f(**params)
        return 'ok', ''
    except Skip as e:
        return 'skip', str(e)
    except Violation as e:
        return 'fail', str(e)
    except Exception as e:
        tb = traceback.format_exc()
        return 'fail', f"the code raised {type(e).__name__}: {e}\n{tb[-3000:]}"


def oblig(pid, name, seed=0, dims=None, choices=None, big=3):
    """the concrete reading of one contract on the real code (vc/universe.py, Conc)"""
    from . import ob, universe
    o, = [o for o in ob.book(pid) if o.name == name]
    U = universe.Conc(seed, dims, choices, big)
    try: o.fn(U)
    except universe.Skip as e: raise Skip(str(e))
    except universe.Fail as e: raise Violation(f"contract {name} of {', '.join(o.functions)}: {e} (sizes {U.dims})")
    except Exception as e:
        if ob.stale(e, U): raise Skip(f"the contract does not fit the code's internals: {type(e).__name__}: {e}")
        raise
