"""Registration of obligations (contracts)."""


class Ob:
    def __init__(self, fn, name, functions, bound, limit, conc, tier):
        self.fn, self.name, self.functions, self.bound, self.limit, self.conc, self.tier = fn, name, functions, bound, limit, conc, tier


class Book:
    def __init__(self): self.obs = []

    def __call__(self, *functions, name=None, bound='none', limit=40, conc=3, tier='quick', args=()):
        """decorator; ``functions``: the functions of /repo under this contract; bound: 'none' or the stated restriction"""
        def deco(f):
            self.obs.append(Ob((lambda U: f(U, *args)) if args else f, name or f.__name__, list(functions), bound, limit, conc, tier))
            return f
        return deco

    def add(self, f, name, functions, bound='none', limit=40, conc=3, tier='quick'):
        self.obs.append(Ob(f, name, list(functions), bound, limit, conc, tier))


def book(pid):
    import importlib
    try: m = importlib.import_module(f"contracts.{pid.lower()}")
    except ModuleNotFoundError as e:
        if 'contracts' in str(e): return []
        raise
    return m.ob.obs


def stale(e, U):
    """the exception stems from the contract's view of internal data (an attribute renamed, a helper with another
    signature), not from behaviour: such a contract decides nothing"""
    tb = e.__traceback__
    while tb.tb_next: tb = tb.tb_next
    here = '/verif/' in tb.tb_frame.f_code.co_filename or '/contracts/' in tb.tb_frame.f_code.co_filename
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if o is None: return False
        if any(o is m for m in U.made): return True
        if type(o).__module__.startswith(('contracts', 'vc')): return not type(o).__module__.startswith('vc') or here
        return here and type(o).__module__.startswith('emlp') or here and isinstance(o, type)
    if isinstance(e, TypeError): return here and 'argument' in str(e)
    return isinstance(e, ImportError) and here
