"""Per property: level, environment of the concrete layer, rule, trusted base, assumptions. sym = number of deductive shards."""
X64 = {'JAX_ENABLE_X64': '1'}
RULE = ("bounded layer: named cases (a function and JSON parameters) executed on the real code of /repo and compared with an independent dense numpy oracle; "
        "hand-chosen corner cases plus seeded random ones; a case is non-trivial when its preconditions hold (otherwise it is counted as skipped)")
BASE = dict(level='exploration', env=X64, rule=RULE, sym=0, budget=60, budget_thorough=560, trusted=[], assumptions=[], explanation='')


def m(**k): return {**BASE, **k}


META = {
    'C01': m(sym=8), 'C02': m(sym=8), 'C03': m(sym=8), 'C04': m(sym=6), 'C05': m(sym=8, envs=[{}, X64], shards=8),
    'C06': m(envs=[{**X64, 'PYTHONHASHSEED': str(h)} for h in (0, 1)]), 'C07': m(sym=3), 'C08': m(sym=6), 'C09': m(), 'C10': m(), 'C11': m(), 'C12': m(), 'C13': m(sym=4),
    'C14': m(env={}), 'C15': m(), 'C16': m(sym=8), 'C17': m(env={}), 'C18': m(), 'C19': m(),
}
