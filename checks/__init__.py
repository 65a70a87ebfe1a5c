"""Registry of the checks: one module per group of properties."""
import importlib

GROUPS = ['field', 'complexes', 'persistence', 'algebra', 'covers',
          'spectral', 'chains', 'samples', 'history']

ASSUMPTIONS = [
    'reals stand for floating point numbers: rounding error and values closer '
    'than the 7 decimals the code rounds to are outside the claim',
    'numpy, scipy.spatial.distance, math and multiprocessing are replaced by '
    'stand-ins with the documented behaviour (engine/npshim.py, '
    'engine/loader.py); sampled paths are validated against the real ones',
    'a worker pool returns its results in order and shares no state with its '
    'tasks',
]


def load(pid):
    for g in GROUPS:
        try:
            m = importlib.import_module('checks.' + g)
        except ModuleNotFoundError as e:
            if e.name != 'checks.' + g:
                raise
            continue
        if pid in m.PROPS:
            return m.PROPS[pid]
    raise SystemExit('unknown property ' + pid)


def all_ids():
    out = []
    for g in GROUPS:
        out.extend(sorted(importlib.import_module('checks.' + g).PROPS))
    return out
