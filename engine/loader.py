"""Loads permaviss from the working tree of /repo, twice if wanted:

  load('sym')  the symbolic copy: numpy, scipy.spatial.distance, math and
               multiprocessing are replaced by stand-ins for the modules of the
               package only; `float(x)`, `int(x)` and `x.astype(t)` are routed
               through functions that keep symbolic values symbolic.
  load('real') the unmodified code; Pool is serial when serial=True.
"""
import ast
import builtins
import copy
import importlib
import itertools
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


ENV = None      # the run under way (engine/explore.py)


def finished(results):
    """results in the order in which tasks finish: any order is possible when
    the caller does not ask for the order of the tasks"""
    results = list(results)
    E = ENV
    if E is None or len(results) < 2:
        return results
    k = getattr(E, 'schedule', None)
    if k is None:
        k = E.schedule = E.choice('schedule', range(3)) if E.sym or \
            'schedule' in E.assign else 0
    if k == 1:
        return results[::-1]
    if k == 2:
        return results[1:] + results[:1]
    return results


def _isolated(x):
    return copy.deepcopy(x)


class SerialPool(object):
    """multiprocessing.Pool: tasks run one after another on a private copy of
    the function and its arguments, as in a worker process."""
    isolate = True

    def __init__(self, *a, **k):
        pass

    def _f(self, f):
        return _isolated(f) if self.isolate else f

    def map(self, f, it, chunksize=None):
        f = self._f(f)
        return [f(x) for x in it]

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=None):
        return iter(finished(self.map(f, it)))

    def starmap(self, f, it, chunksize=None):
        f = self._f(f)
        return [f(*x) for x in it]

    def apply(self, f, args=(), kwds={}):
        return self._f(f)(*args, **kwds)

    def map_async(self, f, it, chunksize=None, callback=None, **k):
        return _Res(self.map(f, it), callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, **k):
        return _Res(self.starmap(f, it), callback)

    def apply_async(self, f, args=(), kwds={}, callback=None, *a, **k):
        return _Res(self.apply(f, args, kwds), callback)

    def submit(self, f, *a, **k):
        return _Res(self._f(f)(*a, **k))

    def close(self):
        pass
    join = terminate = close

    def shutdown(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Res(object):
    def __init__(self, v, callback=None):
        self.v = v
        if callback is not None:
            callback(v)

    def get(self, timeout=None):
        return self.v
    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class ExecPool(SerialPool):
    def map(self, f, *its, **k):
        f = self._f(f)
        return [f(*x) for x in zip(*its)]


def shim_multiprocessing():
    import multiprocessing as mp
    m = types.ModuleType('multiprocessing')
    m.Pool = SerialPool
    m.cpu_count = lambda: 2
    m.get_context = lambda *a: m
    m.pool = types.ModuleType('multiprocessing.pool')
    m.pool.Pool = m.pool.ThreadPool = SerialPool
    m.dummy = types.ModuleType('multiprocessing.dummy')
    m.dummy.Pool = SerialPool
    m.__getattr__ = lambda n: getattr(mp, n)
    return m


def shim_concurrent():
    c = types.ModuleType('concurrent')
    f = types.ModuleType('concurrent.futures')
    f.ProcessPoolExecutor = f.ThreadPoolExecutor = ExecPool
    f.as_completed = lambda fs, timeout=None: finished(fs)
    f.wait = lambda fs, **k: (set(fs), set())
    c.futures = f
    return c


def shim_scipy(npm):
    import scipy.spatial.distance as sd
    from . import npshim, sym
    H = npshim

    def pts(X):
        a, k = H.raw(X)
        if a.ndim != 2:
            raise ValueError('A 2-dimensional array must be passed.')
        return H.obj(a)

    def metric_fun(metric, kw):
        p = kw.get('p', 2)
        if metric == 'euclidean' or (metric == 'minkowski' and p == 2):
            def euc(d):
                if not any(sym.is_sym(x) for x in d):
                    return sym.fixed_distance(d)
                return sym.sym_sqrt(_s([x * x for x in d]))
            return euc
        if metric == 'sqeuclidean':
            return lambda d: _s([x * x for x in d])
        if metric in ('cityblock',) or (metric == 'minkowski' and p == 1):
            return lambda d: _s([abs(x) for x in d])
        if metric == 'chebyshev':
            def mx(d):
                r = 0.0
                for x in d:
                    x = abs(x)
                    r = x if bool(x > r) else r
                return r
            return mx
        raise sym.Limit('metric')

    def _s(l):
        r = 0.0
        for x in l:
            r = r + x
        return r

    def pdist(X, metric='euclidean', **kw):
        c, ok = H.concrete(X)
        if ok:
            c = np.asarray(c)
            if metric == 'euclidean' and c.ndim == 2 and len(c) < 40:
                for u, v in itertools.combinations(c.tolist(), 2):
                    sym.fixed_distance([x - y for x, y in zip(u, v)])
            return H.wrapout(sd.pdist(c, metric, **kw))
        a = pts(X)
        f = metric_fun(metric, kw)
        out = np.empty(len(a) * (len(a) - 1) // 2, dtype=object)
        for t, (i, j) in enumerate(itertools.combinations(range(len(a)), 2)):
            out[t] = f([x - y for x, y in zip(a[i], a[j])])
        return H.mk(out, 'f')

    def cdist(X, Y, metric='euclidean', **kw):
        c, ok = H.concrete((X, Y))
        if ok:
            return H.wrapout(sd.cdist(c[0], c[1], metric, **kw))
        a, b = pts(X), pts(Y)
        f = metric_fun(metric, kw)
        out = np.empty((len(a), len(b)), dtype=object)
        for i in range(len(a)):
            for j in range(len(b)):
                out[i, j] = f([x - y for x, y in zip(a[i], b[j])])
        return H.mk(out, 'f')

    def squareform(X, *args, **kw):
        c, ok = H.concrete(X)
        if ok:
            return H.wrapout(sd.squareform(np.asarray(c), *args, **kw))
        a, k = H.raw(X)
        if a.ndim == 1:
            n = int(math.ceil(math.sqrt(len(a) * 2)))
            if n * (n - 1) // 2 != len(a):
                raise ValueError('Incompatible vector size.')
            out = np.empty((n, n), dtype=object)
            out[...] = 0.0
            for t, (i, j) in enumerate(itertools.combinations(range(n), 2)):
                out[i, j] = out[j, i] = a[t]
            return H.mk(out, k)
        return H.mk(np.array([a[i, j] for i, j in itertools.combinations(
            range(len(a)), 2)], dtype=object), k)

    def euclidean(u, v, w=None):
        return pdist([list(H.raw(u)[0]), list(H.raw(v)[0])])[0]

    d = types.ModuleType('scipy.spatial.distance')
    d.pdist, d.cdist, d.squareform = pdist, cdist, squareform
    d.euclidean = euclidean
    s = types.ModuleType('scipy.spatial')
    s.distance = d
    s.distance_matrix = lambda x, y, p=2, **k: cdist(x, y, 'minkowski', p=p)
    top = types.ModuleType('scipy')
    top.spatial = s
    return top


def shim_math():
    from . import sym
    m = types.ModuleType('math')
    for n in dir(math):
        setattr(m, n, getattr(math, n))
    m.sqrt = lambda x: sym.sym_sqrt(x) if sym.is_sym(x) or isinstance(
        x, Fraction) else math.sqrt(x)
    m.fabs = lambda x: abs(x) if sym.is_sym(x) else math.fabs(x)

    def isx(f, val):
        return lambda x: val if sym.is_sym(x) else f(x)
    m.isnan = isx(math.isnan, False)
    m.isinf = isx(math.isinf, False)
    m.isfinite = isx(math.isfinite, True)

    def dist(a, b):
        return sym.sym_sqrt(sum((x - y) * (x - y) for x, y in zip(a, b)))
    m.dist = dist
    m.hypot = lambda *a: sym.sym_sqrt(sum(x * x for x in a))
    from . import npshim
    m.cos = lambda x: npshim.sym_cos(x)
    m.sin = lambda x: npshim.sym_sin(x)

    def isclose(a, b, **k):
        if sym.is_sym(a) or sym.is_sym(b):
            return bool(a == b)
        return math.isclose(a, b, **k)
    m.isclose = isclose
    return m


class _T(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('float', 'int') and \
                len(node.args) == 1 and not node.keywords and not isinstance(
                    node.args[0], ast.Starred):
            node.func = ast.copy_location(
                ast.Name('__sym_%s__' % f.id, ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == 'astype':
            node.args.insert(0, f.value)
            node.func = ast.copy_location(
                ast.Name('__sym_astype__', ast.Load()), f)
        return node


def _astype(x, dtype, *a, **k):
    from . import npshim
    if isinstance(x, np.ndarray):
        return npshim.astype(x, dtype)
    return x.astype(dtype, *a, **k)     # numpy scalars, other classes


class Namespace(object):
    def __init__(self, mods, npm):
        self.__dict__.update(mods)
        self.np = npm


MODULES = {
    'arith': 'permaviss.gauss_mod_p.arithmetic_mod_p',
    'functions': 'permaviss.gauss_mod_p.functions',
    'gauss': 'permaviss.gauss_mod_p.gauss_mod_p',
    'differentials': 'permaviss.simplicial_complexes.differentials',
    'flag': 'permaviss.simplicial_complexes.flag_complex',
    'vr': 'permaviss.simplicial_complexes.vietoris_rips',
    'bases': 'permaviss.persistence_algebra.barcode_bases',
    'imker': 'permaviss.persistence_algebra.image_kernel',
    'mph': 'permaviss.persistence_algebra.module_persistence_homology',
    'ph': 'permaviss.persistence_algebra.PH_classic',
    'cover': 'permaviss.covers.cubical_cover',
    'examples': 'permaviss.sample_point_clouds.examples',
    'chains': 'permaviss.spectral_sequence.local_chains_class',
    'ss': 'permaviss.spectral_sequence.spectral_sequence_class',
    'mv': 'permaviss.spectral_sequence.MV_spectral_seq',
}


class _Finder(object):
    """imports permaviss from the working tree with private builtins"""

    def __init__(self, shims, transform, silent=True):
        self.shims = shims
        self.transform = transform
        self.silent = silent

    def find_spec(self, name, path=None, target=None):
        if name != 'permaviss' and not name.startswith('permaviss.'):
            return None
        base = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(base):
            fn, pkg = os.path.join(base, '__init__.py'), True
        else:
            fn, pkg = base + '.py', False
        if not os.path.exists(fn):
            return None
        return importlib.util.spec_from_file_location(
            name, fn, loader=_Loader(name, fn, self),
            submodule_search_locations=[base] if pkg else None)


_CODE = {}


class _Loader(object):
    def __init__(self, name, fn, finder):
        self.name, self.fn, self.finder = name, fn, finder

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        src = open(self.fn, 'rb').read()
        fd = self.finder
        b = dict(vars(builtins))
        if fd.silent:
            b['print'] = lambda *a, **k: None
        if fd.transform:
            from . import npshim
            b['__sym_float__'] = npshim.symfloat
            b['__sym_int__'] = npshim.symint
            b['__sym_astype__'] = _astype
        real_import = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                root = name.split('.')[0]
                m = fd.shims.get(root)
                if m is not None:
                    if fromlist:
                        for part in name.split('.')[1:]:
                            m = getattr(m, part)
                    return m
            return real_import(name, globals, locals, fromlist, level)
        b['__import__'] = imp
        mod.__dict__['__builtins__'] = b
        key = (self.fn, bool(fd.transform), src)
        if key not in _CODE:
            tree = ast.parse(src, self.fn)
            if fd.transform:
                tree = ast.fix_missing_locations(_T().visit(tree))
            _CODE[key] = compile(tree, self.fn, 'exec')
        exec(_CODE[key], mod.__dict__)


def load(mode, serial=True):
    """a fresh copy of the package as a Namespace"""
    for n in [n for n in sys.modules if n == 'permaviss' or
              n.startswith('permaviss.')]:
        del sys.modules[n]
    if mode == 'sym':
        from . import npshim
        npm = npshim.make_numpy()
        shims = {'numpy': npm, 'scipy': shim_scipy(npm), 'math': shim_math(),
                 'multiprocessing': shim_multiprocessing(),
                 'concurrent': shim_concurrent()}
        finder = _Finder(shims, True)
    else:
        npm = np
        shims = {}
        if serial:
            shims = {'multiprocessing': shim_multiprocessing(),
                     'concurrent': shim_concurrent()}
        finder = _Finder(shims, False)
    sys.meta_path.insert(0, finder)
    try:
        mods = {k: importlib.import_module(v) for k, v in MODULES.items()}
        keep = {n: sys.modules[n] for n in sys.modules
                if n == 'permaviss' or n.startswith('permaviss.')}
    finally:
        sys.meta_path.remove(finder)
    if mode == 'sym' or serial:
        for n in keep:
            del sys.modules[n]
    ns = Namespace(mods, npm)
    ns.mode = mode
    return ns
