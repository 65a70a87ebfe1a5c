"""A stand-in for numpy while the code under test runs symbolically.

Arrays that can hold symbolic values are SymArray: object arrays that remember
the kind ('f' real, 'i' integer) numpy would have given them.  Integer and
boolean arrays without symbolic entries stay genuine numpy arrays, so that
indexing behaves as in the real code.  Functions without a handler here fall
back to numpy on object arrays (or on the genuine dtype when nothing is
symbolic).
"""
import builtins
import functools
import math
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import (SymBase, SymBool, SymI, SymReal, SymRoot, Limit, is_sym,
                  mkbool, node_of, AND, OR)

REALFLOAT, REALINT, REALBOOL = float, int, bool


# ------------------------------------------------------------------- SymArray

def elem_kind(x):
    if isinstance(x, (bool, np.bool_, SymBool)):
        return 'b'
    if isinstance(x, (int, np.integer, SymI)):
        return 'i'
    if isinstance(x, SymReal):
        return 'i' if x.isint else 'f'
    return 'f'


def join_kind(*ks):
    ks = [k for k in ks if k]
    if not ks:
        return 'f'
    if 'O' in ks:
        return 'O'
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b'


def dtype_kind(dt):
    if dt is None:
        return None
    if isinstance(dt, type) and issubclass(dt, (symfloat,)):
        return 'f'
    if isinstance(dt, type) and issubclass(dt, (symint,)):
        return 'i'
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return 'O'
    if k == 'u':
        k = 'i'
    return k


def to_int(x):
    """value stored into an integer array"""
    if isinstance(x, SymI):
        return x
    if isinstance(x, SymReal):
        if x.isint:
            return x
        return int(x)
    if isinstance(x, SymRoot):
        return int(x)
    if isinstance(x, SymBool):
        return int(x)
    return int(x)


def to_float(x):
    if isinstance(x, SymReal):
        if x.isint:
            return SymReal(x.num, x.den, False)
        return x
    if isinstance(x, (SymI, SymRoot)):
        return x
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, Fraction):
        return x
    return float(x)


class SymArray(np.ndarray):
    """object array; self.kind is the kind of the dtype of the real code"""

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', 'f') if obj is not None else 'f'

    # -- indexing
    def __getitem__(self, idx):
        r = self.view(np.ndarray)[fix_index(idx)]
        if isinstance(r, np.ndarray):
            return mk(r, self.kind)
        return r

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        if isinstance(val, (np.ndarray, list, tuple, range)):
            v, _ = raw(val)
            v = v.astype(object) if v.dtype != object else v
            v = conv(v, self.kind)
            self.view(np.ndarray)[idx] = v
        else:
            c = to_int if self.kind == 'i' else to_float if \
                self.kind == 'f' else (lambda x: x)
            self.view(np.ndarray)[idx] = c(val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(h_any(self == x))

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous.')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return float(self.view(np.ndarray).ravel()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return int(self.view(np.ndarray).ravel()[0])

    def __index__(self):
        if self.kind == 'i' and self.size == 1 and self.ndim == 0:
            return int(self)
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        return mk(self.view(np.ndarray).copy(), self.kind)

    def __reduce__(self):
        raise Limit('pickle')

    # -- ufuncs / functions
    def __array_ufunc__(self, ufunc, method, *a, **k):
        return array_ufunc(ufunc, method, *a, **k)

    def __array_function__(self, func, types_, args, kwargs):
        return call(func, args, kwargs)

    # -- methods
    def any(self, axis=None, **k):
        return h_any(self, axis, **k)

    def all(self, axis=None, **k):
        return h_all(self, axis, **k)

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def copy(self, order='C'):
        return mk(self.view(np.ndarray).copy(), self.kind)

    def sum(self, axis=None, **k):
        return h_sum(self, axis, **k)

    def prod(self, axis=None, **k):
        return h_prod(self, axis, **k)

    def mean(self, axis=None, **k):
        return h_mean(self, axis, **k)

    def min(self, axis=None, **k):
        return h_min(self, axis, **k)

    def max(self, axis=None, **k):
        return h_max(self, axis, **k)

    def argmin(self, axis=None, **k):
        return h_argmin(self, axis)

    def argmax(self, axis=None, **k):
        return h_argmax(self, axis)

    def sort(self, axis=-1, **k):
        s = h_sort(self, axis)
        self[...] = s

    def argsort(self, axis=-1, **k):
        return h_argsort(self, axis)

    def nonzero(self):
        return h_nonzero(self)

    def dot(self, o):
        return h_dot(self, o)

    def round(self, decimals=0, **k):
        return h_around(self, decimals)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def cumsum(self, axis=None, **k):
        return h_cumsum(self, axis)

    def fill(self, v):
        self[...] = v

    def flatten(self, *a):
        return mk(self.view(np.ndarray).flatten(), self.kind)

    def trace(self, *a, **k):
        return h_sum(h_diag(self))

    def searchsorted(self, v, side='left', sorter=None):
        return h_searchsorted(self, v, side)

    @property
    def dtype(self):
        return np.dtype({'f': float, 'i': int, 'b': bool}.get(self.kind,
                                                             object))


def mk(arr, kind):
    """wrap a plain object array"""
    if not isinstance(arr, np.ndarray):
        return arr
    arr = arr.view(SymArray)
    arr.kind = kind
    return arr


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index1(i) for i in idx)
    return fix_index1(idx)


def fix_index1(i):
    if isinstance(i, SymArray):
        if i.kind == 'i':
            return np.array([int(x) for x in i.view(np.ndarray).ravel()],
                            dtype=int).reshape(i.shape)
        if i.kind == 'b':
            return np.array([bool(x) for x in i.view(np.ndarray).ravel()],
                            dtype=bool).reshape(i.shape)
        if i.size == 0 and i.ndim == 1 and False:
            return i
        raise IndexError('arrays used as indices must be of integer (or '
                         'boolean) type')
    if isinstance(i, SymI):
        return int(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymReal):
        return i.__index__()
    if isinstance(i, list) and has_sym(i):
        return np.array([int(x) if not isinstance(x, SymBool) else bool(x)
                         for x in i])
    if isinstance(i, np.ndarray) and i.dtype == object:
        return fix_index1(mk(i, join_kind(*[elem_kind(x)
                                            for x in i.ravel()])))
    return i


def has_sym(x):
    """whether a (nested) value holds something symbolic or a SymArray"""
    if isinstance(x, (SymBase, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, Fraction):
        return True
    if isinstance(x, (list, tuple)):
        for y in x:
            if has_sym(y):
                return True
    return False


_SYMTYPE = {}


def sym_type(t):
    r = _SYMTYPE.get(t)
    if r is None:
        r = _SYMTYPE[t] = issubclass(t, (SymBase, Fraction))
    return r


def array_has_sym(a):
    if a.dtype != object and not isinstance(a, SymArray):
        return False
    return any(map(sym_type, set(map(type, a.view(np.ndarray).ravel()
                                     .tolist()))))


_EXACT = {'f': {float}, 'i': {int}, 'b': {bool}}


def conv(a, kind):
    """convert the elements of a plain object array to a kind"""
    if a.dtype == object and kind in _EXACT and \
            set(map(type, a.ravel().tolist())) <= _EXACT[kind]:
        return a.copy()
    if kind == 'f':
        f = to_float
    elif kind == 'i':
        f = to_int
    elif kind == 'b':
        f = bool
    else:
        return a
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = f(af[i])
    return out


def raw(x):
    """(ndarray, kind): a plain array for x"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray), x.kind
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x, join_kind(*[elem_kind(e) for e in x.ravel()])
        return x, ('i' if x.dtype.kind == 'u' else x.dtype.kind)
    if isinstance(x, SymBase) or isinstance(x, Fraction):
        a = np.empty((), dtype=object)
        a[()] = x
        return a, elem_kind(x)
    if isinstance(x, (set, frozenset, dict)):
        return np.asarray(x), 'O'
    if isinstance(x, (list, tuple)) and has_sym(x):
        parts = [raw(y) for y in x]
        shapes = set(p[0].shape for p in parts)
        if len(shapes) != 1:
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        kind = join_kind(*[p[1] for p in parts])
        out = np.empty((len(parts),) + parts[0][0].shape, dtype=object)
        for i, p in enumerate(parts):
            if p[0].ndim == 0:
                out[i] = p[0].item()
            else:
                out[i] = p[0].astype(object) if p[0].dtype != object else p[0]
        return out, kind
    if isinstance(x, (list, tuple)):
        x = np.asarray(x)
        return x, ('i' if x.dtype.kind == 'u' else x.dtype.kind)
    x = np.asarray(x)
    return x, ('i' if x.dtype.kind == 'u' else x.dtype.kind)


def obj(a):
    """object version of a plain array, with Python scalars"""
    return a if a.dtype == object else a.astype(object)


def result(a, kind):
    """what the real code would hold: float arrays become SymArray"""
    if not isinstance(a, np.ndarray):
        return a
    if kind == 'f' or kind == 'O':
        o = obj(a)
        if kind == 'f' and a.dtype == object:
            o = conv(o, 'f')
        return mk(o, kind)
    if kind == 'i':
        if a.dtype != object:
            return a
        if not array_has_sym(a):
            return np.array([int(x) for x in a.ravel()],
                            dtype=int).reshape(a.shape)
        return mk(conv(a, 'i'), 'i')
    if kind == 'b':
        if a.dtype == bool:
            return a
        return np.array([bool(x) for x in a.ravel()],
                        dtype=bool).reshape(a.shape)
    return a


def wrapout(r):
    """results of genuine numpy functions: floats become SymArray"""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return result(r, join_kind(*[elem_kind(x) for x in r.ravel()]))
        if r.dtype.kind == 'f':
            return mk(r.astype(object), 'f')
        return r
    if isinstance(r, tuple):
        return tuple(wrapout(x) for x in r)
    if isinstance(r, list):
        return [wrapout(x) for x in r]
    return r


def concrete(x):
    """replace SymArrays without symbolic entries by genuine arrays;
    (value, ok)"""
    if isinstance(x, SymArray):
        if array_has_sym(x):
            return x, False
        dt = {'f': float, 'i': int, 'b': bool}.get(x.kind, object)
        return x.view(np.ndarray).astype(dt), True
    if isinstance(x, (SymBase, Fraction)):
        return x, False
    if isinstance(x, np.ndarray):
        return x, x.dtype != object
    if isinstance(x, list):
        out, ok = [], True
        for y in x:
            v, o = concrete(y)
            out.append(v)
            ok = ok and o
        return out, ok
    if isinstance(x, tuple):
        out, ok = [], True
        for y in x:
            v, o = concrete(y)
            out.append(v)
            ok = ok and o
        return tuple(out), ok
    if isinstance(x, dict):
        out, ok = {}, True
        for k, y in x.items():
            v, o = concrete(y)
            out[k] = v
            ok = ok and o
        return out, ok
    if isinstance(x, type) and issubclass(x, symfloat):
        return float, True
    if isinstance(x, type) and issubclass(x, symint):
        return int, True
    return x, True


def strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [strip(y) for y in x] if has_sym(x) else x
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    return x


# --------------------------------------------------------------------- ufuncs

CMP = {np.less: '<', np.less_equal: '<=', np.greater: '>',
       np.greater_equal: '>=', np.equal: '==', np.not_equal: '!='}
LOGIC = (np.logical_and, np.logical_or, np.logical_not, np.logical_xor)
UNARY = {
    np.sqrt: lambda x: sym.sym_sqrt(x),
    np.ceil: lambda x: float(math.ceil(x)),
    np.floor: lambda x: float(math.floor(x)),
    np.trunc: lambda x: float(math.trunc(x)),
    np.rint: lambda x: x if is_sym(x) else float(round(x)),
    np.square: lambda x: x * x,
    np.absolute: lambda x: abs(x),
    np.fabs: lambda x: abs(x),
    np.negative: lambda x: -x,
    np.positive: lambda x: x,
    np.conjugate: lambda x: x,
    np.isnan: lambda x: False if is_sym(x) else bool(np.isnan(float(x))),
    np.isinf: lambda x: False if is_sym(x) else bool(np.isinf(float(x))),
    np.isfinite: lambda x: True if is_sym(x) else bool(np.isfinite(float(x))),
    np.cos: lambda x: sym_cos(x),
    np.sin: lambda x: sym_sin(x),
    np.sign: lambda x: (1 if bool(x > 0) else (-1 if bool(x < 0) else 0)),
}
KEEPI = (np.square, np.absolute, np.negative, np.positive, np.sign,
         np.conjugate)


def _hyp(a, b):
    return sym.sym_sqrt(a * a + b * b)


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        if b == 0:
            return float('nan')
        return sym.tonum(sym.frac(a) / sym.frac(b))
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _mod(a, b):
    if not is_sym(b) and b == 0:
        return float('nan')
    r = a % b
    return r


def _max(a, b):
    return a if bool(a >= b) else b


def _min(a, b):
    return a if bool(a <= b) else b


BIN = {np.true_divide: _div, np.divide: _div, np.remainder: _mod,
       np.mod: _mod, np.maximum: _max, np.minimum: _min, np.fmax: _max,
       np.fmin: _min, np.hypot: _hyp,
       np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b,
       np.multiply: lambda a, b: a * b,
       np.floor_divide: lambda a, b: a // b,
       np.power: lambda a, b: a ** b,
       np.float_power: lambda a, b: a ** b}
IDENT = {np.add: 0, np.multiply: 1}


def ufunc_at(ufunc, a, idx, b=None):
    if not isinstance(a, SymArray) and not has_sym(b):
        c = (a, fix_index(idx)) + (() if b is None else (b,))
        return ufunc.at(*c)
    n = np.arange(a.size).reshape(a.shape)[fix_index(idx)]
    if b is not None:
        bb = np.broadcast_to(obj(raw(b)[0]), np.shape(n)).ravel()
    for i, j in enumerate(np.ravel(n)):
        at = np.unravel_index(int(j), a.shape)
        if b is None:
            a[at] = UNARY[ufunc](a[at])
        else:
            a[at] = BIN[ufunc](a[at], bb[i])


def array_ufunc(ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    if where is not True:
        if method != '__call__':
            raise Limit('ufunc where=')
        r = array_ufunc(ufunc, method, *inputs, **kw)
        o = h_array(r) if out is None else out[0]
        h_copyto(o, r, where=where)
        return o
    kw.pop('casting', None)
    kw.pop('dtype', None)
    # everything concrete: use the genuine dtypes
    if method == 'at':
        return ufunc_at(ufunc, *inputs)
    cin, ok = concrete(tuple(inputs))
    if ok and (out is None or all(not isinstance(o, SymArray) for o in out)):
        if out is not None:
            kw['out'] = out
        return wrapout(getattr(ufunc, method)(*cin, **kw))
    if ok and method == '__call__':
        r = getattr(ufunc, method)(*cin, **kw)
        out[0][...] = r
        return out[0]
    if ufunc is np.matmul and method == '__call__':
        r = h_matmul(*inputs)
    elif method == '__call__':
        parts = [raw(x) for x in inputs]
        arrs = [obj(p[0]) for p in parts]
        kinds = [p[1] for p in parts]
        r = _apply(ufunc, arrs, kinds)
    elif method == 'reduce':
        r = _reduce(ufunc, inputs[0], kw.get('axis', 0),
                    kw.get('keepdims', False),
                    kw.get('initial', np._NoValue))
    elif method == 'outer':
        a, b = obj(raw(inputs[0])[0]), obj(raw(inputs[1])[0])
        ks = [raw(inputs[0])[1], raw(inputs[1])[1]]
        r = _apply(ufunc, [a.reshape(a.shape + (1,) * b.ndim), b], ks)
    elif method == 'accumulate':
        a, k = raw(inputs[0])
        r = [obj(a)[0]]
        for x in obj(a)[1:]:
            r.append(BIN[ufunc](r[-1], x))
        r = result(_stack(r), k)
    else:
        raise Limit('ufunc method ' + method)
    if out is not None:
        o = out[0]
        if isinstance(o, SymArray):
            o[...] = r
        else:
            rr = raw(r)[0]
            if o.dtype.kind in 'iu' and rr.dtype == object:
                rr = np.array([int(x) for x in rr.ravel()]).reshape(rr.shape)
            if o.dtype.kind == 'f' and rr.dtype == object:
                rr = np.array([float(x) for x in rr.ravel()]).reshape(
                    rr.shape)
            o[...] = rr
        return o
    return r


def _stack(lst):
    a = np.empty((len(lst),) + np.shape(lst[0]), dtype=object)
    for i, x in enumerate(lst):
        a[i] = x
    return a


def _apply(ufunc, arrs, kinds):
    scalar = all(a.ndim == 0 for a in arrs)
    if ufunc in CMP:
        op = CMP[ufunc]
        a, b = np.broadcast_arrays(*arrs)
        if scalar:
            return sym._cmpv(a[()], b[()], op)
        out = np.empty(a.shape, dtype=bool)
        of = out.reshape(-1)
        for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            of[i] = bool(sym._cmpv(x, y, op))
        return out
    if ufunc in LOGIC:
        if ufunc is np.logical_not:
            fs = lambda x: mkbool(sym.NOT(node_of(x)))
            if scalar:
                return fs(arrs[0][()])
            return np.array([bool(fs(x)) for x in arrs[0].ravel()],
                            dtype=bool).reshape(arrs[0].shape)
        comb = {np.logical_and: lambda x, y: mkbool(
                    AND([node_of(x), node_of(y)])),
                np.logical_or: lambda x, y: mkbool(
                    OR([node_of(x), node_of(y)])),
                np.logical_xor: lambda x, y: mkbool(OR([
                    AND([node_of(x), sym.NOT(node_of(y))]),
                    AND([sym.NOT(node_of(x)), node_of(y)])]))}[ufunc]
        a, b = np.broadcast_arrays(*arrs)
        if scalar:
            return comb(a[()], b[()])
        return np.array([bool(comb(x, y)) for x, y in
                         zip(a.ravel(), b.ravel())],
                        dtype=bool).reshape(a.shape)
    if ufunc in (np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert):
        if all(k == 'b' for k in kinds):
            return _apply({np.bitwise_and: np.logical_and,
                           np.bitwise_or: np.logical_or,
                           np.bitwise_xor: np.logical_xor,
                           np.invert: np.logical_not}[ufunc], arrs, kinds)
        raise Limit('bitwise')
    if ufunc in UNARY:
        f = UNARY[ufunc]
        a = arrs[0]
        if scalar:
            return f(a[()])
        out = np.empty(a.shape, dtype=object)
        of = out.reshape(-1)
        for i, x in enumerate(a.ravel()):
            of[i] = f(x)
        if ufunc in (np.isnan, np.isinf, np.isfinite):
            return out.astype(bool)
        return result(out, kinds[0] if ufunc in KEEPI and kinds[0] != 'b'
                      else 'f')
    if ufunc in BIN and len(arrs) == 2:
        f = BIN[ufunc]
        a, b = np.broadcast_arrays(*arrs)
        k = join_kind(*kinds)
        if ufunc in (np.true_divide, np.hypot, np.float_power):
            k = 'f'
        if k == 'b':
            k = 'i'
        if scalar:
            return f(a[()], b[()])
        out = np.empty(a.shape, dtype=object)
        of = out.reshape(-1)
        for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            of[i] = f(x, y)
        return result(out, k)
    if ufunc is np.divmod:
        return (_apply(np.floor_divide, arrs, kinds),
                _apply(np.remainder, arrs, kinds))
    # generic: element by element through the object loop
    if not all(t in ufunc.types for t in [
            'O' * ufunc.nin + '->' + 'O' * ufunc.nout]):
        raise Limit('ufunc ' + ufunc.__name__)
    r = ufunc(*arrs)
    if scalar:
        return r
    return wrapout(r)


def _reduce(ufunc, x, axis, keepdims, initial):
    if ufunc is np.logical_or:
        return h_any(x, axis)
    if ufunc is np.logical_and:
        return h_all(x, axis)
    a, k = raw(x)
    a = obj(a)
    f = BIN[ufunc]
    if k == 'b':
        k = 'i'
    if axis is None:
        items = list(a.ravel())
        if initial is not np._NoValue:
            items = [initial] + items
        if not items:
            if ufunc in IDENT:
                return IDENT[ufunc] if k == 'i' else float(IDENT[ufunc])
            raise ValueError('zero-size array to reduction operation')
        r = items[0]
        for y in items[1:]:
            r = f(r, y)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([t % a.ndim for t in axis], reverse=True):
            x = _reduce(ufunc, x, ax, keepdims, initial)
        return x
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, 0)
    shape = b.shape[1:]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        items = [b[(i,) + idx] for i in range(b.shape[0])]
        if initial is not np._NoValue:
            items = [initial] + items
        if not items:
            if ufunc not in IDENT:
                raise ValueError('zero-size array to reduction operation')
            r = IDENT[ufunc] if k == 'i' else float(IDENT[ufunc])
        else:
            r = items[0]
            for y in items[1:]:
                r = f(r, y)
        out[idx] = r
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return result(out, k)


# ------------------------------------------------------- trigonometry (stubs)

def sym_cos(x):
    return _angle(x)[0]


def sym_sin(x):
    return _angle(x)[1]


def _angle(x):
    if not is_sym(x):
        return math.cos(x), math.sin(x)
    if not isinstance(x, SymReal):
        raise Limit('angle')
    c = sym.ctx()
    k = (x.num.key(), x.den.key() if x.den is not None else None)
    if k not in c.angles:
        # an arbitrary point of the unit circle (stereographic, without
        # (-1,0)); equal angles are the same point (for the first ones)
        old = []
        if len(c.angles) < 4:
            old = [(x - a, u) for a, u in c.anglist]
            old = [(e, u) for e, u in old if isinstance(e, SymReal)]
        first = Fraction(1, 2)
        for e, u in old:
            if e.shadow() == 0:
                first = u.shadow()
        t = sym.new_real('ang%d' % len(c.angles), -4, 4, default=first)
        for e, u in old:
            c.base.append(sym.z3.Or(
                sym.poly_z3(e.num) != 0,
                sym.poly_z3(t.num) == sym.poly_z3(u.num)))
        c.anglist.append((x, t))
        d = 1 + t * t
        c.angles[k] = ((1 - t * t) / d, 2 * t / d)
    return c.angles[k]


# ------------------------------------------------------------------- handlers

H = {}


def handler(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def kindarg(dtype):
    return dtype_kind(dtype)


NARROW = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32')


def narrow_name(dtype):
    try:
        n = np.dtype(dtype).name
    except TypeError:
        return None
    return n if n in NARROW else None


def narrow(a, dtype):
    n = narrow_name(dtype)
    return a if n is None else a.astype(n)


def narrow_obj(a, dtype):
    """small integer types wrap around"""
    n = narrow_name(dtype)
    if n is None:
        return a
    info = np.iinfo(n)
    lo, hi = int(info.min), int(info.max)
    m = hi - lo + 1
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        e = a[i]
        if not sym.is_sym(e):
            out[i] = (int(e) - lo) % m + lo
        elif m <= 256:
            # with a branch on whether it fits
            out[i] = e if bool(e >= lo) and bool(e <= hi) else \
                (e - lo) % m + lo
        else:
            out[i] = e      # symbolic integers have 16 bits
    return out


def astype(x, dtype, copy=True):
    a, k = raw(x)
    kind = dtype_kind(dtype)
    if kind == 'f':
        return mk(conv(obj(a), 'f'), 'f')
    if kind == 'i':
        if a.dtype != object:
            return narrow(a, dtype).astype(int)
        return result(narrow_obj(conv(a, 'i'), dtype), 'i')
    if kind == 'b':
        return np.array([bool(e) for e in a.ravel()],
                        dtype=bool).reshape(a.shape)
    if kind == 'O':
        if dtype in (object, np.object_, 'O', 'object'):
            return mk(obj(a).copy(), 'O')
    return a.astype(dtype)


@handler('array', 'asarray', 'asanyarray', 'ascontiguousarray')
def h_array(x, dtype=None, copy=True, **kw):
    if isinstance(x, (range, map, filter, zip)) and not isinstance(x, range):
        return np.array(x)
    if dtype_kind(dtype) == 'V':
        raise Limit('structured array')
    try:
        a, k = raw(x)
    except ValueError:
        if dtype_kind(dtype) != 'O' or not isinstance(x, (list, tuple)):
            raise
        # ragged object array: an array of the given objects
        a = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            a[i] = e
        return mk(a, 'O')
    if dtype is not None:
        r = astype(result(a.copy() if a.dtype == object else np.array(a), k),
                   dtype)
    elif k in 'fibO':
        r = result(np.array(a), k)
    else:
        return np.array(x)
    nd = kw.get('ndmin', 0)
    while r.ndim < nd:
        r = r[np.newaxis]
    return r


def h_asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray) and dtype is None:
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in 'ib' and (
            dtype is None or dtype_kind(dtype) == x.dtype.kind):
        return x
    return h_array(x, dtype, **kw)


H['asarray'] = H['asanyarray'] = H['ascontiguousarray'] = h_asarray


@handler('copy')
def h_copy(x, *a, **kw):
    return h_array(x)


def _full(shape, v, dtype=None):
    k = dtype_kind(dtype)
    if isinstance(shape, SymBase):
        shape = int(shape)
    elif isinstance(shape, (tuple, list)):
        shape = tuple(int(s) if isinstance(s, SymBase) else s for s in shape)
    if k is None:
        k = elem_kind(v)
    if k == 'V':
        raise Limit('structured array')
    if k == 'f':
        a = np.empty(np.empty(shape, dtype=bool).shape, dtype=object)
        a[...] = to_float(v)
        return mk(a, 'f')
    if k == 'i':
        if is_sym(v):
            a = np.empty(np.empty(shape, dtype=bool).shape, dtype=object)
            a[...] = v
            return mk(a, 'i')
        return np.full(shape, int(v), dtype=int)
    if k == 'b':
        return np.full(shape, bool(v), dtype=bool)
    return mk(np.full(shape, v, dtype=object), 'O')


@handler('zeros')
def h_zeros(shape, dtype=float, *a, **k):
    return _full(shape, 0.0 if dtype_kind(dtype) == 'f' else 0, dtype)


@handler('ones')
def h_ones(shape, dtype=float, *a, **k):
    return _full(shape, 1.0 if dtype_kind(dtype) == 'f' else 1, dtype)


@handler('empty')
def h_empty(shape, dtype=float, *a, **k):
    return _full(shape, 0.0 if dtype_kind(dtype) == 'f' else 0, dtype)


@handler('full')
def h_full(shape, v, dtype=None, *a, **k):
    if isinstance(v, (list, tuple, np.ndarray)):
        r = h_zeros(shape)
        r[...] = v
        return r
    return _full(shape, v, dtype)


@handler('zeros_like')
def h_zeros_like(x, dtype=None, *a, **k):
    arr, kd = raw(x)
    return _full(arr.shape, 0.0 if kd == 'f' else 0,
                 dtype or {'f': float, 'i': int, 'b': bool}.get(kd, float))


@handler('ones_like')
def h_ones_like(x, dtype=None, *a, **k):
    arr, kd = raw(x)
    return _full(arr.shape, 1.0 if kd == 'f' else 1,
                 dtype or {'f': float, 'i': int, 'b': bool}.get(kd, float))


H['empty_like'] = h_zeros_like


@handler('full_like')
def h_full_like(x, v, dtype=None, *a, **k):
    arr, kd = raw(x)
    return _full(arr.shape, v,
                 dtype or {'f': float, 'i': int, 'b': bool}.get(kd, float))


@handler('identity', 'eye')
def h_identity(n, M=None, k=0, dtype=float, **kw):
    if dtype_kind(M) is not None and not isinstance(M, (int, np.integer)):
        dtype, M = M, None
    n = int(n)
    m = n if M is None else int(M)
    if dtype_kind(dtype) == 'i':
        return np.eye(n, m, k, dtype=int)
    if dtype_kind(dtype) == 'b':
        return np.eye(n, m, k, dtype=bool)
    return mk(np.eye(n, m, k).astype(object), 'f')


@handler('matmul')
def h_matmul(a, b, *args, **kw):
    (c, ok) = concrete((a, b))
    if ok:
        return wrapout(np.matmul(*c))
    A, ka = raw(a)
    B, kb = raw(b)
    k = join_kind(ka, kb)
    if k == 'b':
        k = 'i'
    A, B = obj(A), obj(B)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough '
                         'dimensions')
    sa, sb = A.ndim == 1, B.ndim == 1
    if sa:
        A = A[None, :]
    if sb:
        B = B[:, None]
    if A.ndim != 2 or B.ndim != 2:
        raise Limit('matmul of stacks')
    if A.shape[1] != B.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core '
                         'dimension 0')
    zero = 0 if k == 'i' else 0.0
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        row = [(t, x) for t, x in enumerate(A[i]) if is_sym(x) or x != 0]
        for j in range(B.shape[1]):
            s = zero
            for t, x in row:
                y = B[t, j]
                if is_sym(y) or y != 0:
                    s = s + x * y
            out[i, j] = s
    if sb:
        out = out[:, 0]
    if sa:
        out = out[0]
    if not isinstance(out, np.ndarray):
        return out
    return result(out, k)


@handler('dot')
def h_dot(a, b, out=None):
    A, B = raw(a)[0], raw(b)[0]
    if A.ndim == 0 or B.ndim == 0:
        return h_array(a) * h_array(b)
    return h_matmul(a, b)


H['inner'] = lambda a, b: h_matmul(a, np.transpose(raw(b)[0]) if
                                   raw(b)[0].ndim == 1 else h_array(b).T)


@handler('vdot')
def h_vdot(a, b):
    return h_matmul(h_ravel(a), h_ravel(b))


@handler('ravel')
def h_ravel(a, *args):
    x, k = raw(a)
    return result(x.ravel(), k)


def _axis_nodes(x, axis, comb, keepdims=False):
    a, k = raw(x)
    if axis is None:
        n = comb([node_of(e) for e in a.ravel()])
        return mkbool(n)
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, 0)
    out = np.empty(b.shape[1:], dtype=bool)
    for idx in np.ndindex(*out.shape):
        out[idx] = sym.branch(comb([node_of(b[(i,) + idx])
                                    for i in range(b.shape[0])]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.ndim else bool(out)


@handler('any', 'sometrue')
def h_any(x, axis=None, out=None, keepdims=False, **kw):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    return _axis_nodes(x, axis, OR, keepdims)


@handler('all', 'alltrue')
def h_all(x, axis=None, out=None, keepdims=False, **kw):
    return _axis_nodes(x, axis, AND, keepdims)


@handler('count_nonzero')
def h_count_nonzero(x, axis=None, **kw):
    a, k = raw(x)
    b = np.array([bool(e) for e in a.ravel()], dtype=bool).reshape(a.shape)
    return np.count_nonzero(b, axis=axis)


@handler('sum')
def h_sum(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    return _reduce(np.add, x, axis, keepdims, np._NoValue)


@handler('prod')
def h_prod(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _reduce(np.multiply, x, axis, keepdims, np._NoValue)


@handler('mean')
def h_mean(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a, k = raw(x)
    n = a.size if axis is None else a.shape[axis]
    return array_ufunc(np.true_divide, '__call__',
                       h_sum(x, axis, keepdims=keepdims), n)


@handler('amin', 'min', 'nanmin')
def h_min(x, axis=None, out=None, keepdims=False, initial=np._NoValue, **kw):
    return _reduce(np.minimum, x, axis, keepdims, initial)


@handler('amax', 'max', 'nanmax')
def h_max(x, axis=None, out=None, keepdims=False, initial=np._NoValue, **kw):
    return _reduce(np.maximum, x, axis, keepdims, initial)


@handler('ptp')
def h_ptp(x, axis=None, **kw):
    return array_ufunc(np.subtract, '__call__', h_max(x, axis),
                       h_min(x, axis))


def _argbest(items, better):
    if not items:
        raise ValueError('attempt to get argmax of an empty sequence')
    b = 0
    for i in range(1, len(items)):
        if bool(better(items[i], items[b])):
            b = i
    return b


def _argx(x, axis, better):
    a, k = raw(x)
    a = obj(a)
    if axis is None:
        return np.int64(_argbest(list(a.ravel()), better))
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, 0)
    out = np.empty(b.shape[1:], dtype=int)
    for idx in np.ndindex(*out.shape):
        out[idx] = _argbest([b[(i,) + idx] for i in range(b.shape[0])],
                            better)
    return out if out.ndim else np.int64(out)


@handler('argmax', 'nanargmax')
def h_argmax(x, axis=None, **kw):
    return _argx(x, axis, lambda p, q: p > q)


@handler('argmin', 'nanargmin')
def h_argmin(x, axis=None, **kw):
    return _argx(x, axis, lambda p, q: p < q)


def _order(keys):
    """stable order; keys: list of tuples"""
    def cmp(i, j):
        for p, q in zip(keys[i], keys[j]):
            if bool(p < q):
                return -1
            if bool(q < p):
                return 1
        return 0
    return sorted(range(len(keys)), key=functools.cmp_to_key(cmp))


@handler('argsort')
def h_argsort(x, axis=-1, kind=None, order=None, **kw):
    a, k = raw(x)
    a = obj(a)
    if a.ndim == 0:
        return np.array(0)
    if a.ndim == 1:
        return np.array(_order([(e,) for e in a]), dtype=np.intp)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=np.intp)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = _order([(e,) for e in b[idx]])
    return np.moveaxis(out, -1, axis)


@handler('sort')
def h_sort(x, axis=-1, kind=None, order=None, **kw):
    a, k = raw(x)
    if a.dtype != object and a.dtype.kind in 'ib':
        return np.sort(a, axis=axis)
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    if a.ndim == 1:
        return result(a[_order([(e,) for e in a])], k)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        o = _order([(e,) for e in b[idx]])
        for i, j in enumerate(o):
            out[idx + (i,)] = b[idx + (j,)]
    return result(np.moveaxis(out, -1, axis), k)


@handler('msort')
def h_msort(x):
    return h_sort(x, 0)


@handler('lexsort')
def h_lexsort(keys, axis=-1):
    ks = [obj(raw(q)[0]) for q in keys]
    if not ks:
        return np.array([], dtype=int)
    n = len(ks[0])
    return np.array(_order([tuple(q[i] for q in reversed(ks))
                            for i in range(n)]), dtype=np.intp)


@handler('unique')
def h_unique(x, return_index=False, return_inverse=False,
             return_counts=False, axis=None, **kw):
    c, ok = concrete(x)
    if ok:
        return wrapout(np.unique(c, return_index, return_inverse,
                                 return_counts, axis))
    a, k = raw(x)
    if axis is not None and a.ndim == 2 and axis in (0, -2):
        keys = [tuple(r) for r in obj(a)]
    elif axis is None:
        a = obj(a).ravel()
        keys = [(e,) for e in a]
    else:
        raise Limit('unique axis')
    o = _order(keys)
    groups = []
    for i in o:
        if groups and all(bool(p == q) for p, q in
                          zip(keys[groups[-1][0]], keys[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    res = [result(obj(a)[[g[0] for g in groups]] if groups else obj(a)[:0], k)]
    if return_index:
        res.append(np.array([g[0] for g in groups], dtype=int))
    if return_inverse:
        inv = np.empty(len(keys), dtype=int)
        for gi, g in enumerate(groups):
            for i in g:
                inv[i] = gi
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g) for g in groups], dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


def _member(e, items):
    return mkbool(OR([node_of(e == y) for y in items]))


@handler('in1d')
def h_in1d(a, b, assume_unique=False, invert=False, **kw):
    x = obj(raw(a)[0]).ravel()
    y = list(obj(raw(b)[0]).ravel())
    r = np.array([bool(_member(e, y)) for e in x], dtype=bool)
    return ~r if invert else r


@handler('isin')
def h_isin(a, b, assume_unique=False, invert=False, **kw):
    return h_in1d(a, b, invert=invert).reshape(raw(a)[0].shape)


@handler('intersect1d')
def h_intersect1d(a, b, assume_unique=False, return_indices=False):
    c, ok = concrete((a, b))
    if ok:
        return wrapout(np.intersect1d(c[0], c[1], assume_unique,
                                      return_indices))
    if return_indices:
        raise Limit('intersect1d indices')
    u = h_unique(a)
    return u[h_in1d(u, b)]


@handler('setdiff1d')
def h_setdiff1d(a, b, assume_unique=False):
    c, ok = concrete((a, b))
    if ok:
        return wrapout(np.setdiff1d(c[0], c[1], assume_unique))
    u = h_unique(a)
    return u[h_in1d(u, b, invert=True)]


@handler('union1d')
def h_union1d(a, b):
    return h_unique(h_concatenate((h_ravel(a), h_ravel(b))))


@handler('nonzero', 'flatnonzero', 'argwhere')
def h_nonzero(x):
    a, k = raw(x)
    b = np.array([bool(e) for e in a.ravel()], dtype=bool).reshape(a.shape)
    return np.nonzero(b)


H['flatnonzero'] = lambda x: h_nonzero(h_ravel(x))[0]
H['argwhere'] = lambda x: np.transpose(h_nonzero(x))


@handler('where')
def h_where(cond, x=None, y=None):
    if x is None and y is None:
        return h_nonzero(cond)
    c, _ = raw(cond)
    X, kx = raw(x)
    Y, ky = raw(y)
    c, X, Y = np.broadcast_arrays(c, obj(X), obj(Y))
    out = np.empty(c.shape, dtype=object)
    for idx in np.ndindex(*c.shape):
        out[idx] = X[idx] if bool(c[idx]) else Y[idx]
    if out.ndim == 0:
        return out[()]
    return result(out, join_kind(kx, ky))


@handler('around', 'round', 'round_', 'fix')
def h_around(x, decimals=0, out=None):
    a, k = raw(x)
    if a.dtype.kind in 'ib':
        return np.around(a, decimals)
    if a.ndim == 0:
        e = a[()]
        return e.__round__(decimals) if is_sym(e) else float(
            np.around(float(e), decimals))
    if decimals >= 5 and a.dtype.kind == 'O':
        # the values of one array are rounded alike
        return result(a.copy(), k)
    res = np.empty(a.shape, dtype=object)
    rf = res.reshape(-1)
    for i, e in enumerate(obj(a).ravel()):
        rf[i] = e.__round__(decimals) if is_sym(e) else float(
            np.around(float(e), decimals))
    return result(res, k)


@handler('array_equal')
def h_array_equal(a, b, equal_nan=False):
    A, B = raw(a)[0], raw(b)[0]
    if A.shape != B.shape:
        return False
    return bool(mkbool(AND([node_of(x == y) for x, y in
                            zip(A.ravel(), B.ravel())])))


@handler('allclose', 'isclose')
def h_allclose(a, b, *args, **kw):
    A, B = np.broadcast_arrays(obj(raw(a)[0]), obj(raw(b)[0]))
    return bool(mkbool(AND([node_of(_close(x, y)) for x, y in
                            zip(A.ravel(), B.ravel())])))


def _close(x, y):
    if is_sym(x) or is_sym(y):
        return x == y
    return bool(np.isclose(float(x), float(y)))


def h_isclose(a, b, *args, **kw):
    A, B = np.broadcast_arrays(obj(raw(a)[0]), obj(raw(b)[0]))
    if A.ndim == 0:
        return _close(A[()], B[()])
    return np.array([bool(_close(x, y)) for x, y in
                     zip(A.ravel(), B.ravel())]).reshape(A.shape)


H['isclose'] = h_isclose


@handler('concatenate')
def h_concatenate(arrs, axis=0, out=None, dtype=None, **kw):
    parts = [raw(a) for a in arrs]
    if not any(p[1] == 'f' or p[0].dtype == object for p in parts):
        return wrapout(np.concatenate([p[0] for p in parts], axis=axis))
    k = join_kind(*[p[1] for p in parts])
    r = np.concatenate([obj(p[0]) for p in parts], axis=axis)
    r = result(r, k)
    return r if dtype is None else astype(r, dtype)


@handler('append')
def h_append(a, v, axis=None):
    A, ka = raw(a)
    V, kv = raw(v)
    if axis is None:
        A, V, axis = A.ravel(), V.ravel(), 0
    return h_concatenate((mk(obj(A), ka) if ka in 'fO' else result(A, ka),
                          mk(obj(V), kv) if kv in 'fO' else result(V, kv)),
                         axis=axis)


def _stackfun(name):
    real = getattr(np, name)

    def f(arrs, *a, **kw):
        parts = [raw(x) for x in arrs]
        k = join_kind(*[p[1] for p in parts])
        if k == 'f' or any(p[0].dtype == object for p in parts):
            return result(real([obj(p[0]) for p in parts], *a, **kw), k)
        return real([p[0] for p in parts], *a, **kw)
    return f


for _n in ('vstack', 'hstack', 'stack', 'column_stack', 'dstack',
           'row_stack'):
    H[_n] = _stackfun(_n)


@handler('insert')
def h_insert(a, idx, vals, axis=None):
    c, ok = concrete((a, idx, vals))
    if ok:
        return wrapout(np.insert(c[0], c[1], c[2], axis))
    A, ka = raw(a)
    V, kv = raw(vals)
    return result(np.insert(obj(A), fix_index1(idx), obj(V), axis),
                  join_kind(ka) if ka != 'f' or A.size else
                  join_kind(ka, kv))


def _shapefun(name):
    real = getattr(np, name)

    def f(x, *a, **kw):
        A, k = raw(x)
        r = real(A, *[fix_index1(i) if isinstance(i, SymArray) else i
                      for i in a], **kw)
        return result(r, k)
    return f


for _n in ('reshape', 'transpose', 'tile', 'repeat', 'flip', 'flipud',
           'fliplr', 'roll', 'resize', 'squeeze', 'expand_dims', 'swapaxes',
           'moveaxis', 'triu', 'tril', 'diag', 'diagonal', 'delete',
           'atleast_1d', 'atleast_2d', 'take', 'rot90', 'broadcast_to',
           'ravel'):
    H[_n] = _shapefun(_n)
h_diag = H['diagonal']


def h_transpose(x, axes=None):
    if isinstance(x, SymArray):
        return mk(np.transpose(x.view(np.ndarray), axes), x.kind)
    A, k = raw(x)
    return result(np.transpose(A, axes), k)


H['transpose'] = h_transpose


def h_reshape(x, *a, **kw):
    if isinstance(x, SymArray):
        return mk(np.reshape(x.view(np.ndarray), *a, **kw), x.kind)
    A, k = raw(x)
    return result(np.reshape(A, *a, **kw), k)


H['reshape'] = h_reshape


def _viewfun(name):
    real = getattr(np, name)

    def one(r, k, view):
        return mk(r, k) if view else result(r, k)

    def f(x, *a, **kw):
        view = isinstance(x, SymArray)
        A, k = raw(x)
        r = real(A, *[fix_index1(i) if isinstance(i, SymArray) else i
                      for i in a], **kw)
        if isinstance(r, (list, tuple)):
            return [one(q, k, view) for q in r]
        return one(r, k, view)
    return f


# functions that return views: writing to the result writes to the array
VIEWS = ('squeeze', 'expand_dims', 'swapaxes', 'moveaxis', 'ravel', 'flip',
         'flipud', 'fliplr', 'rot90', 'diagonal', 'split', 'array_split',
         'vsplit', 'hsplit', 'rollaxis')
for _n in VIEWS:
    H[_n] = _viewfun(_n)
h_diag = H['diagonal']


def _atleast(name):
    real = getattr(np, name)

    def f(*xs):
        r = []
        for x in xs:
            if isinstance(x, SymArray):
                r.append(mk(real(x.view(np.ndarray)), x.kind))
            else:
                A, k = raw(x)
                r.append(result(real(A), k))
        return r[0] if len(r) == 1 else r
    return f


for _n in ('atleast_1d', 'atleast_2d', 'atleast_3d'):
    H[_n] = _atleast(_n)


# functions that write to their first argument

def _flat(a):
    return np.arange(a.size).reshape(a.shape)


def _store(a, i, v):
    a[np.unravel_index(int(i), a.shape)] = v


def _inplace(name):
    real = getattr(np, name)

    def deco(f):
        def g(a, *args, **kw):
            if not isinstance(a, SymArray) and not has_sym(args):
                c, ok = concrete((tuple(args), dict(kw)))
                if ok:
                    return real(a, *c[0], **c[1])
            return f(a, *args, **kw)
        H[name] = g
        return g
    return deco


@_inplace('fill_diagonal')
def h_fill_diagonal(a, val, wrap=False):
    n = _flat(a)
    m = n.copy()
    np.fill_diagonal(m, -1, wrap)
    vals = list(obj(raw(val)[0]).ravel())
    for q, i in enumerate(n[m == -1].ravel()):
        _store(a, i, vals[q % len(vals)])


@_inplace('copyto')
def h_copyto(a, src, casting='same_kind', where=True):
    v = np.broadcast_to(obj(raw(src)[0]), a.shape)
    w = np.broadcast_to(np.asarray(where if not isinstance(where, SymArray)
                                   else truth(where)), a.shape)
    v, w = v.ravel().copy(), w.ravel()
    for i in range(a.size):
        if w[i]:
            _store(a, i, v[i])


def truth(m):
    m = raw(m)[0]
    return np.array([bool(x) for x in m.ravel()], dtype=bool).reshape(m.shape)


@_inplace('put')
def h_put(a, ind, v, mode='raise'):
    vals = list(obj(raw(v)[0]).ravel())
    for q, i in enumerate(np.asarray(fix_index1(ind)).ravel()):
        i = int(i)
        if not -a.size <= i < a.size:
            raise IndexError('index out of bounds')
        _store(a, i % a.size, vals[q % len(vals)])


@_inplace('place')
def h_place(a, mask, v):
    vals = list(obj(raw(v)[0]).ravel())
    q = 0
    for i, t in enumerate(truth(mask).ravel()):
        if t:
            _store(a, i, vals[q % len(vals)])
            q += 1


@_inplace('putmask')
def h_putmask(a, mask, v):
    vals = list(obj(raw(v)[0]).ravel())
    for i, t in enumerate(truth(mask).ravel()):
        if t:
            _store(a, i, vals[i % len(vals)])


@_inplace('put_along_axis')
def h_put_along_axis(a, ind, v, axis):
    n = _flat(a)
    tgt = np.take_along_axis(n, np.asarray(fix_index1(ind)), axis)
    vals = np.broadcast_to(obj(raw(v)[0]), tgt.shape).ravel().copy()
    for q, i in enumerate(tgt.ravel()):
        _store(a, i, vals[q])


INPLACE = ('fill_diagonal', 'copyto', 'put', 'place', 'putmask',
           'put_along_axis')


@handler('cumsum')
def h_cumsum(x, axis=None, **kw):
    a, k = raw(x)
    a = obj(a)
    if axis is None or a.ndim == 1:
        out, s = [], None
        for e in a.ravel():
            s = e if s is None else s + e
            out.append(s)
        r = np.empty(len(out), dtype=object)
        r[:] = out
        return result(r, 'i' if k == 'b' else k)
    return wrapout(np.cumsum(a, axis=axis))


@handler('diff')
def h_diff(x, n=1, axis=-1, **kw):
    a = h_array(x)
    for _ in range(n):
        if a.ndim != 1:
            raise Limit('diff')
        a = a[1:] - a[:-1]
    return a


@handler('searchsorted')
def h_searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Limit('searchsorted sorter')
    items = list(obj(raw(a)[0]))
    V, k = raw(v)

    def one(e):
        lo, hi = 0, len(items)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(items[mid] < e) if side == 'left' else \
                    not bool(e < items[mid]):
                lo = mid + 1
            else:
                hi = mid
        return lo
    if V.ndim == 0:
        return np.int64(one(V[()]))
    return np.array([one(e) for e in V.ravel()], dtype=int).reshape(V.shape)


@handler('size')
def h_size(x, axis=None):
    a, _ = raw(x)
    return np.size(a, axis)


@handler('shape')
def h_shape(x):
    return raw(x)[0].shape


@handler('ndim')
def h_ndim(x):
    return raw(x)[0].ndim


@handler('isscalar')
def h_isscalar(x):
    return isinstance(x, SymBase) or np.isscalar(x)


@handler('clip')
def h_clip(x, lo, hi, **kw):
    return array_ufunc(np.minimum, '__call__',
                       array_ufunc(np.maximum, '__call__', x, lo), hi)


@handler('outer')
def h_outer(a, b, out=None):
    A, B = h_ravel(a), h_ravel(b)
    return array_ufunc(np.multiply, '__call__', A[:, None], B[None, :])


@handler('trace')
def h_trace(x, *a, **k):
    return h_sum(h_diag(x))


@handler('linspace')
def h_linspace(a, b, num=50, *args, **kw):
    c, ok = concrete((a, b))
    if ok:
        return wrapout(np.linspace(c[0], c[1], num, *args, **kw))
    st = (b - a) / (num - 1)
    return h_array([a + i * st for i in range(num)])


@handler('digitize')
def h_digitize(x, bins, right=False):
    b = list(obj(raw(bins)[0]))
    if len(b) > 1 and bool(b[0] > b[-1]):
        raise Limit('digitize')
    return h_searchsorted(bins, x, 'left' if right else 'right')


@handler('bincount')
def h_bincount(x, weights=None, minlength=0):
    if weights is not None:
        raise Limit('bincount weights')
    v = np.array([int(e) for e in raw(x)[0].ravel()], dtype=int)
    return np.bincount(v, minlength=int(minlength))


@handler('nditer')
def h_nditer(x, *a, **k):
    if a or k or not isinstance(x, np.ndarray):
        raise Limit('nditer')
    return iter([raw(e)[0] if not is_sym(e) else e
                 for e in raw(x)[0].ravel()])


@handler('median', 'std', 'var', 'percentile', 'quantile', 'cross')
def h_unsupported(*a, **k):
    raise Limit('numpy function')


@handler('einsum')
def h_einsum(sub, *ops, **kw):
    if not isinstance(sub, str) or '...' in sub or kw.get('out') is not None:
        raise Limit('einsum')
    sub = sub.replace(' ', '')
    ins, _, res = sub.partition('->')
    ins = ins.split(',')
    if '->' not in sub:
        alls = ''.join(ins)
        res = ''.join(sorted(c for c in set(alls) if alls.count(c) == 1))
    arrs, kinds = zip(*[raw(o) for o in ops])
    dims = {}
    for lab, a in zip(ins, arrs):
        if len(lab) != a.ndim:
            raise ValueError('einsum subscripts')
        for c, n in zip(lab, a.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('operands could not be broadcast together')
    summed = [c for c in dims if c not in res]
    out = np.empty([dims[c] for c in res], dtype=object)
    k = join_kind(*kinds)
    for idx in np.ndindex(*out.shape):
        at = dict(zip(res, idx))
        s = None
        for jdx in np.ndindex(*[dims[c] for c in summed]):
            at.update(zip(summed, jdx))
            t = None
            for lab, a in zip(ins, arrs):
                e = obj(a)[tuple(at[c] for c in lab)]
                t = e if t is None else t * e
            s = t if s is None else s + t
        out[idx] = (0 if k == 'i' else 0.0) if s is None else s
    if out.ndim == 0:
        return out[()]
    return result(out, k)


@handler('tensordot')
def h_tensordot(a, b, axes=2):
    A, B = h_array(a), h_array(b)
    if isinstance(axes, (int, np.integer)):
        ia = list(range(A.ndim - axes, A.ndim))
        ib = list(range(axes))
    else:
        ia, ib = [[q] if isinstance(q, (int, np.integer)) else list(q)
                  for q in axes]
    la = [chr(97 + i) for i in range(A.ndim)]
    lb = [chr(65 + i) for i in range(B.ndim)]
    for i, j in zip(ia, ib):
        lb[j] = la[i]
    res = [c for i, c in enumerate(la) if c not in [la[q] for q in ia]] + \
        [c for c in lb if c not in la]
    return h_einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(res)),
                    A, B)


@handler('kron')
def h_kron(a, b):
    A, B = h_array(a), h_array(b)
    if A.ndim != 2 or B.ndim != 2:
        raise Limit('kron')
    m = array_ufunc(np.multiply, '__call__', A[:, None, :, None],
                    B[None, :, None, :])
    return H['reshape'](m, (A.shape[0] * B.shape[0],
                            A.shape[1] * B.shape[1]))


@handler('vectorize')
class h_vectorize(object):
    def __init__(self, f, *a, **k):
        self.f = f

    def __call__(self, *a):
        arrs = np.broadcast_arrays(*[obj(raw(x)[0]) for x in a])
        out = np.empty(arrs[0].shape, dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = self.f(*[q[idx] for q in arrs])
        return wrapout(out)


@handler('norm')
def h_norm(x, ord=None, axis=None, keepdims=False):
    c, ok = concrete(x)
    if ok:
        return wrapout(np.linalg.norm(c, ord, axis, keepdims))
    a = h_array(x)
    if ord in (1,):
        return h_sum(array_ufunc(np.absolute, '__call__', a), axis)
    if ord not in (None, 2, 'fro'):
        if ord == np.inf:
            return h_max(array_ufunc(np.absolute, '__call__', a), axis)
        raise Limit('norm')
    s = h_sum(a * a, axis, keepdims=keepdims)
    if isinstance(s, np.ndarray):
        return array_ufunc(np.sqrt, '__call__', s)
    return sym.sym_sqrt(s)


# --------------------------------------------------------------- random stub

class RandomShim(object):
    """numpy.random: arbitrary values of the documented range"""

    def _name(self):
        c = sym.ctx()
        st = getattr(c, 'stream', None)
        if getattr(c, 'draws', None) is not None:
            c.draws -= 1
            if c.draws < 0:
                raise sym.PathAbort()
        if st is None:
            c.aux += 1
            return 'rnd%d' % c.aux
        st[1] += 1
        return 'rnd_s%s_%d' % tuple(st)

    def _u(self, lo=0, hi=1):
        return sym.new_real(self._name(), lo, hi, hi_open=True,
                            default=Fraction(1, 4))

    def seed(self, s=None):
        # the values that follow are a function of the seed
        sym.ctx().stream = None if s is None else [s, 0]

    def rand(self, *shape):
        if not shape:
            return self._u()
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self._u()
        return mk(a, 'f')

    def random(self, size=None):
        if size is None:
            return self._u()
        if isinstance(size, (int, np.integer)):
            size = (size,)
        return self.rand(*size)
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.random(size)
        return low + r * (high - low)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is not None:
            if isinstance(size, (int, np.integer)):
                size = (size,)
            a = np.empty(size, dtype=object)
            for i in np.ndindex(*size):
                a[i] = self.randint(low, high)
            return mk(a, 'i')
        if int(low) == int(high) - 1:
            return int(low)
        return sym.new_int(self._name().replace('rnd', 'rni'), int(low),
                           int(high) - 1)
    integers = randint

    def choice(self, a, *args, **kw):
        if args or kw:
            raise Limit('choice')
        if isinstance(a, (int, np.integer)):
            return int(self.randint(a))
        return a[int(self.randint(len(a)))]

    def default_rng(self, s=None):
        if s is not None:
            self.seed(s)
        return self
    RandomState = default_rng

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Limit('random.' + n)


# ------------------------------------------------------------------- module

def call(func, args, kwargs):
    """numpy function reached through __array_function__"""
    name = getattr(func, '__name__', '')
    h = H.get(name)
    if name in INPLACE or is_view_call(name, args):
        return h(*args, **kwargs)
    c, ok = concrete((tuple(args), dict(kwargs)))
    if ok:
        return wrapout(func(*c[0], **c[1]))
    if h is not None:
        return h(*args, **kwargs)
    r = func(*[strip(a) for a in args],
             **{k: strip(v) for k, v in kwargs.items()})
    return wrapout(r)


def wrap_function(name, f):
    h = H.get(name)
    always = name in ALWAYS

    @functools.wraps(f)
    def g(*args, **kwargs):
        if always or is_view_call(name, args):
            return h(*args, **kwargs)
        c, ok = concrete((tuple(args), dict(kwargs)))
        if ok:
            return wrapout(f(*c[0], **c[1]))
        if h is not None:
            return h(*args, **kwargs)
        if isinstance(f, np.ufunc):
            return array_ufunc(f, '__call__', *args, **kwargs)
        return wrapout(f(*[strip(a) for a in args],
                         **{k: strip(v) for k, v in kwargs.items()}))
    return g


ALWAYS = {'zeros', 'ones', 'empty', 'full', 'identity', 'eye', 'array',
          'asarray', 'asanyarray', 'ascontiguousarray', 'copy', 'zeros_like',
          'ones_like', 'empty_like', 'full_like', 'transpose', 'reshape',
          'vectorize'} | set(INPLACE)


def is_view_call(name, args):
    return name in VIEWS + ('atleast_1d', 'atleast_2d', 'atleast_3d') and \
        any(isinstance(a, SymArray) for a in args[:1])


class UfuncShim(object):
    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        c, ok = concrete(tuple(a))
        out = k.get('out')
        if ok and not isinstance(out, SymArray) and not (
                isinstance(out, tuple)):
            return wrapout(self._f(*c, **k))
        if out is not None and not isinstance(out, tuple):
            k['out'] = (out,)
        return array_ufunc(self._f, '__call__', *a, **k)

    def reduce(self, x, axis=0, **k):
        return array_ufunc(self._f, 'reduce', h_array(x), axis=axis, **k)

    def accumulate(self, x, *a, **k):
        return array_ufunc(self._f, 'accumulate', h_array(x), *a, **k)

    def outer(self, a, b, **k):
        return array_ufunc(self._f, 'outer', h_array(a), h_array(b), **k)

    def at(self, a, *r):
        return array_ufunc(self._f, 'at', a, *r)


class Shim(types.ModuleType):
    def __init__(self, name, real, extra=None):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__['_extra'] = extra or {}
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        ex = self.__dict__['_extra']
        if n in ex:
            v = ex[n]
            setattr(self, n, v)
            return v
        r = getattr(self.__dict__['_real'], n)
        if isinstance(r, np.ufunc):
            r = UfuncShim(r)
        elif isinstance(r, types.ModuleType):
            r = Shim(self.__name__ + '.' + n, r)
        elif isinstance(r, type):
            if n in H:
                r = H[n]
        elif callable(r):
            r = wrap_function(n, r)
        setattr(self, n, r)
        return r


def concrete_only(f):
    def g(*a, **k):
        c, ok = concrete((a, k))
        if not ok:
            raise Limit('numpy function')
        return wrapout(f(*c[0], **c[1]))
    return g


def make_numpy():
    m = Shim('numpy', np)
    m.random = RandomShim()
    m.linalg = Shim('numpy.linalg', np.linalg,
                    dict([(n, concrete_only(getattr(np.linalg, n)))
                          for n in ('matrix_rank', 'solve', 'inv', 'det',
                                    'lstsq', 'svd', 'qr', 'pinv')],
                         norm=h_norm))

    class R_(object):
        def __getitem__(self, idx):
            if isinstance(idx, tuple):
                return h_concatenate([np.atleast_1d(raw(i)[0]) if not
                                      isinstance(i, slice) else np.r_[i]
                                      for i in idx])
            return h_array(np.r_[idx])
    m.r_ = R_()

    class C_(object):
        def __getitem__(self, idx):
            return H['column_stack'](list(idx))
    m.c_ = C_()
    return m


# builtin float/int as seen by the code under test

class _MetaF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (
            isinstance(x, (SymReal, SymRoot)) and not (
                isinstance(x, SymReal) and x.isint))

    def __subclasscheck__(cls, c):
        return c is symfloat or c is float


class symfloat(metaclass=_MetaF):
    def __new__(cls, x=0.0):
        if isinstance(x, (SymReal, SymRoot, SymI, Fraction)):
            return to_float(x)
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted')
            return symfloat(x.view(np.ndarray).ravel()[0])
        return float(x)


class _MetaI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, SymI) or (
            isinstance(x, SymReal) and x.isint)

    def __subclasscheck__(cls, c):
        return c is symint or c is int or c is bool


class symint(metaclass=_MetaI):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymI):
            return x
        if isinstance(x, SymReal) and x.isint:
            return x
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted')
            return symint(x.view(np.ndarray).ravel()[0])
        return int(x, *a)
