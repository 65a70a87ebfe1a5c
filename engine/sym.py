"""Symbolic values with a concrete shadow (concolic execution).

Every symbolic value carries the exact value it has under the current input
assignment.  Python branches on symbolic conditions follow the shadow and are
recorded in the trace of the run; the explorer (explore.py) asks the solver for
inputs that take the other side of each recorded branch.

  SymReal  rational functions of real (or integer) inputs, exact
  SymRoot  c * sqrt(P) with P a polynomial (Euclidean distances and norms)
  SymI     bounded integers as bit-vectors (coefficients mod p, ...)
  SymBool  conditions
"""
import math
import operator
from fractions import Fraction

import numpy as np
import z3

W = 16  # width of the bit-vectors


class PathAbort(BaseException):
    """The current input violates an assumption: the path is not counted."""


class Limit(Exception):
    """The encoding cannot represent this operation."""


class Ctx(object):
    def __init__(self, assign=None, pins=None):
        self.assign = dict(assign or {})
        self.pins = pins or {}
        self.decls = {}          # name -> (kind, lo, hi)
        self.base = []           # z3 constraints on the inputs
        self.trace = []          # [node, taken, pin]
        self.signs = {}          # poly key -> frozenset of possible signs
        self.known = {}          # z3 id -> (expr, bool)
        self.overflow = []       # z3 conditions: no overflow (must hold)
        self.incomplete = set()
        self.obligations = []    # (index in the trace, node, message)
        self.checks = 0
        self.aux = 0
        self.angles = {}
        self.anglist = []
        self.npins = 0


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    return c


def ctx():
    return CTX


# ---------------------------------------------------------------- polynomials

_z3vars = {}
_varkind = {}
_order = {}


def _vid(name):
    if name not in _order:
        _order[name] = len(_order)
    return name


def z3var(name):
    return _z3vars[name]


class Poly(object):
    __slots__ = ('d', '_k', '_sh')

    def __init__(self, d):
        self.d = d
        self._k = None
        self._sh = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def add(self, o, s=1):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + s * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        if c == 0:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.d.items()})

    def mul(self, o):
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        d = {}
        for m, a in self.d.items():
            for n, b in o.d.items():
                k = tuple(sorted(m + n))
                v = d.get(k, 0) + a * b
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        if len(d) > 4000:
            raise Limit('polynomial too large')
        return Poly(d)

    def shadow(self):
        if self._sh is None:
            a = CTX.assign
            s = Fraction(0)
            for m, c in self.d.items():
                v = c
                for x in m:
                    v = v * a[x]
                s += v
            self._sh = s
        return self._sh

    def degree(self):
        return max((len(m) for m in self.d), default=0)


PZERO = Poly({})


def pconst(c):
    c = Fraction(c)
    return Poly({(): c}) if c else PZERO


_zp = {}


def poly_z3(p):
    k = p.key()
    e = _zp.get(k)
    if e is None:
        terms = []
        for m, c in k:
            fs = []
            for x in m:
                v = z3var(x)
                fs.append(z3.ToReal(v) if _varkind[x] == 'int' else v)
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            e = z3.RealVal(0)
        elif len(terms) == 1:
            e = terms[0]
        else:
            e = z3.Sum(terms)
        _zp[k] = e
    return e


# ------------------------------------------------------------------ conditions
# node: True | False | ('s', key, poly, frozenset(signs)) | ('z', expr, shadow)
#       | ('and', [nodes]) | ('or', [nodes]) | ('not', node)

ALL = frozenset((-1, 0, 1))


def sign_node(poly, signs):
    """sign(poly) in signs"""
    c = poly.const()
    if c is not None:
        s = (c > 0) - (c < 0)
        return s in signs
    k = poly.key()
    lc = k[0][1]
    if lc != 1:
        poly = poly.scale(1 / lc)
        k = poly.key()
        if lc < 0:
            signs = frozenset(-s for s in signs)
    return ('s', k, poly, frozenset(signs))


def node_shadow(n):
    if n is True or n is False:
        return n
    t = n[0]
    if t == 's':
        v = n[2].shadow()
        return ((v > 0) - (v < 0)) in n[3]
    if t == 'z':
        return n[2]
    if t == 'and':
        return all(node_shadow(x) for x in n[1])
    if t == 'or':
        return any(node_shadow(x) for x in n[1])
    return not node_shadow(n[1])


def node_z3(n):
    if n is True or n is False:
        return z3.BoolVal(n)
    t = n[0]
    if t == 's':
        e = poly_z3(n[2])
        s = n[3]
        if s == {-1}:
            return e < 0
        if s == {-1, 0}:
            return e <= 0
        if s == {0}:
            return e == 0
        if s == {1}:
            return e > 0
        if s == {0, 1}:
            return e >= 0
        if s == {-1, 1}:
            return e != 0
        return z3.BoolVal(len(s) == 3)
    if t == 'z':
        return n[1]
    if t == 'and':
        return z3.And([node_z3(x) for x in n[1]])
    if t == 'or':
        return z3.Or([node_z3(x) for x in n[1]])
    return z3.Not(node_z3(n[1]))


def simp(n):
    """use the decisions already taken on this path"""
    if n is True or n is False:
        return n
    t = n[0]
    if t == 's':
        k = CTX.signs.get(n[1])
        if k is not None:
            if k <= n[3]:
                return True
            if not (k & n[3]):
                return False
        return n
    if t == 'z':
        k = CTX.known.get(n[1].get_id())
        return n if k is None else k[1]
    if t == 'and':
        out = []
        for x in n[1]:
            x = simp(x)
            if x is False:
                return False
            if x is not True:
                out.append(x)
        return True if not out else (out[0] if len(out) == 1
                                     else ('and', out))
    if t == 'or':
        out = []
        for x in n[1]:
            x = simp(x)
            if x is True:
                return True
            if x is not False:
                out.append(x)
        return False if not out else (out[0] if len(out) == 1
                                      else ('or', out))
    x = simp(n[1])
    if x is True or x is False:
        return not x
    return ('not', x)


def learn(n, val):
    t = n[0]
    if t == 's':
        k = CTX.signs.get(n[1], ALL)
        CTX.signs[n[1]] = (k & n[3]) if val else (k - n[3])
    elif t == 'z':
        CTX.known[n[1].get_id()] = (n[1], val)
    elif t == 'not':
        learn(n[1], not val)
    elif (t == 'and' and val) or (t == 'or' and not val):
        for x in n[1]:
            learn(x, val)


def branch(n, pin=None):
    n = simp(n)
    if n is True or n is False:
        return n
    v = node_shadow(n)
    CTX.trace.append((n, v, pin))
    if len(CTX.trace) > 20000:
        raise Limit('path too long')
    learn(n, v)
    return v


def NOT(n):
    if n is True or n is False:
        return not n
    if n[0] == 's':
        return ('s', n[1], n[2], ALL - n[3])
    if n[0] == 'not':
        return n[1]
    return ('not', n)


def AND(ns):
    out = []
    for n in ns:
        if n is False:
            return False
        if n is not True:
            out.append(n)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', out)


def OR(ns):
    out = []
    for n in ns:
        if n is True:
            return True
        if n is not False:
            out.append(n)
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', out)


def node_of(x):
    if isinstance(x, SymBool):
        return x.n
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (SymReal, SymRoot, SymI)):
        return node_of(x != 0)
    return bool(x)


def mkbool(n):
    if n is True or n is False:
        return n
    return SymBool(n)


def pin(make, value, hard_limit=None):
    """fork on the value of an expression: make(c) is the condition that it
    equals c, value its shadow."""
    if simp(make(value)) is True:
        return value
    CTX.npins += 1
    k = (len(CTX.trace), CTX.npins)
    tested = list(CTX.pins.get(k, ()))
    for c in tested:
        if branch(make(c)):
            return c
    if hard_limit is not None and len(tested) >= hard_limit:
        CTX.incomplete.add('real value concretised')
        branch(make(value), pin=(k, None))
    else:
        branch(make(value), pin=(k, tested + [value]))
    return value


# ---------------------------------------------------------------------- values

class SymBase(object):
    __slots__ = ()
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, *a, **k)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Limit('pickle')


class SymBool(SymBase):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return branch(self.n)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(AND([self.n, node_of(o)]))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(OR([self.n, node_of(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.n, node_of(o)
        return mkbool(OR([AND([a, NOT(b)]), AND([NOT(a), b])]))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(NOT(self.n))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return ~(self ^ o)
        return int(bool(self)) == o

    def __ne__(self, o):
        return mkbool(NOT(node_of(self == o)))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __repr__(self):
        return 'SymBool(%r)' % node_shadow(self.n)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self


NUM = (int, float, Fraction, np.integer, np.floating)


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Limit('inf/nan')
    return Fraction(x)


def tonum(fr, isint=False):
    """concrete Python number for an exact rational"""
    if isint and fr.denominator == 1:
        return int(fr)
    f = float(fr)
    if Fraction(f) == fr:
        return f
    return fr


def is_sym(x):
    return isinstance(x, SymBase)


_SGN = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)), '>': frozenset((1,)),
        '>=': frozenset((0, 1)), '==': frozenset((0,)),
        '!=': frozenset((-1, 1))}
_FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


class SymReal(SymBase):
    """num / den, polynomials in the inputs"""
    __slots__ = ('num', 'den', 'isint')

    def __init__(self, num, den=None, isint=False):
        self.num = num
        self.den = den
        self.isint = isint

    # construction -------------------------------------------------------
    @staticmethod
    def make(num, den=None, isint=False):
        if den is not None:
            c = den.const()
            if c is not None:
                num, den = num.scale(1 / c), None
                isint = False
            elif not num.d:
                den = None
            else:
                kn, kd = num.key(), den.key()
                # exact constant ratio
                if len(kn) == len(kd) and all(a[0] == b[0] for a, b in
                                              zip(kn, kd)):
                    r = kn[0][1] / kd[0][1]
                    if all(a[1] == r * b[1] for a, b in zip(kn, kd)):
                        num, den = pconst(r), None
        if den is None:
            c = num.const()
            if c is not None:
                return tonum(c, isint)
        return SymReal(num, den, isint)

    def shadow(self):
        s = self.num.shadow()
        if self.den is not None:
            s = s / self.den.shadow()
        return s

    def parts(self):
        return self.num, self.den, self.isint

    @staticmethod
    def coerce(o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, (bool, np.bool_)):
            return SymReal(pconst(int(o)), None, True)
        if isinstance(o, (int, np.integer)):
            return SymReal(pconst(int(o)), None, True)
        if isinstance(o, (float, np.floating, Fraction)):
            return SymReal(pconst(frac(o)), None, False)
        if isinstance(o, (SymI, SymBool)):
            return SymReal(pconst(int(o)), None, True)
        return None

    # arithmetic ---------------------------------------------------------
    def _addsub(self, o, s):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return o * s
        if isinstance(o, SymRoot):
            return NotImplemented
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        ii = self.isint and b.isint
        if self.den is None and b.den is None:
            return SymReal.make(self.num.add(b.num, s), None, ii)
        if self.den is not None and b.den is not None and \
                self.den.key() == b.den.key():
            return SymReal.make(self.num.add(b.num, s), self.den)
        da = self.den or pconst(1)
        db = b.den or pconst(1)
        return SymReal.make(self.num.mul(db).add(b.num.mul(da), s),
                            da.mul(db))

    def __add__(self, o):
        return self._addsub(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        r = self._addsub(o, -1)
        return r if r is NotImplemented else -r

    def __neg__(self):
        return SymReal(self.num.scale(Fraction(-1)), self.den, self.isint)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, SymRoot)):
            return NotImplemented
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        n = self.num.mul(b.num)
        if self.den is None and b.den is None:
            return SymReal.make(n, None, self.isint and b.isint)
        d = (self.den or pconst(1)).mul(b.den or pconst(1))
        return SymReal.make(n, d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (np.ndarray, SymRoot)):
            return NotImplemented
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        if b.num.const() == 0 or bool(b == 0):
            raise ZeroDivisionError('division by zero')
        n = self.num.mul(b.den) if b.den is not None else self.num
        d = self.den.mul(b.num) if self.den is not None else b.num
        return SymReal.make(n, d)

    def __rtruediv__(self, o):
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        return b.__truediv__(self)

    def __pow__(self, o):
        if isinstance(o, (float, np.floating)) and float(o) == 0.5:
            return sym_sqrt(self)
        if isinstance(o, NUM) and float(o) == int(o) and 0 <= o <= 8:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        raise Limit('pow')

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __floordiv__(self, o):
        q = self / o
        return math.floor(q) if is_sym(q) else float(math.floor(q))

    def __mod__(self, o):
        q = self.__floordiv__(o)
        return self - o * q

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q, self - o * q

    def __rmod__(self, o):
        return SymReal.coerce(o).__mod__(self)

    # comparisons --------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            if math.isinf(o):
                return op in (('<', '<=', '!=') if o > 0
                              else ('>', '>=', '!='))
            if math.isnan(o):
                return op == '!='
        if isinstance(o, SymRoot):
            return o._cmp(self, _FLIP[op])
        b = SymReal.coerce(o)
        if b is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        d = self._addsub(b, -1)
        if not isinstance(d, SymReal):
            s = (d > 0) - (d < 0)
            return s in _SGN[op]
        n = sign_node(d.num, _SGN[op])
        if d.den is not None:
            # make the denominator positive
            if branch(sign_node(d.den, _SGN['>'])):
                pass
            elif branch(sign_node(d.den, _SGN['<'])):
                n = sign_node(d.num, frozenset(-s for s in _SGN[op]))
            else:
                raise ZeroDivisionError('division by zero')
        return mkbool(n)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 0

    # conversions --------------------------------------------------------
    def __float__(self):
        sh = self.shadow()
        v = pin(lambda c: node_of(self == c), sh, hard_limit=2)
        return float(v)

    def __int__(self):
        return self.__trunc__()

    def __index__(self):
        if self.isint:
            sh = int(self.shadow())
            return pin(lambda c: node_of(self == c), sh, hard_limit=40)
        raise TypeError('real value used as an index')

    def __trunc__(self):
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __floor__(self):
        sh = math.floor(self.shadow())
        return pin(lambda c: AND([node_of(self >= c), node_of(self < c + 1)]),
                   sh, hard_limit=200)

    def __ceil__(self):
        sh = math.ceil(self.shadow())
        return pin(lambda c: AND([node_of(self > c - 1), node_of(self <= c)]),
                   sh, hard_limit=200)

    def __round__(self, n=None):
        if self.isint:
            return self
        if n is None or n < 3:
            raise Limit('round')
        return self

    def is_integer(self):
        if self.isint:
            return True
        raise Limit('is_integer')

    def sqrt(self):
        return sym_sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        return 'Sym(%s)' % (self.shadow(),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


# distances of fixed points: floating point value -> exact square.  They compare
# with symbolic distances as the square roots they stand for
SQUARES = {}


def fixed_distance(d):
    q = sum(frac(x) ** 2 for x in d)
    r = _isqrt(q)
    if r is not None:
        return float(r)
    v = math.sqrt(q)
    SQUARES.setdefault(v, q)
    return v


class SymRoot(SymBase):
    """coef * sqrt(P); coef a number or SymReal, P a Poly known to be >= 0"""
    __slots__ = ('coef', 'P')

    def __init__(self, coef, P):
        self.coef = coef
        self.P = P

    @staticmethod
    def make(coef, P):
        if not is_sym(coef) and coef == 0:
            return 0.0
        c = P.const()
        if c is not None:
            r = _isqrt(c)
            if r is not None:
                return coef * tonum(r)
        return SymRoot(coef, P)

    def sgn(self):
        """sign of the coefficient (branches when symbolic)"""
        if is_sym(self.coef):
            if bool(self.coef > 0):
                return 1
            if bool(self.coef < 0):
                return -1
            return 0
        return 1 if self.coef > 0 else -1

    def sq(self):
        """the square"""
        r = self.coef * self.coef * SymReal.make(self.P)
        return r

    def __neg__(self):
        return SymRoot(-self.coef, self.P)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.sgn() >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymRoot):
            if o.P.key() == self.P.key():
                return self.coef * o.coef * SymReal.make(self.P)
            return SymRoot.make(self.coef * o.coef, self.P.mul(o.P))
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        return SymRoot.make(self.coef * (SymReal.make(*b.parts())), self.P)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymRoot):
            # c1 sqrt(P1) / (c2 sqrt(P2)) = c1/(c2 P2) sqrt(P1 P2)
            if o.P.key() == self.P.key():
                return _div(self.coef, o.coef)
            if bool(mkbool(sign_node(o.P, _SGN['==']))):
                raise ZeroDivisionError('division by zero')
            return SymRoot.make(
                _div(self.coef, o.coef * SymReal.make(o.P)),
                self.P.mul(o.P))
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        return SymRoot.make(_div(self.coef, SymReal.make(*b.parts())), self.P)

    def __rtruediv__(self, o):
        b = SymReal.coerce(o)
        if b is None:
            return NotImplemented
        if bool(mkbool(sign_node(self.P, _SGN['==']))):
            raise ZeroDivisionError('division by zero')
        return SymRoot.make(
            _div(SymReal.make(*b.parts()), self.coef * SymReal.make(self.P)),
            self.P)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, NUM) and o == 0:
            return self
        if isinstance(o, SymRoot) and o.P.key() == self.P.key():
            return SymRoot.make(self.coef + o.coef, self.P)
        raise Limit('sum of square roots')
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, NUM) and o == 0:
            return self
        if isinstance(o, SymRoot):
            return self + (-o)
        raise Limit('sum of square roots')

    def __rsub__(self, o):
        return (-self) + o

    def __pow__(self, o):
        if isinstance(o, NUM) and o == 2:
            return self.sq()
        if isinstance(o, NUM) and o == 1:
            return self
        raise Limit('pow')

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (math.isinf(o)
                                                    or math.isnan(o)):
            if math.isnan(o):
                return op == '!='
            return op in (('<', '<=', '!=') if o > 0 else ('>', '>=', '!='))
        if isinstance(o, SymRoot):
            # decide by squares
            s1, s2 = self.sgn(), o.sgn()
            if s1 >= 0 and s2 >= 0:
                return _cmpv(self.sq(), o.sq(), op)
            if s1 <= 0 and s2 <= 0:
                return _cmpv(o.sq(), self.sq(), op)
            z = AND([node_of(_cmpv(self.sq(), 0, '==')),
                     node_of(_cmpv(o.sq(), 0, '=='))])
            if op == '==':
                return mkbool(z)
            if op == '!=':
                return mkbool(NOT(z))
            less = s1 < 0     # self <= o
            if op in ('<', '>'):
                return mkbool(NOT(z)) if (op == '<') == less else False
            return True if (op == '<=') == less else mkbool(z)
        if isinstance(o, float) and o in SQUARES and self.sgn() >= 0:
            return _cmpv(self.sq(), tonum(SQUARES[o]), op)
        b = SymReal.coerce(o)
        if b is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        o = SymReal.make(*b.parts())
        if self.sgn() < 0:
            return (-self)._cmp(-o, _FLIP[op])
        sq, osq = self.sq(), o * o
        pos = node_of(_cmpv(o, 0, '>='))
        gt = node_of(_cmpv(o, 0, '>'))
        if op == '<':
            n = AND([gt, node_of(_cmpv(sq, osq, '<'))])
        elif op == '<=':
            n = AND([pos, node_of(_cmpv(sq, osq, '<='))])
        elif op == '==':
            n = AND([pos, node_of(_cmpv(sq, osq, '=='))])
        elif op == '>=':
            n = NOT(AND([gt, node_of(_cmpv(sq, osq, '<'))]))
        elif op == '>':
            n = NOT(AND([pos, node_of(_cmpv(sq, osq, '<='))]))
        else:
            n = NOT(AND([pos, node_of(_cmpv(sq, osq, '=='))]))
        return mkbool(n)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 0

    def __round__(self, n=None):
        if n is None or n < 3:
            raise Limit('round')
        return self

    def __float__(self):
        sh = sval(self)
        p = self.P.shadow()
        pin(lambda c: sign_node(self.P.add(pconst(c), -1), _SGN['==']), p,
            hard_limit=2)
        return sh

    def __trunc__(self):
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()
    __int__ = __trunc__

    def __floor__(self):
        sh = math.floor(sval(self))
        return pin(lambda c: AND([node_of(self >= c), node_of(self < c + 1)]),
                   sh, hard_limit=200)

    def __ceil__(self):
        sh = math.ceil(sval(self))
        return pin(lambda c: AND([node_of(self > c - 1), node_of(self <= c)]),
                   sh, hard_limit=200)

    def sqrt(self):
        raise Limit('nested sqrt')

    def __repr__(self):
        return 'SymRoot(%r)' % sval(self)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    return tonum(frac(a) / frac(b))


def _cmpv(a, b, op):
    return {'<': operator.lt, '<=': operator.le, '>': operator.gt,
            '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[op](a, b)


def _isqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _square_root_poly(P):
    """Q with Q*Q == P when P is the square of a linear form, else None"""
    if P.degree() != 2:
        return None
    lin = {}
    for m, c in P.d.items():
        if len(m) == 2 and m[0] == m[1]:
            r = _isqrt(c)
            if r is None:
                return None
            lin[m[0]] = r
    if not lin:
        return None
    first = sorted(lin)[0]
    q = {(first,): lin[first]}
    for m, c in P.d.items():
        if len(m) == 2 and m[0] != m[1] and first in m:
            other = m[1] if m[0] == first else m[0]
            q[(other,)] = c / (2 * lin[first])
        elif len(m) == 1 and m[0] == first:
            q[()] = c / (2 * lin[first])
    Q = Poly({k: v for k, v in q.items() if v})
    if Q.mul(Q).key() == P.key():
        return Q
    return None


def sym_sqrt(x):
    if not is_sym(x):
        if isinstance(x, Fraction):
            r = _isqrt(x)
            return tonum(r) if r is not None else math.sqrt(x)
        return math.sqrt(x)
    if isinstance(x, SymI):
        return math.sqrt(int(x))
    if isinstance(x, SymRoot):
        raise Limit('nested sqrt')
    if bool(x < 0):
        raise ValueError('math domain error')
    if x.den is None:
        Q = _square_root_poly(x.num)
        if Q is not None:
            return abs(SymReal.make(Q))
        return SymRoot.make(1, x.num)
    # sqrt(n/d) = sqrt(n d)/d
    return SymRoot.make(1 / abs(SymReal.make(x.den)), x.num.mul(x.den))


# ------------------------------------------------------------ bounded integers

LO, HI = -(1 << (W - 1)), (1 << (W - 1)) - 1


class SymI(SymBase):
    __slots__ = ('e', 'lo', 'hi', 'sh')

    def __init__(self, e, lo, hi, sh):
        self.e, self.lo, self.hi, self.sh = e, lo, hi, sh

    @staticmethod
    def coerce(o):
        if isinstance(o, SymI):
            return o
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if not (LO <= o <= HI):
                raise Limit('constant too large')
            return SymI(z3.BitVecVal(o, W), o, o, o)
        if isinstance(o, (float, np.floating, Fraction)):
            if math.isinf(o) or math.isnan(o):
                return None
            if o == int(o):
                return SymI.coerce(int(o))
        if isinstance(o, SymBool):
            return SymI.coerce(int(o))
        return None

    @staticmethod
    def make(e, lo, hi, sh, noovf=None):
        if lo == hi:
            return lo
        if lo < LO or hi > HI:
            if noovf is None:
                raise Limit('overflow')
            CTX.overflow.append(noovf)
            if not (LO <= sh <= HI):
                raise Limit('overflow')
            lo, hi = max(lo, LO), min(hi, HI)
        return SymI(e, lo, hi, sh)

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = SymI.coerce(o)
        if b is None:
            if isinstance(o, (float, Fraction, np.floating, SymReal,
                              SymRoot)):
                a = int(self)
                return f(o, a) if swap else f(a, o)
            return NotImplemented
        return None, b

    def __add__(self, o):
        r = self._bin(o, operator.add)
        if not isinstance(r, tuple):
            return r
        b = r[1]
        if b.lo == b.hi == 0:
            return self
        return SymI.make(self.e + b.e, self.lo + b.lo, self.hi + b.hi,
                         self.sh + b.sh,
                         z3.And(z3.BVAddNoOverflow(self.e, b.e, True),
                                z3.BVAddNoUnderflow(self.e, b.e))
                         if (self.lo + b.lo < LO or self.hi + b.hi > HI)
                         else None)
    __radd__ = __add__

    def __neg__(self):
        return SymI.make(-self.e, -self.hi, -self.lo, -self.sh,
                         self.e != z3.BitVecVal(LO, W))

    def __pos__(self):
        return self

    def __sub__(self, o):
        r = self._bin(o, operator.sub)
        if not isinstance(r, tuple):
            return r
        b = r[1]
        if b.lo == b.hi == 0:
            return self
        lo, hi = self.lo - b.hi, self.hi - b.lo
        return SymI.make(self.e - b.e, lo, hi, self.sh - b.sh,
                         z3.And(z3.BVSubNoOverflow(self.e, b.e),
                                z3.BVSubNoUnderflow(self.e, b.e, True))
                         if (lo < LO or hi > HI) else None)

    def __rsub__(self, o):
        r = self._bin(o, operator.sub, True)
        if not isinstance(r, tuple):
            return r
        return r[1] - self

    def __mul__(self, o):
        r = self._bin(o, operator.mul)
        if not isinstance(r, tuple):
            return r
        b = r[1]
        if b.lo == b.hi:
            if b.lo == 0:
                return 0
            if b.lo == 1:
                return self
        c = [self.lo * b.lo, self.lo * b.hi, self.hi * b.lo, self.hi * b.hi]
        lo, hi = min(c), max(c)
        return SymI.make(self.e * b.e, lo, hi, self.sh * b.sh,
                         z3.And(z3.BVMulNoOverflow(self.e, b.e, True),
                                z3.BVMulNoUnderflow(self.e, b.e))
                         if (lo < LO or hi > HI) else None)
    __rmul__ = __mul__

    def _pinsmall(self):
        if self.hi - self.lo <= 12:
            return int(self)
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def __mod__(self, o):
        r = self._bin(o, operator.mod)
        if not isinstance(r, tuple):
            return r
        b = r[1]
        if b.lo == b.hi and b.lo > 0:
            p = b.lo
            if 0 <= self.lo and self.hi < p:
                return self
            e = self.e
            if self.lo < 0:
                k = -(self.lo // p) * p
                if self.hi + k > HI:
                    return self._modgen(b)[1]
                e = e + k
            lo, hi = 0, p - 1
            return SymI.make(z3.URem(e, z3.BitVecVal(p, W)), lo, hi,
                             self.sh % p)
        c = b._pinsmall()
        if not is_sym(c):
            return self % c
        return self._modgen(b)[1]

    def __floordiv__(self, o):
        r = self._bin(o, operator.floordiv)
        if not isinstance(r, tuple):
            return r
        b = r[1]
        c = b._pinsmall() if b.lo != b.hi else b
        if not is_sym(c):
            b = SymI.coerce(c)
        return self._modgen(b)[0]

    def _modgen(self, b):
        """floor division by a symbolic divisor: branch on the signs"""
        if bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not (self.lo >= 0 or bool(self >= 0)):
            q, r = (-self)._dm_neg(b)
            return q, r
        if bool(b > 0):
            q = SymI.make(z3.UDiv(self.e, b.e), 0, max(self.hi, 0),
                          self.sh // b.sh)
            m = SymI.make(z3.URem(self.e, b.e), 0, max(b.hi - 1, 0),
                          self.sh % b.sh)
            return q, m
        # self >= 0, b < 0
        q, m = divmod(self, -b)
        if bool(m == 0):
            return -q, 0
        return -q - 1, m + b

    def _dm_neg(self, b):
        # divmod(-self, b), self > 0
        if bool(b > 0):
            q, m = (self, None)
            q, m = self._modgen(b)
            if bool(m == 0):
                return -q, 0
            return -q - 1, b - m
        q, m = self._modgen(-b)
        return q, -m

    def __rmod__(self, o):
        r = self._bin(o, operator.mod, True)
        if not isinstance(r, tuple):
            return r
        return r[1] % self

    def __rfloordiv__(self, o):
        r = self._bin(o, operator.floordiv, True)
        if not isinstance(r, tuple):
            return r
        return r[1] // self

    def __truediv__(self, o):
        return int(self) / (int(o) if isinstance(o, SymI) else o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, m=None):
        if m is not None:
            return pow(int(self), int(o), int(m))
        if isinstance(o, SymI):
            return int(self) ** int(o)
        if isinstance(o, NUM) and o == int(o) and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        return int(self) ** o

    def __rpow__(self, o, m=None):
        if m is not None:
            return pow(o, int(self), int(m))
        return o ** int(self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        return self if bool(self >= 0) else -self

    def __and__(self, o):
        return int(self) & int(o)

    def __or__(self, o):
        return int(self) | int(o)

    def __xor__(self, o):
        return int(self) ^ int(o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = SymI.coerce(o) if not isinstance(o, (SymReal, SymRoot)) else None
        if b is None:
            if isinstance(o, (SymReal, SymRoot)):
                return o._cmp(int(self), _FLIP[op])
            if isinstance(o, NUM):
                return _cmpv(int(self), o, op)
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        # intervals
        if op == '<':
            if self.hi < b.lo:
                return True
            if self.lo >= b.hi:
                return False
            e = self.e < b.e
        elif op == '<=':
            if self.hi <= b.lo:
                return True
            if self.lo > b.hi:
                return False
            e = self.e <= b.e
        elif op == '>':
            return b._cmp(self, '<')
        elif op == '>=':
            return b._cmp(self, '<=')
        else:
            if self.hi < b.lo or b.hi < self.lo:
                return op == '!='
            if self.e.eq(b.e):
                return op == '=='
            e = self.e == b.e
            s = SymBool(('z', e, self.sh == b.sh))
            return s if op == '==' else ~s
        return SymBool(('z', e, _cmpv(self.sh, b.sh, op)))

    __lt__ = SymReal.__lt__
    __le__ = SymReal.__le__
    __gt__ = SymReal.__gt__
    __ge__ = SymReal.__ge__
    __eq__ = SymReal.__eq__
    __ne__ = SymReal.__ne__

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return pin(lambda c: node_of(self == c), self.sh)
    __index__ = __int__
    __trunc__ = __int__
    __floor__ = __int__
    __ceil__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __float__(self):
        return float(int(self))

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    def sqrt(self):
        return math.sqrt(int(self))

    def conjugate(self):
        return self

    def __repr__(self):
        return 'SymI(%d)' % self.sh
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


# ---------------------------------------------------------------------- inputs

def new_real(name, lo=None, hi=None, lo_open=False, hi_open=False,
             default=None):
    if name not in _z3vars:
        _z3vars[name] = z3.Real(name)
        _varkind[name] = 'real'
    if _varkind[name] != 'real':
        raise RuntimeError('two kinds of variables called ' + name)
    v = _z3vars[name]
    _vid(name)
    c = CTX
    c.decls[name] = 'real'
    if name not in c.assign:
        if default is None:
            if lo is not None and hi is not None:
                default = (Fraction(lo) + Fraction(hi)) / 2
            elif lo is not None:
                default = Fraction(lo) + 1
            elif hi is not None:
                default = Fraction(hi) - 1
            else:
                default = Fraction(0)
        c.assign[name] = Fraction(default)
    if lo is not None:
        q = z3.RealVal(str(Fraction(lo)))
        c.base.append(v > q if lo_open else v >= q)
    if hi is not None:
        q = z3.RealVal(str(Fraction(hi)))
        c.base.append(v < q if hi_open else v <= q)
    return SymReal(Poly({(name,): Fraction(1)}))


def new_zint(name, lo, hi, default=None):
    """integer input that takes part in real arithmetic"""
    if name not in _z3vars:
        _z3vars[name] = z3.Int(name)
        _varkind[name] = 'int'
    if _varkind[name] != 'int':
        raise RuntimeError('two kinds of variables called ' + name)
    v = _z3vars[name]
    c = CTX
    c.decls[name] = 'int'
    if name not in c.assign:
        c.assign[name] = Fraction(lo if default is None else default)
    c.base.append(v >= lo)
    c.base.append(v <= hi)
    return SymReal(Poly({(name,): Fraction(1)}), None, True)


def new_int(name, lo, hi, default=None):
    """small integer input (bit-vector)"""
    if lo == hi:
        return lo
    if name not in _z3vars:
        _z3vars[name] = z3.BitVec(name, W)
        _varkind[name] = 'bv'
    if _varkind[name] != 'bv':
        raise RuntimeError('two kinds of variables called ' + name)
    v = _z3vars[name]
    c = CTX
    c.decls[name] = 'bv'
    if name not in c.assign:
        c.assign[name] = lo if default is None else default
    c.base.append(v >= lo)
    c.base.append(v <= hi)
    return SymI(v, lo, hi, int(c.assign[name]))


def sval(x):
    """the shadow of a value as a Python number"""
    if isinstance(x, SymReal):
        return x.shadow()
    if isinstance(x, SymRoot):
        c = x.coef
        c = c.shadow() if isinstance(c, SymReal) else c
        return float(c) * math.sqrt(x.P.shadow())
    if isinstance(x, SymI):
        return x.sh
    if isinstance(x, SymBool):
        return node_shadow(x.n)
    return x
