"""Reference computations for the harnesses: plain Python over Z/p, written
without looking anything up in the package."""
import functools
import itertools

from engine import sym


# ------------------------------------------------------------------ critical values

class Ranks(object):
    """total preorder of a list of (symbolic) numbers.  On symbolic values the
    order is branched on, so that the paths split by it."""

    def __init__(self, E, values):
        self.E = E
        self.reps = []
        self.floats = []
        self.keys = {}
        if E.sym:
            vs, seen = [], set()
            for v in values:
                k = _key(v)
                if k is None or k not in seen:
                    vs.append(v)
                    seen.add(k)
            # comparisons only through branches: the run is a function of the
            # decisions taken
            vs.sort(key=functools.cmp_to_key(
                lambda a, b: -1 if bool(a < b) else 1))
            for v in vs:
                if self.reps and not bool(self.reps[-1] < v):
                    k = _key(v)
                    if k is not None:
                        self.keys[k] = len(self.reps) - 1
                    continue
                self._push(v)
        else:
            for v in sorted(float(v) for v in values):
                if not self.floats or v > self.floats[-1] + 1e-7:
                    self._push(v)

    def _push(self, v):
        self.reps.append(v)
        self.floats.append(float(sym.sval(v)))
        k = _key(v)
        if k is not None:
            self.keys[k] = len(self.reps) - 1

    def __call__(self, x):
        """index of x among the values, -1 when it is none of them"""
        E = self.E
        if E.sym:
            k = _key(x)
            if k is not None and k in self.keys:
                return self.keys[k]
            # not one of the expressions: search by comparisons
            for i, g in enumerate(self.reps):
                if bool(x == g):
                    return i
            return -1
        for i, g in enumerate(self.floats):
            if abs(float(x) - g) < 2e-7:
                return i
        return -1

    def __len__(self):
        return len(self.reps)


def _key(v):
    if isinstance(v, sym.SymReal):
        if v.den is None:
            return v.num.key()
        return (v.num.key(), v.den.key())
    if isinstance(v, sym.SymRoot):
        if sym.is_sym(v.coef):
            return None
        return ('root', sym.frac(v.coef), v.P.key())
    if isinstance(v, sym.SymBase):
        return None
    try:
        f = sym.frac(v)
    except sym.Limit:
        return None
    return sym.pconst(f).key()


def ints(E, M):
    """a matrix of (concrete) residues as lists of ints; symbolic entries are
    branched on"""
    return [[int(x) for x in r] for r in M]


# ------------------------------------------------------------ linear algebra mod p

def inv(a, p):
    return pow(int(a), p - 2, p) if p > 2 else int(a) % 2


def echelon(vs, p):
    """row echelon basis: list of (pivot, row)"""
    out = []
    for v in vs:
        v = [x % p for x in v]
        v = reduce_(v, out, p)
        piv = next((i for i, x in enumerate(v) if x), None)
        if piv is not None:
            c = inv(v[piv], p)
            out.append((piv, [x * c % p for x in v]))
    return out


def reduce_(v, ech, p):
    v = [x % p for x in v]
    for piv, r in ech:
        c = v[piv]
        if c:
            v = [(x - c * y) % p for x, y in zip(v, r)]
    return v


def rank(vs, p):
    return len(echelon(vs, p))


def in_span(v, vs, p):
    return not any(reduce_(v, echelon(vs, p), p))


def matvec(cols, c, p):
    """sum of c_j cols_j"""
    n = len(cols[0]) if cols else 0
    out = [0] * n
    for x, col in zip(c, cols):
        x = x % p
        if x:
            out = [(a + x * b) % p for a, b in zip(out, col)]
    return out


def kernel(cols, p):
    """basis of the kernel of the matrix with the given columns"""
    n = len(cols)
    aug = []
    ker = []
    for j, c in enumerate(cols):
        v = [x % p for x in c]
        t = [0] * n
        t[j] = 1
        for piv, r, s in aug:
            q = v[piv]
            if q:
                v = [(x - q * y) % p for x, y in zip(v, r)]
                t = [(x - q * y) % p for x, y in zip(t, s)]
        piv = next((i for i, x in enumerate(v) if x), None)
        if piv is None:
            ker.append(t)
        else:
            q = inv(v[piv], p)
            aug.append((piv, [x * q % p for x in v], [x * q % p for x in t]))
    return ker


# ------------------------------------------------------------------ homology

def boundary(simplex):
    """[(sign, face)]"""
    return [((-1) ** i, simplex[:i] + simplex[i + 1:])
            for i in range(len(simplex))]


_phmemo = {}


def ph(filtration, p, top):
    """persistent homology of {simplex(tuple): rank}; bars (birth, death) per
    dimension, death `top` when the class never dies; bars of length zero left
    out.  Standard column algorithm."""
    key = (tuple(sorted(filtration.items())), p, top)
    if key in _phmemo:
        return _phmemo[key]
    simp = sorted(filtration, key=lambda s: (filtration[s], len(s), s))
    idx = {s: i for i, s in enumerate(simp)}
    low = {}
    cols = {}
    paired = set()
    res = {}
    for j, s in enumerate(simp):
        col = {}
        if len(s) > 1:
            for sg, f in boundary(s):
                col[idx[f]] = sg % p
        while col:
            m = max(col)
            if m not in low:
                break
            k = low[m]
            c = col[m] * inv(cols[k][m], p) % p
            for i, x in cols[k].items():
                y = (col.get(i, 0) - c * x) % p
                if y:
                    col[i] = y
                else:
                    col.pop(i, None)
        if col:
            m = max(col)
            low[m] = j
            cols[j] = col
            paired.add(m)
            paired.add(j)
            b, d = filtration[simp[m]], filtration[s]
            if b < d:
                res.setdefault(len(simp[m]) - 1, []).append((b, d))
    for j, s in enumerate(simp):
        if j not in paired:
            if filtration[s] < top:
                res.setdefault(len(s) - 1, []).append((filtration[s], top))
    out = {d: sorted(v) for d, v in res.items()}
    if len(_phmemo) > 20000:
        _phmemo.clear()
    _phmemo[key] = out
    return out


def vr_filtration(n, dist, max_dim, below):
    """{simplex: (i, j) of its longest edge} is left to the caller; here the
    cliques of the graph of pairs with below(i, j)"""
    out = []
    for k in range(2, max_dim + 2):
        for s in itertools.combinations(range(n), k):
            if all(below[a, b] for a, b in itertools.combinations(s, 2)):
                out.append(s)
    return out
