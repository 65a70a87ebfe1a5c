"""Chains on covers: their algebra, the Cech differential, vertical lifts."""
import itertools

from .spectral import FAR2, FAR3, perm_sign
from .util import kernel

# ------------------------------------------------------------ local chains


def subsets(n):
    """sets of references, some of them not listed in increasing order"""
    up = [list(s) for k in range(n + 1)
          for s in itertools.combinations(range(n), k)]
    return up + [s[::-1] for s in up if len(s) > 1]


PATTERNS = [[], [0, 1, 2, 3, 4, 5], [1, 4], [0, 2, 5], [5], [2, 3, 4],
            [4, 0, 3]]


def make(S, E, tag, places, nref, width, hi, lo=0, pats=None, free=None):
    """an arbitrary collection of expressions: {place: {reference: row}} and
    the object of the package"""
    mod, ch = [], S.chains.local_chains(places)
    for k in range(places):
        if pats is None:
            ref = E.choice('%sref%d' % (tag, k), subsets(nref))
        elif k in pats:
            ref = list(PATTERNS[pats[k]])
        else:
            ref = list(E.choice('%sref%d' % (tag, k), PATTERNS))
        rows = [[E.int('%s%d_%d_%d' % (tag, k, i, j), lo, hi)
                 if free is None or (i + j + k) % free == 0 else
                 (3 * i + j + k) % (hi + 1)
                 for j in range(width)] for i in ref]
        mod.append(dict(zip(ref, rows)))
        if ref:
            ch.add_entry(k, E.array(ref), E.array(rows))
    return mod, ch


def expressions(E, ch, width):
    """{place: {reference: row}} of an object of the package"""
    out = []
    E.check(len(ch.ref) == len(ch.coord),
            'numbers of lists of references and of coordinates differ')
    for ref, coord in zip(ch.ref, ch.coord):
        d = {}
        ref = [int(x) for x in ref]
        E.check(len(ref) == len(coord), 'references and rows differ')
        E.check(len(set(ref)) == len(ref), 'a reference twice')
        for i, row in zip(ref, coord):
            row = [x for x in row]
            E.check(len(row) == width, 'length of a row')
            d[i] = row
        out.append(d)
    return out


def agree(E, got, want, width, p=None):
    E.check(len(got) == len(want), 'number of places')
    cs = []
    for g, w in zip(got, want):
        for i in set(g) | set(w):
            a, b = g.get(i, [0] * width), w.get(i, [0] * width)
            for x, y in zip(a, b):
                cs.append(x == y if p is None else (x - y) % p == 0)
    return E.all(cs)


def h_add(S, E, places, nref, width, hi=3, pa=None, pb=None, free=None):
    A, a = make(S, E, 'a', places, nref, width, hi, pats=pa, free=free)
    B, b = make(S, E, 'b', places, nref, width, hi, pats=pb, free=free)
    c = a + b
    want = []
    for u, v in zip(A, B):
        d = {i: list(r) for i, r in u.items()}
        for i, r in v.items():
            d[i] = [x + y for x, y in zip(d.get(i, [0] * width), r)]
        want.append(d)
    E.check(len(c.ref) == places, 'number of places')
    E.check(agree(E, expressions(E, c, width), want, width),
            'sum of chains')
    E.check(agree(E, expressions(E, a, width), A, width), 'summand modified')
    E.check(agree(E, expressions(E, b, width), B, width), 'summand modified')
    for u, v, w in zip(c.ref, A, B):
        E.check(set(v) | set(w) <= {int(x) for x in u},
                'a reference of the summands is lost')
    E.reach()


def h_minus(S, E, places, nref, width, p, pats=None, free=None):
    S.chains.local_chains.p = p
    A, a = make(S, E, 'a', places, nref, width, p - 1, pats=pats, free=free)
    a.minus()
    want = [{i: [-x for x in r] for i, r in u.items()} for u in A]
    got = expressions(E, a, width)
    E.check(agree(E, got, want, width, p), 'opposite chains')
    E.check(E.all(E.all([x >= 0, x < p]) for u in got for r in u.values()
                  for x in r), 'residues of the opposite chains')
    E.reach()


def h_sums(S, E, places, nref, width, nsum, hi, pats=None, free=None):
    A, a = make(S, E, 'a', places, nref, width, hi, pats=pats, free=free)
    M = [[E.int('m%d_%d' % (i, j), 0, hi) if free is None or
          (i + j) % free == 0 else (i * j + 1) % (hi + 1)
          for j in range(nref)] for i in range(nsum)]
    c = S.chains.local_chains.sums(a, E.array(M))
    want = []
    for u in A:
        d = {}
        if u:
            for i in range(nsum):
                row = [0] * width
                for j, r in u.items():
                    row = [x + M[i][j] * y for x, y in zip(row, r)]
                d[i] = row
        want.append(d)
    E.check(agree(E, expressions(E, c, width), want, width),
            'linear combinations of chains')
    E.check(agree(E, expressions(E, a, width), A, width), 'chains modified')
    E.reach()


def h_copy(S, E, places, nref, width):
    """copies are equal and independent"""
    S.chains.local_chains.p = 5
    A, a = make(S, E, 'a', places, nref, width, 4)
    B, b = make(S, E, 'b', places, nref, width, 4)
    cs = S.chains.local_chains.copy_seq([a, b])
    E.check(len(cs) == 2, 'length of the copy')
    E.check(agree(E, expressions(E, cs[0], width), A, width), 'copy')
    E.check(agree(E, expressions(E, cs[1], width), B, width), 'copy')
    cs[0].minus()
    for c in cs[1].coord:
        if len(c) > 0:
            c[0][0] = c[0][0] + 1
    E.check(agree(E, expressions(E, a, width), A, width),
            'a change of the copy changes the original')
    E.check(agree(E, expressions(E, b, width), B, width),
            'a change of the copy changes the original')
    E.reach()


def h_malformed(S, E):
    """references and rows that do not match are rejected"""
    n = int(E.int('n', 0, 3))
    m = int(E.int('m', 0, 3))
    how = E.choice('how', ['entry', 'init', 'count', 'args'])
    L = S.chains.local_chains
    if how == 'args':
        # an integer, or two lists, and nothing else
        arg = [(3,), ([[]], [[]], [[]]), ('ab',), ([[], []],)][n]
        try:
            L(*arg)
            ok = True
        except ValueError:
            ok = False
        E.check(ok == (n == 0), 'arguments of the constructor')
        E.reach()
        return
    rows = E.array([[E.int('x%d' % i, 0, 3)] for i in range(m)]) if m else []
    ref = list(range(n))
    try:
        if how == 'entry':
            L(2).add_entry(1, ref, rows)
        elif how == 'init':
            L([ref, [0]], [rows, E.array([[1]])])
        else:
            L([[]] * n, [[]] * m)
        ok = True
    except ValueError:
        ok = False
    E.check(ok == (n == m), 'malformed chains accepted' if ok else
            'well formed chains rejected')
    E.reach()


# --------------------------------------------------- spectral sequence fixtures

FIX = {
    # one square of points around the centre: four regions, all intersections
    'square': ([[-.375, -.375], [.375, -.375], [.375, .375],
                [-.375, .375]] + FAR2, 1.0),
    'cross': ([[-.5, 0.], [.5, 0.], [0., .5], [0., -.5], [.25, .25]] + FAR2,
              1.0),
    'triangle': ([[0., 0.], [.25, .25], [-.25, .125], [.125, -.375],
                  [-.75, 1.25]] + FAR2, .75),
    'space': ([[.625, -.375, .5], [0, 0, 0], [0, 0, 1.25],
               [-.375, .5625, .75], [.375, -.625, .625]] + FAR3, 1.0625),
    # five points in the intersection of the regions
    'cluster': ([[0., 0.], [.25, .125], [-.25, .125], [.125, -.25],
                 [-.125, -.1875], [.5, .5]] + FAR2, .75),
    # an interval in three pieces
    'line': ([[-1.], [-.625], [-.25], [0.], [.125], [.375], [.75], [1.]],
             .5, 3),
    # a strip of six pieces
    'strip': ([[-1.5, -.5], [-.75, .625], [-.5, -.25], [.0, .125],
               [.25, .25], [-.625, .25], [.5, -.25], [.75, .5],
               [.625, -.125], [1.5, 0.]], .8125, 3),
    'd2': ([[-.5, .625, .625], [0, 0, 1.25], [0, -.59375, .5],
            [.625, .375, .75], [-.5625, .5, .625], [0, 0, 0]] + FAR3,
           1.09375),
}


class Fixture(object):
    def __init__(self, S, E, name, p, max_dim):
        pts, r = FIX[name][:2]
        div = FIX[name][2] if len(FIX[name]) > 2 else 2
        X = S.np.array([[float(x) for x in q] for q in pts])
        ss = S.mv.create_MV_ss(X, r, max_dim, div, r * 1.01, p)
        self.ss, self.p, self.r = ss, p, r
        self.ncol = len(ss.nerve) - 1
        self.nerve = {0: [(k,) for k in range(int(ss.nerve[0]))]}
        for c in range(1, self.ncol):
            self.nerve[c] = [tuple(int(x) for x in s) for s in ss.nerve[c]]
        self.pos = {c: {s: i for i, s in enumerate(n)}
                    for c, n in self.nerve.items()}
        self.spx = {}
        self.birth = {}
        P = [[float(x) for x in q] for q in pts]
        for c in range(self.ncol):
            for k in range(len(self.nerve[c])):
                IN = [int(x) for x in ss.points_IN[c][k]]
                C = ss.subcomplexes[c][k]
                for q in range(min(max_dim + 1, len(C))):
                    L = [(v,) for v in range(len(IN))] if q == 0 else \
                        [tuple(int(x) for x in s) for s in C[q]]
                    L = [tuple(IN[v] for v in s) for s in L]
                    self.spx[c, k, q] = L
                    for s in L:
                        self.birth[s] = max([0.0] + [
                            sum((x - y) ** 2 for x, y in
                                zip(P[u], P[v])) ** .5
                            for u, v in itertools.combinations(s, 2)])

    def cech(self, ch, c, q):
        """{(nerve simplex, simplex): coefficient}, one column lower"""
        out = {}
        sg = (-1) ** q
        for (v, s), x in ch.items():
            for i in range(len(v)):
                f = v[:i] + v[i + 1:], s
                out[f] = out.get(f, 0) + sg * (-1) ** i * x
        return out

    def boundary(self, ch):
        out = {}
        for (v, s), x in ch.items():
            if len(s) > 1:
                for i in range(len(s)):
                    f = v, s[:i] + s[i + 1:]
                    out[f] = out.get(f, 0) + (-1) ** i * x
        return out


def fixture(S, E, name, p, max_dim):
    store = S.__dict__.setdefault('_fix', {})
    k = name, p, max_dim
    if k not in store:
        store[k] = Fixture(S, E, *k)
    S.chains.local_chains.p = p
    return store[k]


def collect(E, F, ch, c, q):
    """{reference: {(nerve simplex, sorted simplex): coefficient}}"""
    out = {}
    for k, (ref, coord) in enumerate(zip(ch.ref, ch.coord)):
        for i, row in zip([int(x) for x in ref], coord):
            row = [x for x in row]
            E.check(len(row) == len(F.spx[c, k, q]), 'length of a row')
            d = out.setdefault(i, {})
            for t, x in enumerate(row):
                s = F.spx[c, k, q][t]
                d[F.nerve[c][k], tuple(sorted(s))] = x * perm_sign(s)
    return out


def same(E, a, b, p, sg=1):
    """a = sg b mod p"""
    return E.all((a.get(k, 0) - sg * b.get(k, 0)) % p == 0
                 for k in set(a) | set(b))


def h_cech(S, E, name, p, c, q, max_dim, nref, start, count):
    F = fixture(S, E, name, p, max_dim)
    ss = F.ss
    E.assume(len(F.nerve[c]) > 0)
    where = [(k, t) for k in range(len(F.nerve[c]))
             for t in range(len(F.spx.get((c, k, q), [])))]
    if count is not None:
        step = max(1, len(where) // count)
        where = where[start::step][:count]
    ch = S.chains.local_chains(len(F.nerve[c]))
    mod = {}
    for k in sorted({k for k, _ in where}):
        refs = [i for i in range(nref) if (i + k) % 3 != 2 or nref == 1]
        rows = []
        for i in refs:
            row = [0] * len(F.spx[c, k, q])
            for kk, t in where:
                if kk == k:
                    row[t] = E.int('a%d_%d_%d' % (i, k, t), 0, p - 1)
                    s = F.spx[c, k, q][t]
                    mod.setdefault(i, {})[F.nerve[c][k], tuple(sorted(s))] = \
                        row[t] * perm_sign(s)
            rows.append(row)
        ch.add_entry(k, E.array(refs), E.array(rows))
    im = ss.cech_diff(c - 1, q, ch)
    got = collect(E, F, im, c - 1, q)
    want = {i: F.cech(m, c, q) for i, m in mod.items()}
    E.check(set(got) <= set(want), 'references of the image')
    E.check(E.any(E.all(same(E, got.get(i, {}), want[i], p, sg)
                        for i in want) for sg in (1, -1)),
            'Cech differential')
    if c >= 2:
        two = collect(E, F, ss.cech_diff(c - 2, q, im), c - 2, q)
        E.check(E.all(x % p == 0 for d in two.values() for x in d.values()),
                'the Cech differential does not square to zero')
    E.reach()


def cycles(F, c, k, q, r):
    """cycles of a region born by r, as rows over its simplices"""
    L = F.spx.get((c, k, q), [])
    act = [t for t, s in enumerate(L) if F.birth[s] <= r]
    if q == 0:
        base = [[1 if t == u else 0 for t in act] for u in act]
    else:
        faces = {}
        cols = []
        for t in act:
            s = tuple(sorted(L[t]))
            col = {}
            for i in range(len(s)):
                f = s[:i] + s[i + 1:]
                col[faces.setdefault(f, len(faces))] = \
                    perm_sign(L[t]) * (-1) ** i
            cols.append(col)
        base = kernel([[x.get(i, 0) for i in range(len(faces))]
                       for x in cols], F.p)
    out = []
    for z in base:
        row = [0] * len(L)
        for t, x in zip(act, z):
            row[t] = x
        out.append(row)
    return out


def h_lift(S, E, name, p, c, q, max_dim, levels, ncoef, how):
    F = fixture(S, E, name, p, max_dim)
    ss = F.ss
    births = sorted({b for s, b in F.birth.items() if len(s) in (2, 3)})
    if how == 'lift':
        rad = E.choice('rad', [births[min(int(len(births) * x),
                                          len(births) - 1)]
                               for x in levels])
    else:
        rad = births[min(int(len(births) * levels[-1]), len(births) - 1)]
    # arbitrary cycles of the regions at this radius
    ch = S.chains.local_chains(len(F.nerve[c]))
    mod = {}
    left = ncoef
    regions = [k for k in range(len(F.nerve[c])) if cycles(F, c, k, q, rad)]
    if not regions:
        E.assume(False)
    first = int(E.int('first', 0, len(regions) - 1)) if how == 'lift' else 0
    for k in regions[first:] + regions[:first]:
        Z = cycles(F, c, k, q, rad)
        if left <= 0:
            break
        row = [0] * len(F.spx[c, k, q])
        for z in Z[:left] if len(Z) <= left else Z[-left:]:
            a = E.int('a%d_%d' % (k, left), 0, p - 1)
            left -= 1
            row = [x + a * y for x, y in zip(row, z)]
        row = [x % p for x in row]
        for t, x in enumerate(row):
            s = F.spx[c, k, q][t]
            mod[F.nerve[c][k], tuple(sorted(s))] = x * perm_sign(s)
        ch.add_entry(k, E.array([0]), E.array([row]))
    R = S.np.array([rad])
    if how == 'lift':
        B, lift = ss.first_page_lift(c, q, ch, R)
        col, target = c, mod
    else:
        B, lift = ss.cech_diff_and_lift(c, q, ch, R)
        col, target = c - 1, F.cech(mod, c, q)
    B = [x for x in B[0]]
    # classes of the first page, region after region
    hom, t = {}, 0
    for k in range(len(F.nerve[col])):
        H = ss.Hom[0][col][k][q]
        for j in range(H.dim):
            coef = B[t]
            t += 1
            E.check(E.any([coef % p == 0, bool(H.barcode[j][0] <= rad +
                                               1e-9)]),
                    'a class that is not born is used')
            for i, s in enumerate(F.spx[col, k, q]):
                x = int(H.coordinates[i][j]) % p
                if x:
                    f = F.nerve[col][k], tuple(sorted(s))
                    hom[f] = hom.get(f, 0) + coef * x * perm_sign(s)
    E.check(t == len(B), 'number of coordinates')
    up = collect(E, F, lift, col, q + 1)
    E.check(set(up) <= {0}, 'references of the lift')
    up = up.get(0, {})
    for (v, s), x in up.items():
        if F.birth[s] > rad + 1e-9:
            E.check(x % p == 0, 'the lift uses a simplex that is not born')
    bd = F.boundary(up)
    cs = []
    for s1 in (1, -1):
        for s2 in (1, -1):
            cs.append(E.all(
                (s1 * target.get(k, 0) - hom.get(k, 0) - s2 * bd.get(k, 0))
                % p == 0 for k in set(target) | set(hom) | set(bd)))
    E.check(E.any(cs), 'the chain is not the boundary of the lift plus the '
            'classes')
    E.reach()


def cases_p19(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, h, bounds, **a):
        cs.append(dict(name=name, h=h, args=a, bounds=bounds))
    add('add', h_add, '2 places, references in 0..1, rows of 2, entries 0..3',
        places=2, nref=2, width=2)
    add('add-3', h_add, '1 place, references in 0..2, rows of 2', places=1,
        nref=3, width=2)
    add('minus-3', h_minus, '2 places, references in 0..1, p=3', places=2,
        nref=2, width=2, p=3)
    add('minus-5', h_minus, '1 place, references in 0..2, p=5', places=1,
        nref=3, width=2, p=5)
    add('minus-2', h_minus, '1 place, references in 0..1, p=2', places=1,
        nref=2, width=2, p=2)
    add('sums', h_sums, '2 places, references in 0..1, 2 sums', places=2,
        nref=2, width=2, nsum=2, hi=4)
    add('sums-3', h_sums, '1 place, references in 0..2, 2 sums', places=1,
        nref=3, width=2, nsum=2, hi=4)
    add('copy', h_copy, '2 places, references in 0..1', places=2, nref=2,
        width=1)
    add('malformed', h_malformed, 'up to 3 references and 3 rows')
    add('add-wide', h_add, '3 places, references in 0..5, rows of 4, entries '
        '0..10, a third of them symbolic', places=3, nref=6, width=4, hi=10,
        pa={0: 3, 1: 2}, pb={0: 2, 2: 5}, free=3)
    add('add-wide-2', h_add, '4 places, references in 0..5, rows of 3',
        places=4, nref=6, width=3, hi=6, pa={0: 4, 1: 0, 2: 1},
        pb={0: 1, 2: 0, 3: 5}, free=4)
    add('minus-wide', h_minus, '3 places, references in 0..5, p=11', places=3,
        nref=6, width=3, p=11, pats={0: 3}, free=3)
    add('minus-7', h_minus, '2 places, p=7', places=2, nref=6, width=2, p=7,
        pats={1: 2})
    add('sums-wide', h_sums, '3 places, references in 0..5, 4 sums', places=3,
        nref=6, width=3, nsum=4, hi=6, pats={0: 3, 2: 1}, free=4)
    add('sums-one', h_sums, '2 places, references in 0..5, 1 sum', places=2,
        nref=6, width=2, nsum=1, hi=4, pats={0: 2}, free=2)
    if big:
        add('add-big', h_add, '3 places, references in 0..2', places=3,
            nref=2, width=3)
        add('sums-big', h_sums, '2 places, references in 0..2, 3 sums',
            places=2, nref=3, width=3, nsum=3, hi=6)
    return cs


def cases_p23(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, p, c, q, max_dim=2, nref=2, start=0, count=6):
        cs.append(dict(
            name='cech-%s-p%d-%d%d' % (name, p, c, q), h=h_cech,
            args=dict(name=name, p=p, c=c, q=q, max_dim=max_dim, nref=nref,
                      start=start, count=count),
            bounds='Cech differential from column %d in degree %d over Z/%d, '
            'chains on %s simplices of the cover of cloud %s' %
            (c, q, p, count or 'all', name)))
    for p in (2, 3, 5):
        add('square', p, 1, 0)
        add('square', p, 1, 1)
        add('square', p, 2, 0)
        add('square', p, 2, 1)
        add('square', p, 3, 0)
    add('cross', 3, 1, 1, count=8)
    add('cross', 5, 2, 1, count=8)
    add('triangle', 3, 1, 2, max_dim=3, count=8)
    add('triangle', 3, 2, 1, max_dim=3, count=8)
    add('triangle', 5, 2, 2, max_dim=3, count=8)
    add('triangle', 7, 3, 1, max_dim=3, count=8)
    add('space', 3, 1, 1, count=8)
    add('cluster', 3, 1, 3, max_dim=4, count=8)
    add('cluster', 5, 2, 3, max_dim=4, count=6)
    add('cluster', 3, 2, 2, max_dim=3, count=8)
    add('line', 3, 1, 0, count=8)
    add('line', 7, 1, 1, nref=3, count=8)
    add('strip', 5, 1, 1, nref=4, count=10)
    add('strip', 3, 2, 0, nref=3, count=10)
    add('strip', 7, 2, 1, count=5)
    add('space', 5, 3, 0, nref=3, count=8)
    if big:
        add('cluster', 7, 3, 3, max_dim=4, count=None)
        for p in (2, 3, 7):
            add('space', p, 1, 1, nref=3, count=None)
            add('triangle', p, 2, 2, max_dim=3, nref=3, count=None)
            add('triangle', p, 3, 2, max_dim=3, nref=3, count=None)
    return cs


def cases_p24(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, p, c, q, how, ncoef, max_dim=2, levels=(0, .3, .6, 1)):
        cs.append(dict(
            name='%s-%s-p%d-%d%d' % (how, name, p, c, q), h=h_lift,
            args=dict(name=name, p=p, c=c, q=q, max_dim=max_dim,
                      levels=levels, ncoef=ncoef, how=how),
            bounds='cycles with %d free coefficients over Z/%d in column %d, '
            'degree %d of cloud %s' % (ncoef, p, c, q, name)))
    for name in ('square', 'cross'):
        for p in (2, 3):
            add(name, p, 0, 0, 'lift', 3)
            add(name, p, 0, 1, 'lift', 2)
            add(name, p, 1, 0, 'lift', 3)
            add(name, p, 1, 0, 'cech', 4)
            add(name, p, 2, 0, 'cech', 4)
    add('cross', 5, 1, 1, 'lift', 2)
    add('triangle', 3, 0, 1, 'lift', 3, max_dim=3)
    add('triangle', 3, 1, 1, 'cech', 3, max_dim=3)
    add('triangle', 5, 2, 0, 'cech', 3, max_dim=3)
    add('space', 3, 0, 1, 'lift', 3)
    add('d2', 3, 1, 0, 'cech', 4)
    add('line', 5, 0, 0, 'lift', 3)
    add('line', 7, 1, 0, 'cech', 3)
    add('strip', 3, 0, 1, 'lift', 3)
    add('strip', 5, 1, 0, 'lift', 3)
    add('strip', 3, 1, 0, 'cech', 4)
    add('cluster', 3, 0, 1, 'lift', 3, max_dim=3)
    add('cluster', 2, 0, 2, 'lift', 3, max_dim=4)
    add('cluster', 5, 1, 1, 'cech', 3, max_dim=3)
    add('space', 2, 3, 0, 'cech', 3)
    if big:
        for p in (2, 3, 5):
            add('d2', p, 0, 1, 'lift', 4)
            add('d2', p, 2, 0, 'cech', 5)
            add('triangle', p, 0, 2, 'lift', 3, max_dim=3)
            add('triangle', p, 1, 2, 'cech', 3, max_dim=3)
    return cs


PROPS = {
    'P19': dict(cases=cases_p19),
    'P23': dict(cases=cases_p23),
    'P24': dict(cases=cases_p24),
}
