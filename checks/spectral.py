"""The Mayer-Vietoris spectral sequence."""
import itertools

from engine import sym
from .util import Ranks, inv, ph

# ----------------------------------------------------------------- clouds

# far corners fix the hypercubes: two divisions meet along the axes
FAR3 = [[-2., -2., 0.], [2., 2., 0.]]
FAR2 = [[-2., -2.], [2., 2.]]

# found by search: what the computation goes through (at the given position of
# the points)
CLOUDS = {
    # extension from (1,0) to (0,1)
    'ext2': ([[.625, -.375, .5], [0, 0, 0], [0, 0, 1.25],
              [-.375, .5625, .75], [.375, -.625, .625]] + FAR3, 1.0625),
    'ext3': ([[-.375, .5625, .75], [0, 0, 1.375], [0, 0, 0],
              [.375, -.5625, .625], [-.59375, 0, .875]] + FAR3, 1.0625),
    'ext5': ([[0, 0, 1.375], [0, 0, 0], [.59375, -.5, .625],
              [-.625, .53125, .5], [.5, .625, .6875],
              [-.5, -.5625, .6875]] + FAR3, 1.09375),
    # second differential
    'd2': ([[-.5, .625, .625], [0, 0, 1.25], [0, -.59375, .5],
            [.625, .375, .75], [-.5625, .5, .625], [0, 0, 0]] + FAR3,
           1.09375),
    'd2-plane': ([[-0.453125, -0.453125], [0.453125, 0.453125],
        [0.515625, -0.453125], [-0.453125, 0.515625],
        [-0.515625, 0.453125], [0.453125, -0.515625]] + FAR2, 1.0),
    # reduction by images of the first / second differential
    'gam2': ([[-0.453125, -0.421875], [0.4375, 0.46875],
        [0.5, -0.4375], [-0.453125, 0.515625],
        [-0.515625, 0.484375], [0.453125, -0.515625]] + FAR2, 1.0),
    'gam3': ([[-0.453125, -0.4375], [0.453125, 0.453125],
        [0.53125, -0.453125], [-0.4375, 0.546875],
        [-0.53125, 0.4375], [0.4375, -0.515625]] + FAR2, 1.0),
    'gamd': ([[0, 0, 0], [-.5625, -.375, .875], [0, .625, .6875],
              [0, 0, 1.375], [.625, .5, .625], [.5625, -.5, .875],
              [-.5625, .375, .625], [.375, -.5625, .875],
              [.125, -.375, .375]] + FAR3, 1.0625),
    # representatives corrected by preimages
    'rep2': ([[-.375, .5625, .6875], [-.5625, -.375, .875], [.375, 0, 1.],
              [.5625, .53125, .875], [0, 0, 1.25], [0, -.5625, .5],
              [.5, .5625, .5], [-.5625, -.375, .5], [.625, 0, .75],
              [0, 0, 0], [0, -.625, .5]] + FAR3, 1.09375),
    # extensions from (1,1) to (0,2) and from (2,0) to (0,2)
    'ext11': ([[0, 0, 1.25], [.53125, .5625, .625], [-.5625, .375, .625],
               [0, 0, 0], [.375, -.625, .6875], [-.5, -.5625, .6875],
               [-.125, .375, .75], [.5625, -.375, .6875],
               [-.625, -.5, .625], [0, .625, .5]] + FAR3, 1.0625),
    'ext20': ([[-.5625, .375, .6875], [-.25, .125, .25],
               [-.375, -.5625, .6875], [-.625, -.375, .5], [0, 0, 1.25],
               [.625, 0, .6875], [.5625, .5, .625], [.5, -.625, .75],
               [0, 0, 0], [-.375, .5625, .875], [.625, -.5, .5]] + FAR3,
              1.09375),
    # eight regions: in extensions from (2,0) and (1,1), chains over double
    # intersections are reduced by images of the first / second differential
    'cube2': ([[-.296875, -.296875, -.296875], [.296875, .296875, .296875],
               [-.5625, .078125, -.171875], [.0625, .59375, -.171875],
               [.078125, -.5625, -.015625], [-.09375, .203125, .5],
               [.15625, .015625, -.546875], [.578125, -.265625, -.03125],
               [-2., -2., -2.], [2., 2., 2.]], 1.0625),
    'cube5': ([[-.296875, -.296875, -.296875], [.296875, .296875, .296875],
               [.59375, .125, .046875], [-.515625, .171875, -.09375],
               [-.046875, .515625, .078125], [0, -.546875, .078125],
               [-.015625, -.046875, -.5], [-.3125, -.1875, .578125],
               [-2., -2., -2.], [2., 2., 2.]], 1.0),
    'cubed': ([[-.296875, -.296875, -.296875], [.296875, .296875, .296875],
               [.578125, .140625, -.15625], [-.578125, -.0625, .15625],
               [-.171875, .59375, -.078125], [-.140625, -.09375, .5625],
               [.15625, -.171875, -.546875], [.046875, -.5625, 0],
               [-.09375, -.28125, -.515625],
               [-2., -2., -2.], [2., 2., 2.]], 1.0625),
}


def cloud(E, pts, move):
    P = [[float(x) for x in r] for r in pts]
    for t, (i, k, lo, hi) in enumerate(move):
        x = P[i][k]
        P[i][k] = E.real('x%d_%d' % (i, k), x + lo, x + hi, default=x)
    return P


def distance(a, b):
    d = [x - y for x, y in zip(a, b)]
    if not any(sym.is_sym(x) for x in d):
        return sym.fixed_distance(d)
    s = 0.0
    for x in d:
        s = s + x * x
    return sym.sym_sqrt(s)


class Filtration(object):
    """the Vietoris-Rips filtration, by definition"""

    def __init__(self, E, P, r, dim):
        n = len(P)
        D = {}
        for i in range(n):
            for j in range(i):
                D[j, i] = distance(P[i], P[j])
        self.n, self.D = n, D
        if not E.sym:
            # values that are neither equal nor clearly apart are outside the
            # bounds (they are rounded differently along the computation)
            v = sorted([0.0, float(r)] + [float(x) for x in D.values()])
            E.assume(not any(0 < b - a < 1e-5 for a, b in zip(v, v[1:])))
        self.short = {e for e in D if bool(D[e] < r)}
        self.rk = Ranks(E, [0.0, r] + [D[e] for e in sorted(self.short)])
        self.top = self.rk(r)
        er = {e: self.rk(D[e]) for e in self.short}
        self.edge = er
        F = {(v,): 0 for v in range(n)}
        level = {(v,): 0 for v in range(n)}
        for d in range(1, dim + 1):
            nxt = {}
            for s, x in level.items():
                for v in range(s[-1] + 1, n):
                    if all((u, v) in er for u in s):
                        nxt[s + (v,)] = max([x] + [er[u, v] for u in s])
            F.update(nxt)
            level = nxt
        self.F = F
        self.dim = dim

    def bars(self, p):
        return ph(self.F, p, self.top)


def h_mv(S, E, pts, r, move, p, max_dim, div=2, overlap=None, what='bars'):
    P = cloud(E, pts, move)
    ov = r * 1.01 if overlap is None else overlap
    X = E.array(P)
    F = Filtration(E, P, r, max_dim)
    ss = S.mv.create_MV_ss(X, r, max_dim, div, ov, p)
    E.check(E.all(X[i][k] == P[i][k] for i in range(len(P))
                  for k in range(len(P[0]))), 'point cloud modified')
    want = F.bars(p)
    if what == 'bars':
        out = ss.persistent_homology
        E.check(len(out) == max_dim, 'one barcode per dimension')
        for d in range(max_dim):
            got = []
            if out[d].dim > 0:
                rows = [list(x) for x in out[d].barcode]
                E.check(len(rows) == out[d].dim, 'dimension of the barcode')
                for a, b in rows:
                    a, b = F.rk(a), F.rk(b)
                    E.check(a >= 0 and b >= 0, 'bar end points are births of '
                            'simplices')
                    got.append((a, b))
            E.check(sorted(got) == want.get(d, []),
                    'barcode in dimension %d differs from persistent '
                    'homology' % d)
            E.check(got == sorted(got, key=lambda t: (t[0], -t[1])),
                    'bars not in the standard order')
    elif what == 'pages':
        pages(E, ss, F, p, max_dim, want)
    else:
        reps(E, S, ss, F, p, max_dim, want)
    E.reach()


def pages(E, ss, F, p, max_dim, want):
    """infinity page: graded pieces of persistent homology"""
    last = ss.no_pages - 1
    for n in range(max_dim):
        alive = [0] * F.top
        for c in range(min(n + 1, ss.no_columns)):
            B = ss.Hom[last][c][n - c] if last > 0 else None
            if B is None or B.dim == 0:
                continue
            for row in B.barcode:
                a, b = F.rk(row[0]), F.rk(row[1])
                E.check(0 <= a < b, 'bar end points are births of simplices')
                for t in range(a, min(b, F.top)):
                    alive[t] += 1
        for t in range(F.top):
            E.check(alive[t] == sum(1 for a, b in want.get(n, [])
                                    if a <= t < b),
                    'last page in total degree %d does not add up to the '
                    'Betti number' % n)
    # first page: homology of the regions
    for c in range(len(ss.nerve) - 1):
        cnt = int(ss.nerve[0]) if c == 0 else len(ss.nerve[c])
        for q in range(max_dim):
            tot = []
            for k in range(cnt):
                IN = [int(x) for x in ss.points_IN[c][k]]
                sub = set(IN)
                G = {s: x for s, x in F.F.items() if sub.issuperset(s)}
                if G:
                    tot += ph(G, p, F.top).get(q, [])
            rows = ss.first_page_barcodes[c][q]
            got = [(F.rk(a), F.rk(b)) for a, b in rows]
            E.check(sorted(got) == sorted(tot),
                    'first page is not the homology of the regions')
    # dimensions recorded for each page, and pages only shrink
    for k in range(1, ss.no_pages):
        for c in range(ss.no_columns):
            for q in range(max_dim):
                E.check(int(ss.page_dim_matrix[k + 1][q][c]) ==
                        int(ss.Hom[k][c][q].dim),
                        'recorded dimensions of a page')
    every_page(E, ss, F, p, max_dim)


def every_page(E, ss, F, p, max_dim):
    """all pages, position by position, against the double complex.  Over a
    field, page r of a filtered complex has at each place as many dimensions
    as generators which the reduction of the total complex (ordered by the
    filtration) leaves unpaired or pairs at distance r or more"""
    if ss.no_pages < 2:
        return
    cells = {n: [] for n in range(max_dim + 1)}
    for c in range(len(ss.nerve) - 1):
        if c > max_dim:
            break
        N = [(k,) for k in range(int(ss.nerve[0]))] if c == 0 else \
            [tuple(int(x) for x in v) for v in ss.nerve[c]]
        for k, v in enumerate(N):
            sub = set(int(x) for x in ss.points_IN[c][k])
            for s, x in F.F.items():
                n = c + len(s) - 1
                if n <= max_dim and sub.issuperset(s):
                    cells[n].append((c, x, v, s))
    size = sum(len(L) for L in cells.values())
    bars = {}
    ends = set()
    for k in range(1, ss.no_pages):
        for c in range(min(ss.no_columns, max_dim)):
            for q in range(max_dim - c):
                B = ss.Hom[k][c][q]
                L = [] if B.dim == 0 else [(F.rk(a), F.rk(b))
                                           for a, b in B.barcode]
                bars[k + 1, c, q] = L
                if c > 0 or q > 0:
                    for a, b in L:
                        ends.update((a, b - 1, b))
    ts = sorted(t for t in ends | {F.top - 1} if 0 <= t < F.top)
    most = 12 if size < 600 else 6 if size < 2500 else 2
    ts = ts[-most:]
    order = {n: sorted(L, key=lambda g: g[:2]) for n, L in cells.items()}
    for t in ts:
        gen = {n: [g for g in L if g[1] <= t] for n, L in order.items()}
        pos = {n: {g[2:]: i for i, g in enumerate(L)}
               for n, L in gen.items()}
        far = {}
        paired = set()
        for n in range(max_dim, 0, -1):
            low = {}
            for i, (c, x, v, s) in enumerate(gen[n]):
                if (n, i) in paired:
                    continue
                col = {}
                if len(s) > 1:
                    for j in range(len(s)):
                        f = pos[n - 1][v, s[:j] + s[j + 1:]]
                        col[f] = (-1) ** j % p
                if len(v) > 1:
                    for j in range(len(v)):
                        f = pos[n - 1][v[:j] + v[j + 1:], s]
                        col[f] = (-1) ** (j + len(s)) % p
                while col:
                    m = max(col)
                    if m not in low:
                        break
                    y = col[m]
                    for a, z in low[m].items():
                        w = (col.get(a, 0) - y * z) % p
                        if w:
                            col[a] = w
                        else:
                            col.pop(a, None)
                if col:
                    m = max(col)
                    y = inv(col[m], p)
                    low[m] = {a: z * y % p for a, z in col.items()}
                    paired.add((n - 1, m))
                    g = gen[n - 1][m]
                    far[n, i] = far[n - 1, m] = c - g[0]
        for (r, c, q), L in bars.items():
            n = c + q
            want = sum(1 for i, g in enumerate(gen[n]) if g[0] == c and
                       far.get((n, i), 10 ** 9) >= r)
            E.check(sum(1 for a, b in L if a <= t < b) == want,
                    'page %d is not that of the double complex' % r)


def insert(rows, v, p):
    """adds a vector to an echelon basis {pivot: vector}; False when it
    depends on it"""
    v = dict(v)
    while v:
        m = min(v)
        if m not in rows:
            c = inv(v[m], p)
            rows[m] = {i: x * c % p for i, x in v.items()}
            return True
        c = v[m]
        for i, x in rows[m].items():
            y = (v.get(i, 0) - c * x) % p
            if y:
                v[i] = y
            else:
                v.pop(i, None)
    return False


def reps(E, S, ss, F, p, max_dim, want):
    """classes of the last page are cycles of the total complex"""
    last = ss.no_pages - 1
    if last < 1:
        return
    # local simplices as sets of points
    spx = {}
    birth = {}
    ncol = len(ss.nerve) - 1
    for c in range(ncol):
        cnt = int(ss.nerve[0]) if c == 0 else len(ss.nerve[c])
        for k in range(cnt):
            IN = [int(x) for x in ss.points_IN[c][k]]
            C = ss.subcomplexes[c][k]
            for q in range(min(max_dim + 1, len(C))):
                L = [(v,) for v in range(len(IN))] if q == 0 else \
                    [tuple(int(x) for x in s) for s in C[q]]
                spx[c, k, q] = [tuple(IN[v] for v in s) for s in L]
    nerve = {0: [(k,) for k in range(int(ss.nerve[0]))]}
    for c in range(1, ncol):
        nerve[c] = [tuple(int(x) for x in s) for s in ss.nerve[c]]
    index = {c: {s: i for i, s in enumerate(nerve[c])} for c in nerve}

    def chain(chains, j, c, q):
        """{(nerve simplex, simplex of points): coefficient} of the j-th
        expression"""
        out = {}
        for k, ref in enumerate(chains.ref):
            ref = [int(x) for x in ref]
            if j in ref:
                row = chains.coord[k][ref.index(j)]
                E.check(len(row) == len(spx[c, k, q]),
                        'coordinates of a representative')
                for t, x in enumerate(row):
                    x = int(x) % p
                    if x:
                        s = spx[c, k, q][t]
                        o = tuple(sorted(s))
                        sg = perm_sign(s)
                        out[nerve[c][k], o] = x * sg % p
        return out

    def added_up(ch):
        out = {}
        for (v, s), x in ch.items():
            out[s] = (out.get(s, 0) + x) % p
        return {k: x for k, x in out.items() if x}
    classes = {}

    def vertical(ch):
        out = {}
        for (v, s), x in ch.items():
            if len(s) == 1:
                continue
            # the boundary of an edge is taken with the opposite sign by the
            # package
            g = -1 if len(s) == 2 else 1
            for i in range(len(s)):
                f = v, s[:i] + s[i + 1:]
                out[f] = (out.get(f, 0) + g * (-1) ** i * x) % p
        return {k: x for k, x in out.items() if x}

    def cech(ch):
        out = {}
        for (v, s), x in ch.items():
            if len(v) == 1:
                continue
            for i in range(len(v)):
                f = v[:i] + v[i + 1:], s
                out[f] = (out.get(f, 0) + (-1) ** i * x) % p
        return {k: x for k, x in out.items() if x}
    for c in range(ncol):
        for q in range(max_dim):
            B = ss.Hom[last][c][q]
            if B.dim == 0:
                continue
            R = ss.Hom_reps[last][c][q]
            E.check(len(R) >= 1, 'a class has no representative')
            for j in range(B.dim):
                b = F.rk(B.barcode[j][0])
                parts = [chain(R[m], j, c - m, q + m)
                         for m in range(len(R))]
                for ch in parts:
                    for (v, s), x in ch.items():
                        E.check(F.F.get(s, 10 ** 9) <= b, 'a representative '
                                'uses simplices that are not born')
                E.check(bool(parts[0]), 'a representative is zero')
                E.check(not vertical(parts[0]), 'a representative does not '
                        'start with a cycle')
                for m in range(len(parts) - 1):
                    a, z = vertical(parts[m + 1]), cech(parts[m])
                    E.check(a == z or a == {k: -x % p for k, x in z.items()},
                            'a representative is not a cycle of the total '
                            'complex')
                if q + c < max_dim and c < ss.no_columns:
                    E.check(len(parts) == c + 1, 'a representative does not '
                            'reach the regions')
                    classes.setdefault(q + c, []).append(
                        (b, F.rk(B.barcode[j][1]), added_up(parts[-1])))
    # added up over the regions, they are bases of homology
    for n in range(max_dim):
        cl = classes.get(n, [])
        for b, d, z in cl:
            E.check(b < d, 'a bar is empty')
        pos = {}
        B = []
        for s in sorted((s for s in F.F if len(s) == n + 2),
                        key=lambda s: F.F[s]):
            col = {}
            for i in range(len(s)):
                f = s[:i] + s[i + 1:]
                col[pos.setdefault(f, len(pos))] = (-1) ** i % p
            B.append((F.F[s], col))
        Z = [(b, d, {pos.setdefault(s, len(pos)): x for s, x in z.items()})
             for b, d, z in cl]
        for t in range(F.top):
            alive = [z for b, d, z in Z if b <= t < d]
            E.check(len(alive) == sum(1 for b, d in want.get(n, [])
                                      if b <= t < d),
                    'not as many classes as the Betti number')
        for t in sorted({d - 1 for b, d, z in Z}):
            alive = [z for b, d, z in Z if b <= t < d]
            rows = {}
            for x, col in B:
                if x <= t:
                    insert(rows, col, p)
            for z in alive:
                E.check(insert(rows, z, p), 'representatives are not '
                        'independent in homology')


def perm_sign(s):
    sg = 1
    for i, j in itertools.combinations(range(len(s)), 2):
        if s[i] > s[j]:
            sg = -sg
    return sg


def mv_cases(tier, what):
    big = tier == 'thorough'
    cs = []

    def add(name, bounds, pts, r, move, p, max_dim, weight=1, opts={}, **a):
        a.update(pts=pts, r=r, move=move, p=p, max_dim=max_dim, what=what)
        cs.append(dict(dict(name=name, h=h_mv, args=a, bounds=bounds,
                            order='random', weight=weight), **opts))
    # lines
    add('line-3', '3 points of a line, 2 move, 2 regions', [[0.], [1.], [3.]],
        1.5, [(1, 0, -1, 2), (2, 0, -.5, 1)], 2, 1)
    add('line-4', '4 points of a line, 2 move, 3 regions',
        [[0.], [1.], [2.], [5.]], 1.5, [(1, 0, -.75, .75), (2, 0, -1, 2)],
        3, 2, div=3)
    add('one-region', '4 points of the plane in one region',
        [[0., 0.], [1., 0.], [1., 1.], [0., 1.]], 1.5,
        [(2, 0, -.5, 1)], 3, 2, div=1)
    for name, p, i, k in [('ext2', 2, 0, 0), ('ext2', 3, 3, 2),
                          ('ext3', 3, 0, 1), ('ext5', 5, 2, 2),
                          ('d2', 2, 3, 0), ('d2', 3, 0, 2),
                          ('d2-plane', 2, 2, 0), ('d2-plane', 5, 1, 1),
                          ('gam2', 2, 2, 0), ('gam3', 2, 2, 0),
                          ('gam3', 3, 0, 1)]:
        pts, r = CLOUDS[name]
        add('%s-p%d-%d%d' % (name, p, i, k), 'cloud %s, point %d moves along '
            'axis %d' % (name, i, k), pts, r, [(i, k, -.125, .125)], p, 2)
    for name, p, md in [('gamd', 2, 2), ('rep2', 3, 2)] + (
            [('ext11', 5, 3), ('ext20', 2, 3)]):
        pts, r = CLOUDS[name]
        add('%s-p%d' % (name, p), 'cloud %s, one point moves' % name, pts, r,
            [(1, 2, -.03125, .03125)], p, md)
    for name, p, i, k in [('cube5', 5, 7, 1)] + (
            [('cubed', 3, 8, 1)] if big or what == 'bars' else []) + (
            [('cube2', 2, 7, 1)] if big else []):
        pts, r = CLOUDS[name]
        add('%s-p%d' % (name, p), 'cloud %s, 8 regions, one point moves' %
            name, pts, r, [(i, k, -.0625, .0625)], p, 3,
            opts=dict(serial=True, path_timeout=60))
    # two coordinates at once
    for name, p, mv in [('ext2', 3, [(0, 0, -.0625, .0625),
                                     (1, 2, -.0625, .0625)]),
                        ('d2-plane', 3, [(0, 1, -.0625, .0625),
                                         (3, 0, -.0625, .0625)]),
                        ('d2', 5, [(5, 2, -.0625, .0625),
                                   (1, 2, -.0625, .0625)]),
                        ('gam2', 3, [(1, 0, -.0625, .0625),
                                     (4, 1, -.0625, .0625)])]:
        pts, r = CLOUDS[name]
        add('two-%s-p%d' % (name, p), 'cloud %s, two coordinates move' % name,
            pts, r, mv, p, 2)
    # other covers
    add('line-5-div4', '5 points of a line, 2 move, 4 regions',
        [[0.], [1.], [3.], [5.], [8.]], 1.75,
        [(1, 0, -1, 1.5), (2, 0, -1, 1)], 7, 2, div=4)
    add('line-equal', 'points of a line that meet, 2 regions',
        [[0.], [1.], [1.25], [4.]], 2.0,
        [(1, 0, -.5, .5), (2, 0, -.5, .5)], 2, 2)
    add('line-wide', 'overlap larger than the hypercubes',
        [[0.], [1.], [2.], [3.]], 1.5, [(1, 0, -.5, .5), (2, 0, -.5, .5)],
        3, 2, overlap=2.5)
    add('plane-div3', 'points of the plane in 9 regions',
        [[-.5, -.5], [.5, -.5], [.5, .5], [-.5, .5], [0., .875],
         [-3., -3.], [3., 3.]], 1.125, [(4, 1, -.5, .25)], 3, 2, div=3)
    add('plane-thin', 'points of the plane, 3 by 2 regions',
        [[0., 0.], [1., 0.], [2., 0.], [3., .25], [4., 0.], [5., 1.],
         [6., 0.], [2., .75], [4., .75]], 1.25, [(3, 1, -.25, 1)], 2, 2,
        div=3)
    add('edge-r', 'no edge below the radius, or few', SQUARE, .5,
        [(1, 0, -.5, .25)], 3, 2)
    add('large-r', 'radius above the diameter', SQUARE, 3.5,
        [(1, 0, -.25, .25)], 3, 2, overlap=4.0)
    add('dim1', 'one dimension only', CLOUDS['d2-plane'][0], 1.0,
        [(2, 0, -.125, .125)], 3, 1)
    add('dim3', 'three dimensions in the plane', CLOUDS['d2-plane'][0], 1.0,
        [(2, 0, -.125, .125)], 3, 3)
    add('p11', 'modulo 11', CLOUDS['ext3'][0], 1.0625,
        [(2, 2, -.125, .125)], 11, 2)
    if big:
        for name, p, md in [('ext2', 7, 2), ('ext3', 2, 3), ('ext5', 3, 3),
                            ('d2', 7, 3), ('d2-plane', 3, 3), ('gam2', 5, 2),
                            ('gam3', 5, 2), ('gamd', 3, 3), ('rep2', 2, 2),
                            ('rep2', 5, 3), ('ext11', 3, 3),
                            ('ext20', 3, 3)]:
            pts, r = CLOUDS[name]
            n, dim = len(pts) - 2, len(pts[0])
            for i in range(n):
                k = (i + p) % dim
                add('all-%s-p%d-%d%d' % (name, p, i, k), 'cloud %s, point '
                    '%d moves along axis %d' % (name, i, k), pts, r,
                    [(i, k, -.25, .25)], p, md)
    return cs


SQUARE = [[0., 0.], [1., 0.], [1., 1.], [0., 1.], [2., 2.]]


def cases_p17(tier):
    return mv_cases(tier, 'bars')


def cases_p18(tier):
    return mv_cases(tier, 'reps')


def cases_p20(tier):
    return mv_cases(tier, 'pages')


PROPS = {
    'P17': dict(cases=cases_p17),
    'P18': dict(cases=cases_p18),
    'P20': dict(cases=cases_p20),
}
