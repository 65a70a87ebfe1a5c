"""Persistent homology of filtered complexes and barcode bases."""
import itertools

from .complexes import dist_matrix, template
from .util import (Ranks, boundary, in_span, ints, kernel, matvec, ph, rank)


# ------------------------------------------------------------- PH of a filtration

def check_sorted(E, B, tag):
    """standard barcode order: births up, deaths down"""
    for i in range(len(B) - 1):
        a, b = B[i], B[i + 1]
        E.check(E.any([E.lt(a[0], b[0]),
                       E.all([E.eq(a[0], b[0]), E.le(b[1], a[1])])]),
                tag + ' not in the standard barcode order')


def compare(E, S, lists, radii, D, top_rad, p, Hom, Im, Pre, what):
    """lists[d], radii[d]: simplices and birth radii per dimension, in column
    order; D the boundary matrices given to the package"""
    dim = len(lists)
    rk = Ranks(E, [0.0, top_rad] + [x for d in range(1, dim)
                                    for x in radii[d]])
    top = rk(top_rad)
    filt = {}
    rr = []
    for d in range(dim):
        rr.append([rk(x) for x in radii[d]])
        for s, x in zip(lists[d], rr[d]):
            filt[s] = x
    E.check(len(Hom) == dim, 'one barcode per dimension')
    bars = []
    for d in range(dim):
        if Hom[d].dim == 0:
            bars.append([])
            continue
        bs = []
        for row in Hom[d].barcode:
            b, e = rk(row[0]), rk(row[1])
            E.check(b >= 0 and e >= 0,
                    'bar end points are birth radii of simplices')
            bs.append((b, e))
        bars.append(bs)
        E.check(len(bs) == Hom[d].dim, 'dimension of the barcode')
    if 'bars' in what:
        want = ph(filt, p, top)
        for d in range(dim):
            E.check(sorted(bars[d]) == want.get(d, []),
                    'barcode in dimension %d' % d)
            if len(bars[d]) > 1:
                check_sorted(E, [list(r) for r in Hom[d].barcode], 'barcode')
    if 'reps' in what:
        cols = {}
        idx = {}
        for d in range(dim):
            idx[d] = {s: i for i, s in enumerate(lists[d])}
        for d in range(1, dim):
            cols[d] = [[int(D[d][i][j]) for i in range(len(lists[d - 1]))]
                       for j in range(len(lists[d]))]
        for d in range(dim):
            reps = []
            if bars[d]:
                M = ints(E, Hom[d].coordinates)
                E.check(len(M) == len(lists[d]) and
                        len(M[0]) == len(bars[d]), 'one cycle per bar')
                reps = [[r[j] % p for r in M] for j in range(len(bars[d]))]
            for c, (b, e) in zip(reps, bars[d]):
                if d > 0:
                    E.check(not any(matvec(cols[d], c, p)),
                            'a representative is not a cycle')
                E.check(all(rr[d][i] <= b for i, x in enumerate(c) if x),
                        'a representative uses simplices born after the bar')
                E.check(any(c), 'a representative is zero')
            for t in range(top):
                bd = [cols[d + 1][j] for j in range(len(lists[d + 1]))
                      if rr[d + 1][j] <= t] if d + 1 < dim else []
                al = [c for c, (b, e) in zip(reps, bars[d]) if b <= t < e]
                dead = [c for c, (b, e) in zip(reps, bars[d]) if e <= t]
                r0 = rank(bd, p)
                E.check(rank(bd + al, p) == r0 + len(al),
                        'the classes alive at a radius are dependent')
                E.check(rank(bd + dead, p) == r0,
                        'a class does not vanish when its bar ends')
                # spans: number of alive classes is the Betti number
                act = [i for i in range(len(lists[d])) if rr[d][i] <= t]
                z = len(act) if d == 0 else len(act) - rank(
                    [cols[d][i] for i in act], p)
                E.check(len(al) == z - r0, 'number of classes alive')
    if 'images' in what:
        cols = {d: [[int(D[d][i][j]) for i in range(len(lists[d - 1]))]
                    for j in range(len(lists[d]))] for d in range(1, dim)}
        for d in range(dim):
            n = Im[d].dim
            if n == 0:
                if d + 1 < dim:
                    E.check(not any(any(c) for c in cols[d + 1]),
                            'boundaries missing')
                continue
            ib = []
            for row in Im[d].barcode:
                b, e = rk(row[0]), rk(row[1])
                E.check(b >= 0 and e == top, 'boundaries live to the end')
                ib.append(b)
            check_sorted(E, [list(r) for r in Im[d].barcode], 'boundaries')
            M = ints(E, Im[d].coordinates)
            vec = [[r[j] % p for r in M] for j in range(n)]
            for t in range(top):
                bd = [cols[d + 1][j] for j in range(len(lists[d + 1]))
                      if rr[d + 1][j] <= t]
                al = [v for v, b in zip(vec, ib) if b <= t]
                r0 = rank(bd, p)
                E.check(len(al) == r0 and rank(al, p) == r0 and
                        rank(bd + al, p) == r0,
                        'boundary basis is wrong at some radius')
            P = ints(E, Pre[d + 1])
            E.check(len(P) == len(lists[d + 1]) and len(P[0]) == n,
                    'one preimage per boundary')
            for j in range(n):
                c = [r[j] % p for r in P]
                E.check(matvec(cols[d + 1], c, p) == vec[j],
                        'preimage does not map to the boundary')
                E.check(all(rr[d + 1][i] <= ib[j]
                            for i, x in enumerate(c) if x),
                        'preimage uses simplices born after the boundary')
    E.reach()


def h_vr_ph(S, E, n, max_dim, p, what, template=None, r=4.0):
    M = dist_matrix(E, n, template)
    C, R = S.vr.vietoris_rips(E.array(M), r, max_dim)
    D = S.differentials.complex_differentials(C, p)
    Hom, Im, Pre = S.ph.persistent_homology(D, R, r, p)
    lists = [[(v,) for v in range(n)]]
    radii = [[0.0] * n]
    for d in range(1, max_dim + 1):
        lists.append([tuple(int(x) for x in s) for s in C[d]])
        radii.append(list(R[d]))
    compare(E, S, lists, radii, D, r, p, Hom, Im, Pre, what)


def closure(tops):
    lab = {v: i for i, v in enumerate(sorted(set(v for t in tops
                                                 for v in t)))}
    tops = [tuple(lab[v] for v in t) for t in tops]
    out = {}
    for t in tops:
        for k in range(1, len(t) + 1):
            for f in itertools.combinations(sorted(t), k):
                out.setdefault(k - 1, set()).add(f)
    return [sorted(out[d]) for d in sorted(out)]


RP2 = [(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 5), (0, 3, 4), (1, 2, 3),
       (1, 2, 4), (1, 3, 5), (2, 4, 5), (3, 4, 5)]
TETRA = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
FULL4 = [(0, 1, 2, 3)]
OCTA = [(a, b, c) for a in (0, 1) for b in (2, 3) for c in (4, 5)]
MOORE3 = [(0, 3, 6), (0, 1, 6), (1, 6, 7), (1, 2, 7), (2, 5, 7), (0, 2, 5),
          (0, 3, 5), (2, 3, 5), (0, 2, 3)]
K4 = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
DUNCE = [(0, 1, 3), (0, 1, 7), (0, 1, 6), (0, 2, 4), (0, 2, 6), (0, 2, 7),
         (1, 2, 3), (1, 2, 4), (1, 2, 5), (0, 3, 4), (1, 5, 6), (2, 3, 7),
         (1, 4, 7), (2, 5, 6), (3, 4, 7), (4, 5, 6), (4, 6, 7)]

TORUS7 = [tuple(sorted(((i) % 7, (i + a) % 7, (i + 3) % 7)))
          for i in range(7) for a in (1, 2)]
SPHERE3 = list(itertools.combinations(range(5), 4))


def klein():
    def v(i, j):
        if i == 4:
            i, j = 0, -j
        return 3 * i + j % 3
    out = set()
    for i in range(4):
        for j in range(3):
            out.add(tuple(sorted((v(i, j), v(i + 1, j), v(i + 1, j + 1)))))
            out.add(tuple(sorted((v(i, j), v(i, j + 1), v(i + 1, j + 1)))))
    return sorted(out)


def h_filtered(S, E, tops, p, what, perm=None, coarse=None):
    """a fixed complex with symbolic birth radii: columns are in a given order
    and the radii increase along it"""
    if callable(p):
        p = p(E)
    lists = closure(tops)
    n = len(lists[0])
    lists = [[(v,) for v in range(n)]] + lists[1:]
    radii = [[0.0] * n]
    top = 10.0
    birth = {(v,): 0.0 for v in range(n)}
    for d in range(1, len(lists)):
        L = lists[d]
        if perm:
            k = E.choice('perm%d' % d, range(perm))
            L = rotate(L, k)
            lists[d] = L
        rs = []
        m = len(L)
        g = coarse or m
        for j in range(m):
            if j % max(1, (m + g - 1) // g) == 0 or not rs:
                x = E.real('r%d_%d' % (d, j), 0, 10, hi_open=True,
                           default=d + j / 32.0)
                if rs:
                    E.assume(rs[-1] <= x)
            else:
                x = rs[-1]
            for _, f in boundary(L[j]):
                if d > 1:
                    E.assume(birth[f] <= x)
            birth[L[j]] = x
            rs.append(x)
        radii.append(rs)
    C = [n] + [E.array([list(s) for s in lists[d]])
               for d in range(1, len(lists))]
    D = S.differentials.complex_differentials(C, p)
    R = [E.array(r) for r in radii]
    D0 = [None] + [ints(E, D[d]) for d in range(1, len(D))]
    Hom, Im, Pre = S.ph.persistent_homology(D, R, top, p)
    E.check(all(ints(E, D[d]) == D0[d] for d in range(1, len(D))),
            'boundary matrices modified')
    E.check(E.all(x == y for a, b in zip(R, radii) for x, y in zip(a, b)),
            'radii modified')
    compare(E, S, lists, radii, D, top, p, Hom, Im, Pre, what)


def rotate(L, k):
    """some orders of the columns"""
    if k == 0:
        return L
    if k == 1:
        return L[::-1]
    m = len(L)
    if k == 2:
        return L[m // 2:] + L[:m // 2]
    if k == 3:
        return L[::2] + L[1::2]
    st = {4: 3, 5: 5, 6: 7}.get(k, 11)
    while True:
        seen = set((st * i) % m for i in range(m))
        if len(seen) == m:
            return [L[(st * i + k) % m] for i in range(m)]
        st += 1


def ph_cases(tier, what):
    cs = []
    big = tier == 'thorough'

    def add(name, h, bounds, order='random', weight=1, **a):
        a['what'] = what
        cs.append(dict(name=name, h=h, args=a, bounds=bounds, order=order,
                       weight=weight))
    for n, d, p in [(1, 1, 3), (2, 1, 2), (2, 2, 3), (3, 2, 3), (3, 3, 5)]:
        add('vr-%d-dim%d-p%d' % (n, d, p), h_vr_ph, 'Rips complexes of %d '
            'points, all distances symbolic' % n, n=n, max_dim=d, p=p)
    add('vr-4-dim2-p3', h_vr_ph, '4 points, all 6 distances symbolic',
        weight=3, n=4, max_dim=2, p=3)
    if big:
        add('vr-4-dim3-p2', h_vr_ph, '4 points, all 6 distances symbolic',
            weight=3, n=4, max_dim=3, p=2)
        add('vr-4-dim3-p5', h_vr_ph, '4 points, all 6 distances symbolic',
            weight=3, n=4, max_dim=3, p=5)
    free = [(0, 1), (1, 2), (2, 4)]
    add('vr-5-dim3-p3', h_vr_ph, '5 points, 3 distances symbolic', n=5,
        max_dim=3, p=3, template=template(5, free, [1, 3, 2, 3.5, 1, 2.5, 3]))
    # a six-cycle of short distances: loops
    hexa = {}
    for i in range(6):
        for j in range(i):
            k = min((i - j) % 6, (j - i) % 6)
            if not ((j, i) in [(0, 1), (2, 5)]):
                hexa[j, i] = {1: 1.0, 2: 2.5, 3: 3.5}[k]
    add('vr-hexagon-p3', h_vr_ph, 'a hexagon, 2 distances symbolic', n=6,
        max_dim=3, p=3, template=hexa)
    add('k4-graph-p5', h_filtered, 'complete graph on 4 vertices, symbolic '
        'radii, 4 column orders', tops=K4, p=5, perm=4)
    add('tetra-p3', h_filtered, 'boundary of a tetrahedron, symbolic radii, '
        'several column orders', tops=TETRA, p=3, perm=3, coarse=3, weight=2)
    add('tetra-distinct-p7', h_filtered, 'boundary of a tetrahedron, all '
        'radii symbolic', tops=TETRA, p=7, weight=2)
    add('full4-p2', h_filtered, '3-simplex, symbolic radii', tops=FULL4, p=2,
        perm=2, coarse=3)
    for p in (2, 3, 5):
        add('rp2-p%d' % p, h_filtered, 'projective plane, radii symbolic in '
            '3 steps per dimension, several column orders', tops=RP2, p=p,
            perm=4 if big else 2, coarse=3)
    add('octa-p3', h_filtered, 'octahedron (2-sphere)', tops=OCTA, p=3,
        perm=4 if big else 2, coarse=3)
    add('moore-p3', h_filtered, 'a complex with 9 triangles', tops=MOORE3,
        p=3, perm=2, coarse=3)
    add('torus-p7', h_filtered, 'torus on 7 vertices, radii symbolic in 2 '
        'steps per dimension', tops=TORUS7, p=7, perm=3 if big else 2,
        coarse=2)
    for p in (2, 3):
        add('klein-p%d' % p, h_filtered, 'Klein bottle on 12 vertices, radii '
            'symbolic in 2 steps per dimension', tops=klein(), p=p,
            perm=2 if big else 1, coarse=2)
    add('full5-p3', h_filtered, '4-simplex, radii symbolic in 2 steps per '
        'dimension', tops=[(0, 1, 2, 3, 4)], p=3,
        perm=3 if big else 1, coarse=2)
    add('sphere3-p11', h_filtered, 'boundary of a 4-simplex, radii symbolic '
        'in 2 steps per dimension', tops=SPHERE3, p=11,
        perm=3 if big else 1, coarse=2)
    add('pieces-p13', h_filtered, 'projective plane, a loose edge and a loose '
        'vertex', tops=RP2 + [(6, 7), (8,)], p=13, perm=2, coarse=2)
    add('vr-8-dim2-p5', h_vr_ph, '8 points, 2 distances symbolic', n=8,
        max_dim=2, p=5, template=template(
            8, [(0, 7), (2, 5)], [1, 3, 2, 5, 3.5, 1.5, 6, 2.5, 3, 7, 1.25]))
    add('vr-6-dim4-p2', h_vr_ph, '6 points, 2 distances symbolic', n=6,
        max_dim=4, p=2, template=template(
            6, [(0, 1), (3, 5)], [1, 3, 2, 3.5, 1.5, 2.5]))
    add('vr-7-dim1-p3', h_vr_ph, '7 points, 3 distances symbolic, graphs',
        n=7, max_dim=1, p=3, template=template(
            7, [(0, 1), (3, 5), (2, 6)], [1, 5, 2, 3.5, 1.5, 6, 2.5, 4]))
    add('vr-12-dim2-p7', h_vr_ph, '12 points, a distance symbolic', n=12,
        max_dim=2, p=7, template=template(
            12, [(2, 9)], [1, 5, 2, 6, 3.5, 8, 1.5, 6.5, 2.5, 3, 7, 5.5, 9]))
    if big:
        add('octa-p2-fine', h_filtered, 'octahedron, 6 steps', tops=OCTA, p=2,
            perm=7, coarse=6)
        add('rp2-p2-fine', h_filtered, 'projective plane, 6 steps', tops=RP2,
            p=2, perm=7, coarse=6)
        add('rp2-p3-fine', h_filtered, 'projective plane, 6 steps', tops=RP2,
            p=3, perm=7, coarse=6)
        add('dunce-p5', h_filtered, 'a complex with 17 triangles',
            tops=DUNCE, p=5, perm=3, coarse=3)
    return cs


def cases_p08(tier):
    return ph_cases(tier, ('bars',))


def cases_p09(tier):
    return ph_cases(tier, ('reps', 'images'))


# ------------------------------------------------------------- barcode bases

def symbars(E, n, valid=False):
    out = []
    for i in range(n):
        b = E.real('b%d' % i, -2, 6, default=i % 2)
        d = E.real('d%d' % i, -2, 8, default=3 + i % 3)
        if valid:
            E.assume(b < d)
        out.append([b, d])
    return out


def h_basis(S, E, n, p, store):
    """construction, sorting, life spans"""
    B = symbars(E, n)
    co = [[E.int('c%d%d' % (i, j), 0, p - 1) for j in range(n)]
          for i in range(2)]
    prev = S.bases.barcode_basis(E.array([[0., 9.], [1., 9.]]))
    X = S.bases.barcode_basis(E.array(B), prev, E.array(co),
                              store_well_defined=store)
    keep = [i for i in range(n) if bool(B[i][0] < B[i][1])]
    E.check(X.dim == len(keep), 'empty bars are dropped')
    if not keep:
        E.reach()
        return
    E.check(len(X.barcode) == len(keep), 'empty bars are dropped')
    if store:
        E.check([bool(x) for x in X.well_defined] ==
                [i in keep for i in range(n)], 'record of the bars kept')
    for k, i in enumerate(keep):
        E.check(E.all([X.barcode[k][0] == B[i][0],
                       X.barcode[k][1] == B[i][1]]), 'bars kept in order')
        E.check(E.all(X.coordinates[t][k] == co[t][i] for t in range(2)),
                'coordinates follow their bars')
    before = [list(r) for r in X.barcode]
    order = X.sort(send_order=True)
    order = [int(o) for o in order]
    E.check(sorted(order) == list(range(len(keep))), 'order is a permutation')
    for k, o in enumerate(order):
        E.check(E.all([X.barcode[k][0] == before[o][0],
                       X.barcode[k][1] == before[o][1]]),
                'order does not describe the sorted bars')
        E.check(E.all(X.coordinates[t][k] == co[t][keep[o]]
                      for t in range(2)), 'coordinates follow their bars')
    for k in range(len(order) - 1):
        a, b = X.barcode[k], X.barcode[k + 1]
        E.check(E.any([a[0] < b[0], E.all([E.eq(a[0], b[0]),
                                           E.le(b[1], a[1])])]),
                'standard barcode order')
    E.reach()


def h_life(S, E, n):
    B = symbars(E, n, valid=True)
    X = S.bases.barcode_basis(E.array(B))
    r = E.real('r', -3, 9, default=1)
    act = [int(x) for x in X.active(r)]
    bor = [int(x) for x in X.birth(r)]
    die = [int(x) for x in X.death(r)]
    for i in range(n):
        E.check((i in act) == bool(E.all([B[i][0] <= r, r < B[i][1]])),
                'active bars')
        E.check((i in bor) == bool(B[i][0] == r), 'bars born')
        E.check((i in die) == bool(B[i][1] == r), 'bars dying')
    for l in (act, bor, die):
        E.check(l == sorted(set(l)), 'indices listed once, in order')
    E.reach()


def h_changes(S, E, n):
    B = symbars(E, n, valid=True)
    X = S.bases.barcode_basis(E.array(B))
    ch = list(X.changes_list())
    for i in range(len(ch) - 1):
        E.check(ch[i] < ch[i + 1], 'radii increase strictly')
    for row in B:
        for x in row:
            E.check(E.any(x == c for c in ch), 'a change is missing')
    for c in ch:
        E.check(E.any(c == x for row in B for x in row), 'not a change')
    E.reach()


def h_broken(S, E, n, m, p):
    """rewriting coordinates when generators die"""
    B = symbars(E, n, valid=True)
    bd = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                bd[i][j] = E.int('m%d%d' % (i, j), 0, p - 1)
    X = S.bases.barcode_basis(E.array(B), broken_basis=True,
                              broken_differentials=E.array(bd))
    A = [[E.int('a%d%d' % (i, j), 0, p - 1) for j in range(m)]
         for i in range(n)]
    k = E.choice('k', range(n))
    r = B[k][1]
    dying = [i for i in range(n) if bool(B[i][1] == r)]
    out = X.update_broken(E.array(A), r, p)
    for j in range(m):
        for i in range(n):
            v = 0 if i in dying else A[i][j]
            for t in dying:
                v = v + bd[i][t] * A[t][j]
            E.check((out[i][j] - v) % p == 0, 'rewritten coordinates')
    E.reach()


def h_broken_sort(S, E, n, p):
    B = symbars(E, n, valid=True)
    bd = [[(3 * i + j) % 5 for j in range(n)] for i in range(n)]
    X = S.bases.barcode_basis(E.array(B), broken_basis=True,
                              broken_differentials=E.array(bd))
    o = [int(x) for x in X.sort(send_order=True)]
    E.check(sorted(o) == list(range(n)), 'order is a permutation')
    for i in range(n):
        E.check(E.all([X.barcode[i][0] == B[o[i]][0],
                       X.barcode[i][1] == B[o[i]][1]]), 'sorted bars')
        for j in range(n):
            E.check(X.broken_differentials[i][j] == bd[o[i]][o[j]],
                    'rewriting rules follow their bars')
    E.reach()


def wide_bars(E, k):
    x = E.real('x', -2, 9, default=2)
    y = E.real('y', -2, 9, default=5)
    B = [[1.0, 4.0], [0.0, y], [1.0, 4.0], [x, 7.0], [2.0, 5.0], [0.0, 3.0]]
    return [list(r) for r in B[:k]]


def h_basis_wide(S, E, p):
    B = wide_bars(E, 6)
    B[4][0] = E.real('z', -2, 6, default=0)
    co = [[(3 * i + 2 * j) % p for j in range(6)] for i in range(3)]
    co[1][3] = E.int('c', 0, p - 1)
    prev = S.bases.barcode_basis(E.array([[0., 9.], [1., 9.], [1., 8.]]))
    X = S.bases.barcode_basis(E.array(B), prev, E.array(co),
                              store_well_defined=True)
    keep = [i for i in range(6) if bool(B[i][0] < B[i][1])]
    E.check(X.dim == len(keep), 'empty bars are dropped')
    E.check([bool(x) for x in X.well_defined] ==
            [i in keep for i in range(6)], 'record of the bars kept')
    o = [int(t) for t in X.sort(send_order=True)]
    E.check(sorted(o) == list(range(len(keep))), 'order is a permutation')
    for k, t in enumerate(o):
        i = keep[t]
        E.check(E.all([X.barcode[k][0] == B[i][0],
                       X.barcode[k][1] == B[i][1]] +
                      [X.coordinates[r][k] == co[r][i] for r in range(3)]),
                'bars and coordinates move together')
    check_sorted(E, [list(r) for r in X.barcode], 'basis')
    # sorting again changes nothing
    before = [list(r) for r in X.barcode]
    X.sort()
    E.check(E.all(x == y for a, b in zip(before, X.barcode)
                  for x, y in zip(a, b)), 'sorting twice moves bars')
    E.reach()


def h_life_wide(S, E):
    B = wide_bars(E, 6)
    for b, d in B:
        E.assume(b < d)
    X = S.bases.barcode_basis(E.array(B))
    if E.choice('sorted', range(2)):
        X.sort()
        B = [list(r) for r in X.barcode]
    r = E.real('r', -3, 10, default=1)
    act = [int(t) for t in X.active(r)]
    bor = [int(t) for t in X.birth(r)]
    die = [int(t) for t in X.death(r)]
    E.check(act == [i for i in range(6) if bool(B[i][0] <= r) and
                    bool(r < B[i][1])], 'active bars')
    E.check(bor == [i for i in range(6) if bool(B[i][0] == r)], 'bars born')
    E.check(die == [i for i in range(6) if bool(B[i][1] == r)], 'bars dying')
    E.reach()


def h_broken_wide(S, E, p):
    B = wide_bars(E, 5)
    n, m = 5, 3
    for b, d in B:
        E.assume(b < d)
    bd = [[0 if i == j else (i + 3 * j) % p for j in range(n)]
          for i in range(n)]
    bd[2][3] = E.int('m', 0, p - 1)
    A = [[(2 * i + j + 1) % p for j in range(m)] for i in range(n)]
    A[0][1] = E.int('a', 0, p - 1)
    X = S.bases.barcode_basis(E.array(B), broken_basis=True,
                              broken_differentials=E.array(bd))
    k = E.choice('k', range(n))
    r = B[k][1]
    dying = [i for i in range(n) if bool(B[i][1] == r)]
    out = X.update_broken(E.array(A), r, p)
    for j in range(m):
        for i in range(n):
            v = 0 if i in dying else A[i][j]
            for t in dying:
                v = v + bd[i][t] * A[t][j]
            E.check((out[i][j] - v) % p == 0, 'rewritten coordinates')
    E.reach()


def h_reject(S, E):
    """inconsistent data raises ValueError"""
    k = E.choice('k', range(4))
    prev = S.bases.barcode_basis(E.array([[0., 1.], [0., 2.]]))
    x = E.real('x', 2, 5, default=3)
    bars = E.array([[0., x], [1., x]])
    try:
        if k == 0:
            S.bases.barcode_basis(bars, prev, E.array([[1, 0], [0, 1],
                                                       [0, 0]]))
        elif k == 1:
            S.bases.barcode_basis(bars, prev, E.array([[1], [0]]))
        elif k == 2:
            S.bases.barcode_basis(bars, broken_basis=True)
        else:
            S.bases.barcode_basis(bars, broken_basis=True,
                                  broken_differentials=E.array([[0]]))
    except ValueError:
        E.reach()
        return
    E.fail('inconsistent data accepted')


def h_misfit(S, E, hi):
    """coordinates and continuations are accepted exactly when they fit"""
    m, n = int(E.int('gens', 1, hi)), int(E.int('bars', 1, hi))
    r, c = int(E.int('rows', 1, hi)), int(E.int('cols', 1, hi))
    x = E.real('end', 2, 5, default=3)
    prev = S.bases.barcode_basis(E.array([[0., 1. + i] for i in range(m)]))
    bars = E.array([[1. + i / 4., x] for i in range(n)])
    M = [[E.int('entry%d%d' % (i, j), 0, 2) for j in range(c)] for i in range(r)]
    glue = E.choice('glue', range(2))
    try:
        if glue:
            S.bases.barcode_basis(bars, broken_basis=True,
                                  broken_differentials=E.array(M))
        else:
            S.bases.barcode_basis(bars, prev, E.array(M))
        ok = True
    except ValueError:
        ok = False
    fit = (r == n and c == n) if glue else (r == m and c == n)
    E.check(ok == fit, 'data that do not fit are accepted' if ok else
            'data that fit are rejected')
    E.reach()


def cases_p10(tier):
    cs = [dict(name='misfit', h=h_misfit, args=dict(hi=3), order='random',
               bounds='up to 3 bars, generators, rows and columns'),
          dict(name='reject', h=h_reject, args={}, bounds='4 kinds of error')]
    big = tier == 'thorough'
    for n in (1, 2, 3):
        cs.append(dict(name='sort-%d' % n, h=h_basis, order='random',
                       args=dict(n=n, p=3, store=n == 2),
                       bounds='%d bars, symbolic (possibly empty)' % n))
        cs.append(dict(name='life-%d' % n, h=h_life, args=dict(n=n),
                       order='random', bounds='%d bars and a radius' % n))
    for n in (1, 2):
        cs.append(dict(name='changes-%d' % n, h=h_changes, args=dict(n=n),
                       order='random', bounds='%d bars' % n))
    cs.append(dict(name='broken-2', h=h_broken, args=dict(n=2, m=2, p=3),
                   order='random', bounds='2 bars, 2 columns, Z/3'))
    cs.append(dict(name='broken-3', h=h_broken, args=dict(n=3, m=1, p=2),
                   order='random', bounds='3 bars, 1 column, Z/2'))
    cs.append(dict(name='broken-sort-3', h=h_broken_sort,
                   args=dict(n=3, p=5), order='random', bounds='3 bars'))
    cs.append(dict(name='sort-wide', h=h_basis_wide, args=dict(p=5),
                   order='random', bounds='6 bars, 3 ends symbolic'))
    cs.append(dict(name='life-wide', h=h_life_wide, args={}, order='random',
                   bounds='6 bars, 2 ends and the radius symbolic'))
    cs.append(dict(name='broken-wide', h=h_broken_wide, args=dict(p=7),
                   order='random', bounds='5 bars, 3 columns, Z/7, some ends '
                   'and coefficients symbolic'))
    if big:
        cs.append(dict(name='sort-4', h=h_basis, order='random',
                       args=dict(n=4, p=3, store=True), bounds='4 bars'))
        cs.append(dict(name='changes-3', h=h_changes, args=dict(n=3),
                       order='random', bounds='3 bars'))
        cs.append(dict(name='broken-3-p5', h=h_broken,
                       args=dict(n=3, m=2, p=5), order='random',
                       bounds='3 bars, 2 columns, Z/5'))
    return cs


PROPS = {
    'P08': dict(cases=cases_p08),
    'P09': dict(cases=cases_p09),
    'P10': dict(cases=cases_p10),
}
