"""Vietoris-Rips complexes, flag complexes, boundary operators."""
import itertools

from .util import Ranks, boundary, matvec


def dist_matrix(E, n, template=None, lo=0, hi=8):
    """symmetric matrix with zero diagonal; entries not in the template are
    symbolic"""
    M = [[0.0] * n for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(i):
            if template is not None and (j, i) in template:
                v = template[j, i]
            else:
                v = E.real('d%d%d' % (j, i), lo, hi, default=(k * 3) % 7 + 1)
            M[i][j] = M[j][i] = v
            k += 1
    return M


def maxval(vals):
    m = vals[0]
    for v in vals[1:]:
        if bool(v > m):
            m = v
    return m


def h_vr(S, E, n, max_dim, template=None, sym_r=False):
    M = dist_matrix(E, n, template)
    r = E.real('r', 0, 9, default=4, lo_open=True) if sym_r else 4.0
    D = E.array(M)
    C, R = S.vr.vietoris_rips(D, r, max_dim)
    top = max(max_dim, 1)
    E.check(int(C[0]) == n, 'number of vertices')
    E.check(len(C) == top + 1 and len(R) == top + 1, 'number of dimensions')
    E.check(len(R[0]) == n, 'vertex radii')
    for x in R[0]:
        E.check(x == 0, 'vertices are born at 0')
    below = {}
    for i in range(n):
        for j in range(i):
            below[j, i] = bool(M[i][j] < r)
    for d in range(1, top + 1):
        want = [s for s in itertools.combinations(range(n), d + 1)
                if all(below[e] for e in itertools.combinations(s, 2))]
        got = [tuple(int(x) for x in s) for s in C[d]]
        E.check(len(R[d]) == len(got), 'one radius per simplex')
        for s in got:
            E.check(list(s) == sorted(set(s)), 'vertices in increasing order')
        E.check(sorted(got) == want,
                'simplices are the cliques of the neighbourhood graph')
        prev = None
        for s, x in zip(got, R[d]):
            ds = [M[a][b] for a, b in itertools.combinations(s, 2)]
            E.check(E.all([E.le(y, x) for y in ds] +
                          [E.any(E.eq(y, x) for y in ds)]),
                    'birth is the longest edge')
            if prev is not None:
                E.check(E.le(prev, x), 'simplices sorted by birth')
            prev = x
    E.check(E.all(D[i][j] == M[i][j] for i in range(n) for j in range(n)),
            'distance matrix modified')
    E.reach()


def h_vr_line(S, E, n, max_dim):
    """points on a line: distances are differences of coordinates"""
    x = [E.real('x%d' % i, 0, 16, default=(i * 5) % 7) for i in range(n)]
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = abs(x[i] - x[j])
    run_vr(S, E, n, max_dim, M, 4.0)


def run_vr(S, E, n, max_dim, M, r):
    D = E.array(M)
    C, R = S.vr.vietoris_rips(D, r, max_dim)
    for d in range(1, max_dim + 1):
        got = [tuple(int(v) for v in s) for s in C[d]]
        want = [s for s in itertools.combinations(range(n), d + 1)
                if all(bool(M[a][b] < r)
                       for a, b in itertools.combinations(s, 2))]
        E.check(sorted(got) == want,
                'simplices are the cliques of the neighbourhood graph')
        for k, (s, v) in enumerate(zip(got, R[d])):
            ds = [M[a][b] for a, b in itertools.combinations(s, 2)]
            E.check(E.all([E.le(y, v) for y in ds] +
                          [E.any(E.eq(y, v) for y in ds)]),
                    'birth is the longest edge')
            if k:
                E.check(E.le(R[d][k - 1], v), 'simplices sorted by birth')
    E.reach()


def template(n, free, vals):
    """fixed distances for all pairs but the free ones"""
    out = {}
    k = 0
    for i in range(n):
        for j in range(i):
            if (j, i) not in free:
                out[j, i] = float(vals[k % len(vals)])
                k += 1
    return out


def cases_p05(tier):
    cs = []
    big = tier == 'thorough'

    def add(name, h, bounds, order='dfs', weight=1, **a):
        cs.append(dict(name=name, h=h, args=a, bounds=bounds, order=order,
                       weight=weight))
    for n, d in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)]:
        add('dist-%d-dim%d' % (n, d), h_vr, '%d points, all distances and the '
            'threshold symbolic, dimension %d' % (n, d), n=n, max_dim=d,
            sym_r=True)
    add('dist-3-dim0', h_vr, '3 points, dimension 0 asked', n=3, max_dim=0,
        sym_r=True)
    for d in (2, 3):
        add('dist-4-dim%d' % d, h_vr, '4 points, all 6 distances symbolic, '
            'threshold 4', order='random', weight=4, n=4, max_dim=d)
    add('dist-4-dim3-r', h_vr, '4 points, 3 distances and the threshold '
        'symbolic', order='random', n=4, max_dim=3, sym_r=True,
        template=template(4, [(0, 1), (1, 2), (2, 3)], [1, 3, 2]))
    free5 = [(0, 1), (1, 2), (2, 4), (0, 3)]
    add('dist-5-dim4', h_vr, '5 points, 4 distances symbolic', order='random',
        n=5, max_dim=4, template=template(5, free5, [1, 3, 2, 3, 1, 2]))
    add('dist-5-dim2', h_vr, '5 points, 4 distances symbolic, some equal to '
        'the threshold', order='random', n=5, max_dim=2,
        template=template(5, free5, [1, 4, 2, 5, 3, 3.5]))
    add('line-4', h_vr_line, '4 points on a line, coordinates symbolic',
        order='random', n=4, max_dim=3)
    # more points, few symbolic distances
    add('clique-7-dim6', h_vr, '7 points close together, 2 distances '
        'symbolic, dimension 6', order='random', n=7, max_dim=6,
        template=template(7, [(0, 6), (2, 4)], [1, 3, 2, 3, 1, 2, 2.5]))
    add('dist-9-dim2', h_vr, '9 points, 3 distances symbolic',
        order='random', n=9, max_dim=2,
        template=template(9, [(0, 8), (3, 4), (1, 7)],
                          [1, 5, 3, 4, 2, 6, 3.5, 1, 7, 2, 4.5, 3, 8]))
    add('dist-12-dim1', h_vr, '12 points, 3 distances symbolic',
        order='random', n=12, max_dim=1,
        template=template(12, [(0, 11), (10, 11), (2, 5)],
                          [5, 4, 2, 6, 3.5, 1, 7, 2, 4.5, 3, 8]))
    add('dist-6-thr', h_vr, '6 points, 2 distances and the threshold '
        'symbolic', order='random', n=6, max_dim=3, sym_r=True,
        template=template(6, [(0, 1), (2, 5)],
                          [1, 3, 2, 5, 3, 1, 2, 3.5, 2, 4, 1]))
    add('far-6', h_vr, '6 points, most of them isolated', order='random',
        n=6, max_dim=3, template=template(
            6, [(0, 1), (4, 5), (2, 4), (2, 5)], [100, 2000, 70000]))
    vals = [5, 4, 2, 6, 3.5, 1, 7, 2.25, 4.5, 3, 8, 5.5, 9, 3.75, 6.5, 10, 12]
    add('dist-22-dim2', h_vr, '22 points, 2 distances symbolic',
        order='random', n=22, max_dim=2,
        template=template(22, [(0, 21), (7, 15)], vals))
    add('dist-14-dim4', h_vr, '14 points, a distance and the threshold '
        'symbolic', order='random', n=14, max_dim=4, sym_r=True,
        template=template(14, [(3, 11)], vals[:16]))
    if big:
        add('dist-5-all', h_vr, '5 points, all 10 distances symbolic (not '
            'exhausted)', order='random', weight=4, n=5, max_dim=4)
        add('line-5', h_vr_line, '5 points on a line', order='random',
            n=5, max_dim=3)
        add('dist-6-dim3', h_vr, '6 points, 4 distances symbolic',
            order='random', n=6, max_dim=3,
            template=template(6, free5, [1, 3, 2, 5, 3, 1, 2, 3.5, 2, 4, 1]))
    return cs


# -------------------------------------------------------------- flag complexes

def check_flag(S, E, edges, G, n, max_dim):
    if not edges:
        G = E.np.zeros((0, 2))
    F = S.flag.flag_complex(G, n, max_dim)
    es = set(frozenset(e) for e in edges)
    E.check(len(F) == max_dim + 1, 'number of dimensions')
    E.check(int(F[0]) == n, 'number of vertices')
    for d in range(1, max_dim + 1):
        got = [tuple(int(x) for x in s) for s in F[d]]
        want = [s for s in itertools.combinations(range(n), d + 1)
                if all(frozenset(e) in es
                       for e in itertools.combinations(s, 2))]
        E.check(sorted(tuple(sorted(s)) for s in got) == want,
                'simplices of dimension %d are the cliques' % d)
    E.reach()
    return F


def h_flag_bits(S, E, n, max_dim):
    """every graph on n vertices"""
    edges = []
    for i in range(n):
        for j in range(i):
            if bool(E.int('e%d%d' % (j, i), 0, 1) == 1):
                edges.append((j, i))
    check_flag(S, E, edges, E.array(edges) if edges else None, n, max_dim)


def h_flag_some(S, E, n, max_dim, fixed, free, shift=0):
    """a fixed graph and some edges that may or may not be there, listed in
    two orders"""
    edges = [tuple(x + shift for x in e) for e in fixed]
    for a, b in free:
        if bool(E.int('e%d_%d' % (a, b), 0, 1, default=1) == 1):
            edges.append((a + shift, b + shift))
    if E.choice('rev', range(2)):
        edges = edges[::-1]
    n = n + shift
    G = E.array(edges) if edges else E.np.zeros((0, 2))
    F = S.flag.flag_complex(G, n, max_dim)
    es = set(frozenset(e) for e in edges)
    E.check(len(F) == max_dim + 1, 'number of dimensions')
    E.check(int(F[0]) == n, 'number of vertices')
    adj = sorted(set(x for e in edges for x in e))
    for d in range(1, max_dim + 1):
        got = [tuple(int(x) for x in s) for s in F[d]]
        want = [s for s in itertools.combinations(adj, d + 1)
                if all(frozenset(e) in es
                       for e in itertools.combinations(s, 2))]
        E.check(sorted(tuple(sorted(s)) for s in got) == want,
                'simplices of dimension %d are the cliques' % d)
    E.check([tuple(int(x) for x in e) for e in G] == edges, 'graph modified')
    E.reach()


def h_flag_sym(S, E, n, k, max_dim, oriented):
    """k edges with symbolic end points, in any order"""
    raw = []
    for t in range(k):
        a = E.int('a%d' % t, 0, n - 1, default=t % n)
        b = E.int('b%d' % t, 0, n - 1, default=(t + 1) % n)
        E.assume(a != b if oriented else a < b)
        raw.append([a, b])
    for s in range(k):
        for t in range(s):
            E.assume(E.any([raw[s][0] != raw[t][0], raw[s][1] != raw[t][1]]))
            if oriented:
                E.assume(E.any([raw[s][0] != raw[t][1],
                                raw[s][1] != raw[t][0]]))
    G = E.array(raw)
    F = S.flag.flag_complex(G, n, max_dim)
    edges = [(int(a), int(b)) for a, b in raw]
    es = set(frozenset(e) for e in edges)
    E.check(int(F[0]) == n, 'number of vertices')
    for d in range(1, max_dim + 1):
        got = [tuple(int(x) for x in s) for s in F[d]]
        want = [s for s in itertools.combinations(range(n), d + 1)
                if all(frozenset(e) in es
                       for e in itertools.combinations(s, 2))]
        E.check(sorted(tuple(sorted(s)) for s in got) == want,
                'simplices of dimension %d are the cliques' % d)
    E.check([(int(a), int(b)) for a, b in G] == edges, 'graph modified')
    E.reach()


def h_flag_neg(S, E):
    d = E.int('d', -5, -1)
    try:
        S.flag.flag_complex(E.array([[0, 1]]), 2, d)
    except ValueError:
        E.reach()
        return
    E.fail('negative dimension accepted')


def cases_p06(tier):
    cs = [dict(name='negative', h=h_flag_neg, args={},
               bounds='dimension -5..-1')]
    for n, d in [(3, 2), (4, 0), (4, 1), (4, 3), (4, 4)] + [(5, 4)]:
        cs.append(dict(name='graphs-%d-dim%d' % (n, d), h=h_flag_bits,
                       args=dict(n=n, max_dim=d), order='random',
                       weight=3 if n == 5 else 1,
                       bounds='every graph on %d vertices, up to dimension %d'
                       % (n, d)))
    K = lambda n: list(itertools.combinations(range(n), 2))
    some = [
        ('k6', 6, 5, [e for e in K(6) if e[0] > 1 or e == (0, 1)],
         [e for e in K(6) if e[0] <= 1 and e != (0, 1)][:6], 0),
        ('k7', 7, 6, [e for e in K(7) if e not in [(0, 6), (2, 3), (1, 4)]],
         [(0, 6), (2, 3), (1, 4)], 0),
        ('octa', 6, 3, [e for e in K(6) if e not in
                        [(0, 1), (2, 3), (4, 5), (0, 2)]],
         [(0, 1), (2, 3), (4, 5), (0, 2)], 0),
        ('two-parts', 8, 4, K(4) + [(4, 5), (5, 6), (4, 6)],
         [(6, 7), (5, 7), (4, 7), (3, 4), (0, 7)], 0),
        ('wheel', 17, 3, [(0, i) for i in range(1, 17)] +
         [(i, i + 1) for i in range(1, 16)],
         [(1, 16), (2, 9), (3, 5), (8, 10)], 0),
        ('dense12', 12, 4, [e for e in K(12) if (e[0] + e[1]) % 3 and
                            e not in [(0, 11), (4, 6), (5, 8)]],
         [(0, 11), (4, 6), (5, 8)], 0),
        ('big-labels', 5, 3, [(0, 1), (1, 2), (0, 2)],
         [(0, 3), (1, 3), (2, 3), (3, 4), (2, 4)], 254),
    ]
    for name, n, d, fixed, free, sh in some:
        cs.append(dict(name='some-' + name, h=h_flag_some, order='random',
                       args=dict(n=n, max_dim=d, fixed=fixed, free=free,
                                 shift=sh),
                       bounds='%d vertices, %d free edges, up to dimension '
                       '%d' % (n + sh, len(free), d)))
    for n, k, d, o in [(4, 3, 2, False), (4, 3, 2, True), (5, 3, 2, False),
                       (4, 4, 3, False)] + \
            ([(5, 4, 3, False), (4, 6, 3, False), (4, 4, 3, True)]
             if tier == 'thorough' else []):
        cs.append(dict(name='edges-%d-%d-dim%d%s' % (n, k, d,
                                                     '-or' if o else ''),
                       h=h_flag_sym, args=dict(n=n, k=k, max_dim=d,
                                               oriented=o), order='random',
                       bounds='%d edges with symbolic end points among %d '
                       'vertices in any order%s' %
                       (k, n, ' and orientation' if o else '')))
    return cs


# ---------------------------------------------------------- boundary operators

def check_boundaries(S, E, C, lists, n, p):
    """lists[d]: the d-simplices in column order"""
    D = S.differentials.complex_differentials(C, p)
    E.check(int(D[0]) == n, 'number of vertices')
    cols = {}
    prev = {(v,): v for v in range(n)}
    for d in range(1, len(C)):
        cur = {s: i for i, s in enumerate(lists[d])}
        E.check(tuple(D[d].shape) == (len(prev), len(cur)),
                'shape of the boundary operator')
        for s, j in cur.items():
            faces = {prev[f]: sg for sg, f in boundary(s)}
            ref = None
            for i in range(len(prev)):
                x = int(D[d][i][j])
                if i in faces:
                    E.check(x in (1, p - 1), 'faces have coefficient +-1')
                    want = (faces[i] * x) % p
                    if ref is None:
                        ref = want
                    E.check(want == ref, 'signs of the faces alternate')
                else:
                    E.check(x == 0, 'only faces appear in the boundary')
        cols[d] = [[int(D[d][i][j]) for i in range(len(prev))]
                   for j in range(len(cur))]
        if d > 1:
            for c in cols[d]:
                E.check(not any(matvec(cols[d - 1], c, p)),
                        'boundary of a boundary vanishes')
        prev = cur
    E.reach()


def h_bd_bits(S, E, n, max_dim, p, rot=False, labels=None, total=None,
              full=0, free=None):
    """every simplicial complex on n vertices up to a dimension, columns
    rotated by a symbolic amount; the vertices may be named by labels below
    total"""
    lists = {0: [(v,) for v in range(n)]}
    for d in range(1, max_dim + 1):
        lists[d] = []
        have = set(lists[d - 1])
        for s in itertools.combinations(range(n), d + 1):
            if all(f in have for _, f in boundary(s)):
                if d <= full or (free is not None and s not in free):
                    lists[d].append(s)
                elif bool(E.int('s' + ''.join(map(str, s)), 0, 1,
                              default=1) == 1):
                    lists[d].append(s)
        if rot and len(lists[d]) > 1:
            k = E.choice('rot%d' % d, range(len(lists[d]) if rot is True
                                            else min(rot, len(lists[d]))))
            lists[d] = lists[d][k:] + lists[d][:k]
    if labels is not None:
        lists = {d: [tuple(labels[v] for v in s) for s in L]
                 for d, L in lists.items()}
        n = total
    C = [n] + [E.array([list(s) for s in lists[d]]) if lists[d] else
               E.array([]) for d in range(1, max_dim + 1)]
    check_boundaries(S, E, C, lists, n, p)


def h_bd_labels(S, E, n, p, k):
    """one k-simplex with symbolic vertices and all its faces, each dimension
    in a symbolic order"""
    vs = [E.int('v%d' % i, 0, n - 1, default=i) for i in range(k + 1)]
    for i in range(k):
        E.assume(vs[i] < vs[i + 1])
    C = [n]
    pos = {}
    for d in range(1, k + 1):
        fs = list(itertools.combinations(range(k + 1), d + 1))
        r = E.choice('rot%d' % d, range(len(fs)))
        fs = fs[r:] + fs[:r]
        pos[d] = fs
        C.append(E.array([[vs[i] for i in f] for f in fs]))
    D = S.differentials.complex_differentials(C, p)
    V = [int(v) for v in vs]
    lists = {0: [(v,) for v in range(n)]}
    for d in range(1, k + 1):
        lists[d] = [tuple(V[i] for i in f) for f in pos[d]]
    C2 = [n] + [E.array([list(s) for s in lists[d]]) for d in range(1, k + 1)]
    check_boundaries(S, E, C2, lists, n, p)
    for d in range(1, k + 1):
        prev = {s: i for i, s in enumerate(lists[d - 1])}
        for j, s in enumerate(lists[d]):
            for sg, f in boundary(s):
                E.check(int(D[d][prev[f]][j]) in (1, p - 1),
                        'faces have coefficient +-1')


def cases_p07(tier):
    cs = []
    for n, d, p, rot in [(3, 1, 2, True), (3, 2, 3, True), (4, 2, 5, False),
                         (4, 3, 3, True)] + \
            ([(5, 2, 3, False), (4, 3, 7, True), (5, 4, 2, False)]
             if tier == 'thorough' else []):
        cs.append(dict(name='complexes-%d-dim%d-p%d' % (n, d, p),
                       h=h_bd_bits, order='random',
                       args=dict(n=n, max_dim=d, p=p, rot=rot),
                       bounds='every complex on %d vertices of dimension <= %d'
                       ', Z/%d%s' % (n, d, p, ', rotated columns' if rot
                                     else '')))
    for n, d, p, full, free in [
            (6, 4, 3, 3, None), (5, 4, 11, 2, [(0, 1, 2, 3), (0, 2, 3, 4),
                                               (0, 1, 2, 3, 4)]),
            (6, 5, 13, 3, [(0, 1, 2, 3, 4), (1, 2, 3, 4, 5)]),
            (7, 2, 5, 1, [(0, 1, 2), (2, 4, 6), (3, 5, 6), (0, 3, 6)]),
            (9, 1, 7, 0, [(0, 8), (3, 5), (7, 8), (1, 2)]),
            (11, 2, 3, 1, [(0, 1, 10), (3, 5, 9)]),
            (8, 3, 17, 2, [(0, 1, 2, 7), (3, 4, 6, 7)])]:
        cs.append(dict(name='top-%d-dim%d-p%d' % (n, d, p), h=h_bd_bits,
                       order='random', args=dict(
                           n=n, max_dim=d, p=p, full=full, free=free,
                           rot=2),
                       bounds='complexes on %d vertices of dimension %d with '
                       'some free simplices, rotated columns, Z/%d' %
                       (n, d, p)))
    for labels, d, p in [((3, 10, 131, 259), 2, 3)] + (
            [((3, 131, 259, 260), 3, 5)] if tier == 'thorough' else []):
        cs.append(dict(name='labels-p%d' % p, h=h_bd_bits, order='random',
                       args=dict(n=len(labels), max_dim=d, p=p,
                                 labels=labels, total=300),
                       bounds='every complex on the vertices %s of 300'
                       % (labels,)))
    for n, k, p in [(5, 1, 2), (5, 2, 3), (6, 3, 5), (12, 2, 7),
                    (6, 4, 11)] + \
            ([(7, 4, 3), (6, 5, 2)] if tier == 'thorough' else []):
        cs.append(dict(name='simplex-%d-of-%d-p%d' % (k, n, p), h=h_bd_labels,
                       args=dict(n=n, p=p, k=k), order='random',
                       bounds='a %d-simplex with symbolic vertices among %d '
                       'and its faces in any rotation' % (k, n)))
    return cs


PROPS = {
    'P05': dict(cases=cases_p05),
    'P06': dict(cases=cases_p06),
    'P07': dict(cases=cases_p07),
}
