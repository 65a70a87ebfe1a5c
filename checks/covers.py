"""Cubical covers and their nerves."""
import itertools

# rounding errors of the corners of hypercubes are outside the claim
MARGIN = 2.0 ** -20


def coords(E, n, dim, fixed=None, integer=False, lo=-8, hi=8):
    P = []
    for i in range(n):
        row = []
        for k in range(dim):
            if fixed and (i, k) in fixed:
                row.append(fixed[i, k])
            elif integer:
                row.append(E.zint('n%d%d' % (i, k), lo, hi,
                                  default=(3 * i + 5 * k) % 7))
            else:
                row.append(E.real('x%d%d' % (i, k), lo, hi,
                                  default=(3 * i + 5 * k) % 7))
        P.append(row)
    return P


def extreme(vals, sign):
    m = vals[0]
    for v in vals[1:]:
        if bool((v > m) if sign > 0 else (v < m)):
            m = v
    return m


def coarse(x):
    """few enough bits for the corners to be computed without rounding"""
    x = float(x) * 1024
    return x == int(x) and abs(x) < 2 ** 20


def membership(E, P, lo, ext, L, div, ov, cubes):
    """each region lists the points of its enlarged (closed) hypercube"""
    n, dim = len(P), len(lo)
    divs = []
    for k in range(dim):
        m = 1
        while m < div and bool(ext[k] * div > L * m):
            m += 1
        divs.append(m)
    tot = 1
    for m in divs:
        tot *= m
    if tot != len(cubes):
        return
    # exactly when the hypercubes have corners without rounding
    tol = 0 if div in (1, 2, 4, 8) else MARGIN
    if not E.sym and not (coarse(ov) and
                          all(coarse(x) for r in P for x in r)):
        tol = MARGIN
    for c, cube in enumerate(cubes):
        pos = pos_of(c, divs)
        for i in range(n):
            inside = []
            t = tol if i in cube else -tol
            for k in range(dim):
                # everything times 2 div
                x = (P[i][k] - lo[k]) * (2 * div)
                inside.append(x >= 2 * L * pos[k] - ov * div - t)
                inside.append(x <= 2 * L * (pos[k] + 1) + ov * div + t)
            if i in cube:
                E.check(E.all(inside), 'a region lists a point outside its '
                        'enlarged hypercube')
            else:
                E.check(E.neg(E.all(inside)), 'a region misses a point of '
                        'its enlarged hypercube')


def h_cover(S, E, n, dim, div, fixed=None, integer=False, overlap=None,
            what='points', shift=None, ovs=(1 / 64.0, 4)):
    P = coords(E, n, dim, fixed, integer)
    if shift:
        P = [[x + t for x, t in zip(r, shift)] for r in P]
    lo = [extreme([r[k] for r in P], -1) for k in range(dim)]
    hi = [extreme([r[k] for r in P], 1) for k in range(dim)]
    ext = [b - a for a, b in zip(lo, hi)]
    L = extreme(ext, 1)
    if overlap is None:
        ov = E.real('ov', ovs[0], ovs[1], default=ovs[0] * .75 + ovs[1] * .25)
    else:
        ov = overlap
    X = E.array(P)
    cloud, IN, nerve = S.cover.generate_cover(div, ov, X)
    E.check(E.all(X[i][k] == P[i][k] for i in range(n) for k in range(dim)),
            'point cloud modified')
    ids = [[int(x) for x in c] for c in IN[0]]
    nc = len(ids)
    E.check(int(nerve[0]) == nc and len(cloud[0]) == nc,
            'one region per hypercube')
    cubes = [set(c) for c in ids]
    E.check(all(len(set(c)) == len(c) and all(0 <= x < n for x in c)
                for c in ids), 'identification numbers')
    if what == 'points':
        E.check(set().union(*cubes) == set(range(n)),
                'a point is in no region')
        # groups of points whose coordinates differ by less than the overlap
        for size in (2, 3):
            for g in itertools.combinations(range(n), size):
                if any(set(g) <= c for c in cubes):
                    continue
                near = [abs(P[a][k] - P[b][k]) < ov - MARGIN
                        for a, b in itertools.combinations(g, 2)
                        for k in range(dim)]
                E.check(E.neg(E.all(near)),
                        'close points have no region in common')
        membership(E, P, lo, ext, L, div, ov, cubes)
        # regions are not larger than a hypercube and its margins
        for c in cubes:
            for a, b in itertools.combinations(sorted(c), 2):
                for k in range(dim):
                    E.check(E.le(abs(P[a][k] - P[b][k]) * div,
                                 L + ov * div),
                            'a region is larger than hypercube and overlap')
    else:
        # the regions over each simplex of the nerve are the intersections
        dims = len(nerve)
        E.check(len(cloud) == dims and len(IN) == dims,
                'regions for every dimension of the nerve')
        for k in range(dims):
            if k:
                simp = [tuple(int(x) for x in s) for s in nerve[k]]
                E.check(len(IN[k]) == len(simp) and
                        len(cloud[k]) == len(simp),
                        'one region per simplex of the nerve')
            else:
                simp = [(c,) for c in range(nc)]
            for s, got, pts in zip(simp, IN[k], cloud[k]):
                got = [int(x) for x in got]
                want = set.intersection(*[cubes[c] for c in s])
                E.check(sorted(got) == sorted(want),
                        'region of a simplex is not the intersection of its '
                        'hypercubes')
                E.check(got == sorted(got),
                        'identification numbers are not increasing')
                E.check(len(pts) == len(got) and
                        E.all(pts[i][t] == P[x][t]
                              for i, x in enumerate(got)
                              for t in range(dim)),
                        'coordinates of a region do not match its '
                        'identification numbers')
        # hypercubes with a common point span a simplex (margins smaller than
        # the hypercubes)
        have = set()
        for k in range(1, dims):
            have.update(frozenset(int(x) for x in s) for s in nerve[k])
        have.update(frozenset((c,)) for c in range(nc))
        if bool(ov * div < L - MARGIN):
            for i in range(n):
                cs = [c for c in range(nc) if i in cubes[c]]
                for size in range(2, len(cs) + 1):
                    for g in itertools.combinations(cs, size):
                        E.check(frozenset(g) in have, 'hypercubes with a '
                                'common point are not a simplex of the nerve')
    E.reach()


def pos_of(c, div):
    out = []
    for d in reversed(div):
        out.append(c % d)
        c //= d
    return tuple(reversed(out))


def h_nerve(S, E, hi):
    div = [E.choice('div%d' % k, range(1, h + 1)) for k, h in enumerate(hi)]
    keep = list(div)
    nerve = S.cover.nerve_hypercube_cover(div)
    E.check(div == keep, 'divisions modified')
    nc = 1
    for d in div:
        nc *= d
    E.check(int(nerve[0]) == nc, 'number of hypercubes')
    pos = [pos_of(c, div) for c in range(nc)]
    adj = {(a, b) for a, b in itertools.combinations(range(nc), 2)
           if all(abs(x - y) <= 1 for x, y in zip(pos[a], pos[b]))}
    got = {}
    for k in range(1, len(nerve)):
        L = [tuple(int(x) for x in s) for s in nerve[k]]
        E.check(len(set(L)) == len(L), 'a simplex of the nerve is repeated')
        for s in L:
            E.check(len(s) == k + 1 and list(s) == sorted(set(s)),
                    'simplices are increasing lists of hypercubes')
        got[k] = set(L)
    cl = {1: adj}
    k = 1
    while cl[k]:
        nxt = set()
        for s in cl[k]:
            for v in range(s[-1] + 1, nc):
                if all((u, v) in adj for u in s):
                    nxt.add(s + (v,))
        k += 1
        cl[k] = nxt
    for k in range(1, max(len(nerve), len(cl) + 1)):
        E.check(got.get(k, set()) == cl.get(k, set()),
                'nerve is not the complex of adjacent hypercubes')
    E.reach()


def h_next(S, E, dim, hi):
    """next_hypercube visits the hypercubes in the order of their indices"""
    div = [E.int('div%d' % k, 1, hi, default=2) for k in range(dim)]
    pos = [E.int('pos%d' % k, 0, hi - 1, default=0) for k in range(dim)]
    for k in range(dim):
        E.assume(pos[k] < div[k])
    old = list(pos)

    def index(q):
        v = 0
        for x, d in zip(q, div):
            v = v * d + x
        return v
    pos = list(pos)
    S.cover.next_hypercube(pos, div)
    last = E.all(o == d - 1 for o, d in zip(old, div))
    for k in range(dim):
        E.check(E.all([pos[k] >= 0, pos[k] < div[k]]),
                'position outside the grid')
    E.check(E.any([last, index(pos) == index(old) + 1]),
            'not the next hypercube')
    E.check(E.any([E.neg(last), E.all(a == b for a, b in zip(pos, old)),
                   E.all(a == 0 for a in pos)]),
            'moved past the last hypercube')
    E.reach()


def h_corners(S, E, n, dim):
    P = coords(E, n, dim)
    a, b = S.cover.corners_hypercube(E.array(P))
    for k in range(dim):
        col = [r[k] for r in P]
        E.check(E.all([a[k] <= x for x in col] + [E.any(a[k] == x
                                                        for x in col)]),
                'minimum corner')
        E.check(E.all([x <= b[k] for x in col] + [E.any(b[k] == x
                                                        for x in col)]),
                'maximum corner')
    E.reach()


def cover_cases(tier, what):
    big = tier == 'thorough'
    cs = []

    def add(name, bounds, order='random', weight=1, **a):
        a['what'] = what
        cs.append(dict(name=name, h=h_cover, args=a, bounds=bounds,
                       order=order, weight=weight))
    for n, d in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (4, 2)] + (
            [(4, 3), (3, 5), (5, 2)] if big else []):
        add('line-%d-div%d' % (n, d), '%d points on a line and the overlap '
            'symbolic, %d divisions' % (n, d), n=n, dim=1, div=d)
    add('line-4-div4', '4 points on a line, overlap 1/2', n=4, dim=1, div=4,
        overlap=0.5, fixed={(0, 0): 0.0, (3, 0): 8.0})
    add('int-3-div2', '3 integer points on a line', n=3, dim=1, div=2,
        integer=True)
    add('int-3-div3', '3 integer points on a line', n=3, dim=1, div=3,
        integer=True)
    add('plane-2-div2', '2 points of the plane', n=2, dim=2, div=2)
    add('plane-3-div2', '3 points of the plane, 4 coordinates symbolic',
        n=3, dim=2, div=2, fixed={(0, 0): 0.0, (0, 1): 0.0}, overlap=0.75,
        weight=2)
    add('flat-3-div2', '3 points with one constant coordinate', n=3, dim=2,
        div=2, fixed={(i, 1): 2.0 for i in range(3)})
    add('thin-3-div3', 'points in a thin box: fewer divisions that way',
        n=3, dim=2, div=3, fixed={(0, 0): 0.0, (1, 0): 8.0, (0, 1): 0.0},
        overlap=0.75)
    add('four-div2', 'corners of a square and a moving point', n=5, dim=2,
        div=2, fixed={(0, 0): 0., (0, 1): 0., (1, 0): 8., (1, 1): 0.,
                      (2, 0): 0., (2, 1): 8., (3, 0): 8., (3, 1): 8.})
    add('space-3-div2', 'a diagonal and a moving point of space', n=3, dim=3,
        div=2, fixed={(0, 0): 0., (0, 1): 0., (0, 2): 0., (1, 0): 8.,
                      (1, 1): 8., (1, 2): 3.}, overlap=1.0, weight=2)
    add('plane-3-div3', '3 points of the plane', n=3, dim=2, div=3,
        overlap=0.5, weight=2)
    add('plane-3-div2-free', '3 points of the plane and the overlap, '
        'everything symbolic', n=3, dim=2, div=2, weight=2)
    add('five-div3', 'corners of a square and two moving points', n=6,
        dim=2, div=3, overlap=0.75,
        fixed={(0, 0): 0., (0, 1): 0., (1, 0): 8., (1, 1): 0.,
               (2, 0): 0., (2, 1): 8., (3, 0): 8., (3, 1): 8.})
    ten = [(0, 0), (8, 1), (1, 8), (7, 7), (3, 2), (5, 6), (2.5, 5), (6, 3),
           (4, 4)]
    fx = {(i, k): float(x) for i, r in enumerate(ten)
          for k, x in enumerate(r)}
    add('cloud-10-div4', '9 fixed points of the plane and a moving one',
        n=10, dim=2, div=4, overlap=0.75, fixed=fx)
    add('cloud-9-div3-ov', '9 fixed points of the plane, the overlap moves',
        n=9, dim=2, div=3, fixed=fx)
    add('cloud-9-div4', '9 points of the plane, a coordinate and the overlap '
        'move', n=9, dim=2, div=4,
        fixed={k: v for k, v in fx.items() if k != (4, 1)}, ovs=(.25, 2))
    many = [(float(7 * i % 31) / 4, float(11 * i % 29) / 4)
            for i in range(29)]
    fm = {(i, k): x for i, r in enumerate(many) for k, x in enumerate(r)}
    add('cloud-30-div5', '29 fixed points of the plane and a moving one on '
        'a line, 5 divisions', n=30, dim=2, div=5, overlap=.5,
        fixed={**fm, (29, 1): 3.0})
    add('shift-3-div2', '3 points on a line near 1000, overlap symbolic',
        n=3, dim=1, div=2, shift=[1000.0])
    add('shift-plane-div3', 'points of the plane far from the origin', n=4,
        dim=2, div=3, shift=[-500.0, 64.0], overlap=.5,
        fixed={(0, 0): 0., (0, 1): 0., (1, 0): 6., (1, 1): 4., (2, 0): 3.,
               (2, 1): 1.})
    add('wide-overlap-div3', '4 points on a line, overlap larger than the '
        'hypercubes', n=4, dim=1, div=3, ovs=(4, 20),
        fixed={(0, 0): 0., (3, 0): 8.})
    add('space-6-div3', '5 fixed points of space and a moving coordinate',
        n=6, dim=3, div=3, overlap=1.0, fixed={
            (i, k): float(x) for i, r in enumerate(
                [(0, 0, 0), (8, 8, 2), (3, 5, 1), (6, 2, 2), (4, 4, 1),
                 (2, None, 1)]) for k, x in enumerate(r) if x is not None})
    add('int-plane-3-div2', '3 integer points of the plane', n=3, dim=2,
        div=2, integer=True, overlap=1.0)
    if big:
        add('plane-4-div2', '4 points of the plane, 6 coordinates symbolic',
            n=4, dim=2, div=2, fixed={(0, 0): 0.0, (0, 1): 0.0}, overlap=1.0,
            weight=3)
        add('space-3-div3', '3 points of space', n=3, dim=3, div=3,
            fixed={(0, 0): 0., (0, 1): 0., (0, 2): 0., (1, 0): 8.},
            overlap=1.5, weight=3)
        add('space-4-div2', '4 points of space, 2 of them move', n=4, dim=3,
            div=2, fixed={(0, 0): -8., (0, 1): -8., (0, 2): -8., (1, 0): 8.,
                          (1, 1): 8., (1, 2): 8.}, overlap=1.5, weight=3)
    return cs


def cases_p15(tier):
    cs = cover_cases(tier, 'points')
    for n, d in [(1, 2), (2, 2), (3, 1), (3, 2)]:
        cs.append(dict(name='corners-%d-%d' % (n, d), h=h_corners,
                       args=dict(n=n, dim=d), order='random',
                       bounds='%d points in dimension %d' % (n, d)))
    return cs


def cases_p16(tier):
    big = tier == 'thorough'
    cs = cover_cases(tier, 'nerve')
    for name, hi in [('1d', (5,)), ('2d', (4, 4)), ('3d', (2, 2, 3))] + (
            [('2d-large', (5, 5)), ('3d-large', (3, 3, 3))] if big else []):
        cs.append(dict(name='nerve-' + name, h=h_nerve, args=dict(hi=hi),
                       order='random', bounds='divisions up to %s' % (hi,)))
    for d, hi in [(1, 4), (2, 4), (3, 4), (4, 3)]:
        cs.append(dict(name='next-%d' % d, h=h_next, args=dict(dim=d, hi=hi),
                       bounds='dimension %d, up to %d divisions' % (d, hi)))
    return cs


PROPS = {
    'P15': dict(cases=cases_p15),
    'P16': dict(cases=cases_p16),
}
