"""Sampled point clouds."""
import contextlib

from engine import randoms, sym


def rnd(E, draws=None):
    """arbitrary random numbers (no more than `draws`); on a replay the
    recorded ones"""
    if not E.sym:
        return randoms.recorded(E.assign)
    sym.ctx().draws = draws
    return contextlib.nullcontext()


def rows(X):
    return [[x for x in r] for r in X]


# ------------------------------------------------------------- subsampling

def h_sample(S, E, n, k, pts, move, seed=None):
    P = [[float(x) for x in r] for r in pts]
    for i, c, lo, hi in move:
        P[i][c] = E.real('x%d_%d' % (i, c), lo, hi,
                         default=(lo + hi) / 2 + i / 16)
    X = E.array(P)
    with rnd(E):
        Y = S.examples.take_sample(X, k, seed) if seed is not None else \
            S.examples.take_sample(X, k)
        Z = S.examples.take_sample(X, k, seed) if seed is not None else None
    E.check(E.all(X[i][c] == P[i][c] for i in range(n)
                  for c in range(len(P[0]))), 'point cloud modified')
    Y = rows(Y)
    E.check(len(Y) == min(n, k), 'number of samples')
    if Z is not None:
        Z = rows(Z)
        E.check(len(Z) == len(Y) and E.all(
            a == b for u, v in zip(Y, Z) for a, b in zip(u, v)),
            'the same seed gives another sample')

    def d2(u, v):
        s = 0.0
        for a, b in zip(u, v):
            s = s + (a - b) * (a - b)
        return s
    # every sample is a point of the cloud, none of them twice
    free = list(range(n))
    chosen = []
    for y in Y:
        i = next((i for i in free if bool(E.all(
            a == b for a, b in zip(P[i], y)))), None)
        E.check(i is not None, 'a sample is not a (new) point of the cloud')
        if chosen:
            # no other point is farther from the ones taken before
            for j in free:
                if j != i:
                    # min over chosen of d(i) >= min over chosen of d(j)
                    E.check(E.any(E.all(E.le(d2(P[j], P[b]), d2(P[i], P[a]))
                                        for a in chosen) for b in chosen),
                            'a sample is not the farthest from the previous '
                            'ones')
        free.remove(i)
        chosen.append(i)
    E.reach()


def cases_sample(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, bounds, **a):
        cs.append(dict(name=name, h=h_sample, args=a, bounds=bounds))
    add('line-3', '3 points of a line anywhere in [0,4], every start',
        n=3, k=3, pts=[[0], [0], [0]], move=[(i, 0, 0, 4) for i in range(3)])
    add('line-4-of-3', '4 points of a line, 2 move, 3 samples', n=4, k=3,
        pts=[[0], [0], [1], [4]], move=[(0, 0, 0, 4), (1, 0, 0, 4)])
    add('line-4', '4 points of a line, 3 move, 2 samples', n=4, k=2,
        pts=[[0], [0], [0], [2]], move=[(i, 0, 0, 4) for i in range(3)])
    add('line-5', '5 points of a line, 2 move, 6 samples asked', n=5, k=6,
        pts=[[0], [0], [1], [2], [4]], move=[(0, 0, 0, 4), (1, 0, 0, 4)])
    add('plane-4', '4 points of the plane, one moves, 3 samples', n=4, k=3,
        pts=[[0, 0], [2, 0], [1, 1], [0, 2]],
        move=[(1, 0, 0, 4), (1, 1, 0, 2)])
    add('plane-5', '5 points of the plane, 2 coordinates move, 4 samples',
        n=5, k=4, pts=[[0, 0], [2, 0], [2, 2], [0, 2], [1, .5]],
        move=[(1, 0, 0, 4), (4, 1, 0, 2)])
    add('seeded', '4 points of a line, 2 move, one seed twice', n=4, k=3,
        pts=[[0], [1], [0], [4]], move=[(0, 0, 0, 4), (2, 0, 0, 4)], seed=7)
    ten = [[0, 0], [2, 0], [2, 2], [0, 2], [1, .5], [.5, 1], [3, 1], [1, 3],
           [.25, .25], [2, 0]]
    add('plane-10', '10 points of the plane (two alike), one coordinate '
        'moves, 8 samples, a seed', n=10, k=8, pts=ten,
        move=[(4, 0, 0, 3)], seed=3)
    add('plane-10-all', '10 points of the plane, one coordinate moves, all '
        'asked, a seed', n=10, k=10, pts=ten, move=[(7, 1, 0, 4)], seed=11)
    many = [[7 * i % 31 / 4.0, 11 * i % 29 / 4.0] for i in range(26)]
    add('plane-26', '26 points of the plane, one coordinate moves, 6 '
        'samples, a seed', n=26, k=6, pts=many, move=[(4, 0, 0, 9)], seed=5)
    add('same-6', '6 points, 5 alike, one moves', n=6, k=4, pts=[[1]] * 6,
        move=[(2, 0, 0, 2)])
    add('space-4', '4 points of 4-space, 2 coordinates move, 3 samples', n=4,
        k=3, pts=[[0, 0, 0, 0], [1, 0, 0, 1], [0, 1, 1, 0], [1, 1, 0, 0]],
        move=[(1, 3, 0, 3), (2, 2, 0, 3)])
    add('negative-4', '4 points of a line around zero, 2 move', n=4, k=4,
        pts=[[-3], [0], [2], [-1]], move=[(1, 0, -3, 3), (2, 0, -3, 3)])
    add('one', '3 points, one sample', n=3, k=1, pts=[[0], [1], [2]],
        move=[(0, 0, 0, 4)])
    if big:
        add('line-4-all', '4 points of a line anywhere, all of them', n=4,
            k=4, pts=[[0]] * 4, move=[(i, 0, 0, 4) for i in range(4)])
        add('line-5-3', '5 points of a line, 4 move', n=5, k=4,
            pts=[[0]] * 4 + [[2]], move=[(i, 0, 0, 4) for i in range(4)])
        add('plane-6', '6 points of the plane, 3 coordinates move', n=6, k=5,
            pts=[[0, 0], [2, 0], [2, 2], [0, 2], [1, .5], [.5, 1]],
            move=[(1, 0, 0, 4), (4, 1, 0, 2), (5, 0, 0, 2)])
        add('space-5', '5 points of space, 3 coordinates move', n=5, k=4,
            pts=[[0, 0, 0], [2, 0, 1], [2, 2, 0], [0, 2, 2], [1, .5, 1]],
            move=[(1, 0, 0, 4), (4, 1, 0, 2), (3, 2, 0, 2)])
    return cs


# ------------------------------------------------------------------ shapes

EPS = 1e-9


def near(E, a, b, scale):
    """equality up to the rounding of the cosines the code uses"""
    t = scale * EPS
    return E.all([a - b <= t, b - a <= t])


def shape_of(E, X, n, d):
    R = rows(X)
    E.check(len(R) == n and all(len(r) == d for r in R),
            'number of points or their dimension')
    return R


def h_circle(S, E, n):
    r = E.real('r', 0.125, 8, default=2)
    with rnd(E):
        R = shape_of(E, S.examples.circle(n, r), n, 2)
    for x, y in R:
        E.check(near(E, x * x + y * y, r * r, r * r),
                'a point is not on the circle')
    # evenly spread: distinct, and all steps alike
    st = []
    for i in range(n):
        a, b = R[i], R[(i + 1) % n]
        st.append((a[0] - b[0]) * (a[0] - b[0]) +
                  (a[1] - b[1]) * (a[1] - b[1]))
    for i in range(1, n):
        E.check(near(E, st[i], st[0], r * r), 'points unevenly spread')
    for i in range(n):
        for j in range(i):
            a, b = R[i], R[j]
            d = (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
            E.check(d * n * n >= r * r, 'two points of the circle agree')
    E.reach()


def h_random_circle(S, E, n, seed=None):
    r = E.real('r', 0.125, 8, default=2)
    e = E.real('e', 0, 2, default=.5)
    c = [E.real('c%d' % i, -4, 4, default=1) for i in range(2)]
    with rnd(E):
        X = S.examples.random_circle(n, r, e, c, seed)
        Z = S.examples.random_circle(n, r, e, c, seed) if seed is not None \
            else None
        D = S.examples.random_circle(n, r, e)
    if Z is not None:
        E.check(E.all(a == b for u, v in zip(rows(X), rows(Z))
                      for a, b in zip(u, v)),
                'the same seed gives other points')
    for X, q in ((X, c), (D, [0, 0])):
        for x, y in shape_of(E, X, n, 2):
            d = (x - q[0]) * (x - q[0]) + (y - q[1]) * (y - q[1])
            t = EPS * 2000
            E.check(E.all([d >= r * r - t,
                           d <= r * r * (1 + e) * (1 + e) + t]),
                    'a point is outside the annulus')
    E.reach()


def h_ball(S, E, n, dim, draws=None):
    r = E.real('r', 0.125, 8, default=2)
    with rnd(E, draws):
        R = shape_of(E, S.examples.ball(n, r, dim), n, dim)
    for x in R:
        s = 0.0
        for v in x:
            s = s + v * v
        E.check(s <= r * r, 'a point is outside the ball')
    E.reach()


def h_sphere(S, E, n, dim):
    r = E.real('r', 0.125, 8, default=2)
    with rnd(E):
        try:
            X = S.examples.random_sphere(n, r, dim)
        except ZeroDivisionError:
            E.assume(False)     # all random numbers exactly one half
        R = shape_of(E, X, n, dim)
    for x in R:
        s = 0.0
        for v in x:
            s = s + v * v
        E.assume(s == s)        # a nan on a replay: as above
        E.check(near(E, s, r * r, r * r) if not E.sym else s == r * r,
                'a point is not on the sphere')
    E.reach()


def h_cube(S, E, n, dim):
    with rnd(E):
        R = shape_of(E, S.examples.random_cube(n, dim), n, dim)
    for x in R:
        for v in x:
            E.check(E.all([v >= -.5, v <= .5]), 'a point is outside the cube')
    E.reach()


def h_grid(S, E, hi, dim):
    n = [int(E.int('n%d' % i, 1, hi, default=2)) for i in range(dim)]
    X = S.examples.grid(*n) if dim == 2 else S.examples.grid_tridimensional(*n)
    tot = 1
    for x in n:
        tot *= x
    R = shape_of(E, X, tot, dim)
    got = {tuple(float(v) for v in r) for r in R}
    want = {()}
    for x in n:
        want = {t + (i - (x - 1) / 2.,) for t in want for i in range(x)}
    E.check(got == want, 'nodes of the grid')
    E.reach()


def h_grid_long(S, E, hi):
    n, m = int(E.int('n', 1, hi)), int(E.int('m', 1, 3))
    if E.choice('swap', range(2)):
        n, m = m, n
    R = shape_of(E, S.examples.grid(n, m), n * m, 2)
    got = {tuple(float(v) for v in r) for r in R}
    E.check(got == {(i - (n - 1) / 2., j - (m - 1) / 2.) for i in range(n)
                    for j in range(m)}, 'nodes of the grid')
    E.reach()


def h_torus(S, E, n, default=False):
    if default:
        a, b = 1, 3
    else:
        a = E.real('a', 0.125, 8, default=1)
        b = E.real('b', 0.125, 8, default=3)
        if bool(a > b):
            try:
                with rnd(E):
                    S.examples.torus3D(n, a, b)
            except ValueError:
                E.reach()
                return
            E.fail('a torus whose section is too big does not raise '
                   'ValueError')
    with rnd(E):
        X = S.examples.torus3D(n) if default else S.examples.torus3D(n, a, b)
    for x, y, z in shape_of(E, X, n, 3):
        q = x * x + y * y
        t = q + z * z + (b * b - a * a)
        # (sqrt(x^2+y^2) - b)^2 + z^2 = a^2
        if E.sym:
            E.check(t * t == 4 * b * b * q, 'a point is not on the torus')
        else:
            E.check(abs(t * t - 4 * b * b * q) <= 1e-6 * (1 + b ** 4),
                    'a point is not on the torus')
    E.reach()


def cases_shapes(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, h, bounds, **a):
        cs.append(dict(name=name, h=h, args=a, bounds=bounds))
    for n in (1, 2, 3, 4, 5, 7, 12, 20) + ((31, 50) if big else ()):
        add('circle-%d' % n, h_circle, '%d points, every radius in [1/8,8]'
            % n, n=n)
    for n in (1, 2) + ((3,) if big else ()):
        add('random-circle-%d' % n, h_random_circle, '%d points, every '
            'radius, noise, centre and random numbers' % n, n=n)
    add('random-circle-seed', h_random_circle, '2 points, a seed', n=2,
        seed=5)
    for d in (1, 2, 3) + ((4,) if big else ()):
        add('ball-%d' % d, h_ball, '2 points, dimension %d' % d, n=2, dim=d)
    for d in (5, 6) + ((8,) if big else ()):
        add('ball-%d' % d, h_ball, '1 point, dimension %d, up to 3 '
            'candidates' % d, n=1, dim=d, draws=3 * d)
    add('ball-many', h_ball, '4 points, dimension 2', n=4, dim=2)
    add('cube-5', h_cube, '4 points, dimension 5', n=4, dim=5)
    add('cube-many', h_cube, '12 points, dimension 2', n=12, dim=2)
    add('sphere-many', h_sphere, '4 points, dimension 2', n=4, dim=2)
    add('sphere-5', h_sphere, '1 point, dimension 5', n=1, dim=5)
    add('torus-4', h_torus, '4 points, all radii', n=4)
    add('grid-long', h_grid_long, 'n x m with n up to 12, m 1 to 3', hi=12)
    for d in (1, 2, 3) + ((4,) if big else ()):
        add('sphere-%d' % d, h_sphere, '2 points, dimension %d' % d, n=2,
            dim=d)
    for d in (1, 3):
        add('cube-%d' % d, h_cube, '3 points, dimension %d' % d, n=3, dim=d)
    add('grid-2', h_grid, 'up to 5x5', hi=6 if big else 5, dim=2)
    add('grid-3', h_grid, 'up to 3x3x3', hi=4 if big else 3, dim=3)
    add('torus', h_torus, '1 point, all radii in [1/8,8]', n=1)
    add('torus-2', h_torus, '2 points, all radii in [1/8,8]', n=2)
    add('torus-default', h_torus, '1 point, default radii', n=1,
        default=True)
    return cs


PROPS = {
    'P21': dict(cases=cases_sample),
    'P22': dict(cases=cases_shapes, assumptions=[
        'cosine and sine of a random angle stand for an arbitrary rational '
        'point of the unit circle with parameter in [-4,4]; those of fixed '
        'angles are the floating point values, compared up to 1e-9',
        'ball: at most three candidates per point in dimensions above four '
        '(below no point is ever rejected)']),
}
