"""Arithmetic and linear algebra over Z/p."""
import itertools

from .util import rank

PRIMES = [2, 3, 5, 7, 11, 13]


def matrix(E, name, n, m, p, lo=0, hi=None):
    hi = p - 1 if hi is None else hi
    return E.array([[E.int('%s%d%d' % (name, i, j), lo, hi)
                     for j in range(m)] for i in range(n)])


def lcg(seed):
    """fixed numbers for the entries that are not symbolic"""
    x = seed * 2654435761 % 4294967296
    while True:
        x = (1103515245 * x + 12345) % 2147483648
        yield x >> 8


def sparse(n, m, p, free, seed, density=0.6):
    """a pattern: fixed residues with None at the symbolic entries"""
    g = lcg(seed)
    M = [[next(g) % (p - 1) + 1 if next(g) % 100 < 100 * density else 0
          for j in range(m)] for i in range(n)]
    spots = [(i, j) for i in range(n) for j in range(m)]
    for _ in range(free):
        i, j = spots.pop(next(g) % len(spots))
        M[i][j] = None
    return M


def fill(E, name, pat, lo, hi):
    return [[E.int('%s%d_%d' % (name, i, j), lo, hi) if x is None else x
             for j, x in enumerate(r)] for i, r in enumerate(pat)]


def rows(M):
    """entries of a matrix as nested lists (whatever holds them)"""
    return [[x for x in r] for r in M]


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def iszero(x, p):
    return x % p == 0


def same(E, A, B):
    """entrywise equality of two matrices"""
    a, b = rows(A), rows(B)
    return E.all(E.eq(x, y) for r, s in zip(a, b) for x, y in zip(r, s))


# ------------------------------------------------------------------ inverses

def h_inverse(S, E, p, lo, hi):
    a = E.int('a', lo, hi, default=1)
    if bool(a % p == 0):
        try:
            S.arith.inv_mod_p(a, p)
        except ValueError:
            E.reach()
            return
        E.fail('inverting a multiple of p does not raise ValueError')
    m = S.arith.inv_mod_p(a, p)
    E.check(E.all([m > 0, m < p]), 'inverse outside 1..p-1')
    E.check((m * a) % p == 1 % p, 'inverse times the number is not 1 mod p')
    E.reach()


def h_notprime(S, E, c, hi):
    """composite modulus: an answer is an inverse, no inverse is an error"""
    a = E.int('a', 1, hi, default=1)
    coprime = E.any((a * x) % c == 1 for x in range(1, c))
    try:
        m = S.arith.inv_mod_p(a, c)
    except ValueError:
        E.check(E.neg(coprime), 'invertible number rejected')
        E.reach()
        return
    E.check((m * a) % c == 1, 'inverse times the number is not 1')
    E.reach()


def h_add(S, E, c, lo, hi, n):
    np = E.np
    a = E.int('a', lo, hi)
    b = E.int('b', lo, hi)
    s = S.arith.add_mod_c(a, b, c)
    E.check(s == (a + b) % c, 'sum mod c')
    A = E.array([E.int('A%d' % i, lo, hi) for i in range(n)])
    B = E.array([E.int('B%d' % i, lo, hi) for i in range(n)])
    A0, B0 = list(A), list(B)
    C = S.arith.add_arrays_mod_c(A, B, c)
    E.check(len(C) == n, 'length of the sum')
    for x, y, z, x0, y0 in zip(A, B, C, A0, B0):
        E.check(z == (x0 + y0) % c, 'sum of arrays mod c')
        E.check(E.all([x == x0, y == y0]), 'arguments modified')
    E.reach()


def h_multiply(S, E, n, k, m, p, lo, hi):
    A = matrix(E, 'a', n, k, p, lo, hi)
    B = matrix(E, 'b', k, m, p, lo, hi)
    a, b = rows(A), rows(B)
    C = S.functions.multiply_mod_p(A, B, p)
    E.check(tuple(C.shape) == (n, m), 'shape of the product')
    for i in range(n):
        for j in range(m):
            v = dot(a[i], [b[t][j] for t in range(k)])
            E.check(C[i, j] == v % p, 'product mod p')
    E.check(E.all([same(E, A, a), same(E, B, b)]), 'arguments modified')
    E.reach()


def h_multiply_wide(S, E, n, k, m, p, seed, free, lo, hi):
    A = E.array(fill(E, 'a', sparse(n, k, p, free, seed), lo, hi))
    B = E.array(fill(E, 'b', sparse(k, m, p, free, seed + 1), lo, hi))
    a, b = rows(A), rows(B)
    C = S.functions.multiply_mod_p(A, B, p)
    E.check(tuple(C.shape) == (n, m), 'shape of the product')
    for i in range(n):
        for j in range(m):
            v = dot(a[i], [b[t][j] for t in range(k)])
            E.check(C[i, j] == v % p, 'product mod p')
    E.check(E.all([same(E, A, a), same(E, B, b)]), 'arguments modified')
    E.reach()


WIDE = [(4, 6, 2, 6), (6, 4, 3, 4), (5, 5, 3, 4), (6, 6, 2, 6), (3, 7, 5, 3),
        (7, 3, 5, 3), (4, 4, 7, 2), (3, 4, 11, 2), (4, 3, 13, 2),
        (8, 8, 2, 5), (1, 6, 3, 4), (6, 1, 3, 4), (12, 12, 3, 2),
        (18, 10, 2, 3), (9, 20, 5, 1), (3, 3, 31, 1), (2, 3, 101, 1)]


def cases_p01(tier):
    cs = []
    big = tier == 'thorough'
    for n, k, m, p in [(3, 4, 2, 5), (1, 6, 1, 3), (5, 1, 4, 11),
                       (4, 5, 6, 13), (2, 8, 3, 2), (3, 3, 3, 31),
                       (12, 20, 9, 3), (2, 40, 2, 7)]:
        cs.append(dict(name='multiply-%dx%dx%d-p%d' % (n, k, m, p),
                       h=h_multiply_wide, args=dict(
                           n=n, k=k, m=m, p=p, seed=n + k + m, free=3,
                           lo=-2 * p, hi=2 * p),
                       bounds='%dx%d times %dx%d, 3 entries of each symbolic '
                       'with |entries|<=2p' % (n, k, k, m)))
    for p in (PRIMES if not big else PRIMES + [17, 19, 23, 29, 31]):
        r = 3 * p + 1
        cs.append(dict(name='inverse-p%d' % p, h=h_inverse,
                       args=dict(p=p, lo=-r, hi=r),
                       bounds='p=%d, |a|<=%d' % (p, r)))
    for p in [97] + ([127] if big else []):
        cs.append(dict(name='inverse-p%d' % p, h=h_inverse,
                       args=dict(p=p, lo=-p, hi=p), order='random',
                       bounds='p=%d, |a|<=%d' % (p, p)))
    for c in (4, 6, 8, 9, 10, 15) + ((12, 21, 25) if big else ()):
        cs.append(dict(name='composite-%d' % c, h=h_notprime,
                       args=dict(c=c, hi=2 * c), bounds='modulus %d' % c))
    for c, lo, hi, n in [(5, -10000, 10000, 3), (101, -9000, 9000, 2),
                         (1, -5, 5, 2), (6, 0, 50, 6)]:
        cs.append(dict(name='add-%d-%d' % (c, hi), h=h_add,
                       args=dict(c=c, lo=lo, hi=hi, n=n),
                       bounds='entries in %d..%d, %d entries' % (lo, hi, n)))
    for c in (2, 3, 4, 7):
        cs.append(dict(name='add-%d' % c, h=h_add,
                       args=dict(c=c, lo=-100, hi=100, n=2),
                       bounds='|entries|<=100, 2 entries'))
    for p in (2, 3, 7):
        cs.append(dict(name='multiply-%d' % p, h=h_multiply,
                       args=dict(n=2, k=2, m=2, p=p, lo=-p, hi=p),
                       bounds='2x2 times 2x2, |entries|<=p'))
    return cs


# ------------------------------------------------------------ Gauss reduction

def check_reduction(E, A, R, T, p, tag=''):
    a, r, t = rows(A), rows(R), rows(T)
    n, m = len(a), len(a[0])
    E.check(len(r) == n and len(r[0]) == m, tag + 'shape of the reduced matrix')
    E.check(len(t) == m and len(t[0]) == m, tag + 'shape of the transformation')
    for i in range(m):
        for j in range(i + 1):
            if i == j:
                E.check(t[i][i] == 1, tag + 'transformation has unit diagonal')
            else:
                E.check(t[i][j] == 0, tag + 'a column was added to the left')
    for i in range(n):
        for j in range(m):
            v = dot(a[i], [t[k][j] for k in range(m)])
            E.check((v - r[i][j]) % p == 0,
                    tag + 'reduced matrix is not matrix times transformation')
    piv = []
    for j in range(m):
        c = -1
        for i in range(n):
            if bool(r[i][j] % p != 0):
                c = i
        piv.append(c)
    nz = [x for x in piv if x >= 0]
    E.check(len(set(nz)) == len(nz), tag + 'two columns share a pivot')
    return piv


def h_gauss(S, E, n, m, p, lo=0):
    A = matrix(E, 'a', n, m, p, lo=lo)
    a = rows(A)
    R, T = S.gauss.gauss_col(A, p)
    check_reduction(E, a, R, T, p)
    E.check(same(E, A, a), 'the matrix was modified')
    E.reach()


def h_pivot(S, E, n, lo, hi):
    v = [E.int('v%d' % i, lo, hi) for i in range(n)]
    r = S.gauss.index_pivot(E.array(v))
    E.check(E.all([r >= -1, r < n]), 'pivot out of range')
    E.check(E.all(E.any([E.neg(v[i] != 0), i <= r]) for i in range(n)),
            'nonzero entry after the pivot')
    E.check(E.any([r == -1] + [E.all([r == i, v[i] != 0])
                               for i in range(n)]), 'pivot entry is zero')
    E.reach()


def h_gauss_wide(S, E, n, m, p, free, seed, density, extra=0):
    """larger matrices, few symbolic entries"""
    a = fill(E, 'a', sparse(n, m, p, free, seed, density), 0, p - 1)
    if extra:       # a repeated and a zero column
        a = [r + [r[0], 0, r[-1]] for r in a]
    A = E.array(a)
    R, T = S.gauss.gauss_col(A, p)
    check_reduction(E, a, R, T, p)
    E.check(same(E, A, a), 'the matrix was modified')
    E.reach()


def cases_p02(tier):
    cs = [dict(name='pivot', h=h_pivot, args=dict(n=5, lo=-3, hi=7),
               bounds='5 entries in -3..7')]
    shapes = [(2, 2, 2), (3, 3, 2), (2, 4, 2), (4, 2, 2), (2, 3, 3), (3, 2, 3),
              (2, 2, 5), (2, 2, 7), (1, 3, 5), (3, 1, 5), (3, 3, 3)]
    if tier == 'thorough':
        shapes += [(3, 4, 2), (4, 4, 2), (2, 3, 5), (3, 2, 5), (2, 4, 3),
                   (4, 3, 2), (2, 2, 11), (2, 2, 13)]
    for n, m, p in shapes:
        cs.append(dict(name='reduce-%dx%d-p%d' % (n, m, p), h=h_gauss,
                       args=dict(n=n, m=m, p=p),
                       bounds='all %dx%d matrices over Z/%d' % (n, m, p)))
    seeds = range(1, 3) if tier == 'quick' else range(1, 7)
    for n, m, p, f in WIDE:
        for s in seeds:
            cs.append(dict(
                name='wide-%dx%d-p%d-%d' % (n, m, p, s), h=h_gauss_wide,
                order='random', args=dict(
                    n=n, m=m, p=p, free=f, seed=100 * n + 10 * m + s,
                    density=0.35 if s % 2 else 0.7, extra=s % 2),
                bounds='%dx%d matrices over Z/%d, %d entries symbolic' %
                (n, m, p, f)))
    for n, m, p in [(2, 3, 3), (2, 2, 5)]:
        cs.append(dict(name='reduce-signed-%dx%d-p%d' % (n, m, p), h=h_gauss,
                       args=dict(n=n, m=m, p=p, lo=-(p - 1)),
                       bounds='all %dx%d matrices with entries in -%d..%d' %
                       (n, m, p - 1, p - 1)))
    return cs


# ------------------------------------------------------------ linear systems

def consistent(E, a, b, p):
    m = len(a[0])
    return E.any(E.all((dot(r, x) - y) % p == 0 for r, y in zip(a, b))
                 for x in itertools.product(range(p), repeat=m))


def h_solve(S, E, n, m, p):
    A = matrix(E, 'a', n, m, p)
    b = E.array([E.int('b%d' % i, 0, p - 1) for i in range(n)])
    a, b0 = rows(A), list(b)
    try:
        x = S.functions.solve_mod_p(A, b, p)
    except ValueError:
        E.check(E.neg(consistent(E, a, b0, p)),
                'ValueError although the system has a solution')
        E.reach()
        return
    x = list(x)
    E.check(len(x) == m, 'length of the solution')
    for i in range(n):
        E.check((dot(a[i], x) - b0[i]) % p == 0,
                'the answer does not solve the system')
    for y in x:
        E.check(E.all([y >= 0, y < p]), 'solution outside 0..p-1')
    E.check(E.all([same(E, A, a), same(E, [b], [b0])]), 'arguments modified')
    E.reach()


def h_solve_matrix(S, E, n, m, k, p):
    """the right hand sides are the rows of B"""
    A = matrix(E, 'a', n, m, p)
    B = matrix(E, 'b', k, n, p)
    a, b = rows(A), rows(B)
    try:
        X = S.functions.solve_matrix_mod_p(A, B, p)
    except ValueError:
        E.check(E.neg(E.all(consistent(E, a, b[j], p) for j in range(k))),
                'ValueError although the systems have solutions')
        E.reach()
        return
    X = rows(X)
    E.check(len(X) == m and len(X[0]) == k, 'shape of the solution')
    for i in range(n):
        for j in range(k):
            E.check((dot(a[i], [X[t][j] for t in range(m)]) - b[j][i]) % p
                    == 0, 'the answer does not solve the systems')
    E.check(E.all([same(E, A, a), same(E, B, b)]), 'arguments modified')
    E.reach()


def h_solve_wide(S, E, n, m, p, free, seed, dep):
    """larger systems, few symbolic entries; dep: the last equations are
    combinations of the first ones, up to a symbolic defect"""
    pat = sparse(n, m, p, free, seed)
    a = fill(E, 'a', pat, 0, p - 1)
    g = lcg(seed + 7)
    b = [next(g) % p for _ in range(n)]
    b[0] = E.int('b0', 0, p - 1)
    for k in range(dep):
        c, d = next(g) % p, next(g) % (p - 1) + 1
        i, j = k % n, (k + 1) % n
        a.append([(c * x + d * y) % p for x, y in zip(a[i], a[j])])
        b.append((c * b[i] + d * b[j] + (E.int('e%d' % k, 0, 1))) % p)
    A, bb = E.array(a), E.array(b)
    try:
        x = S.functions.solve_mod_p(A, bb, p)
    except ValueError:
        ai = [[int(y) for y in r] for r in a]
        bi = [int(y) for y in b]
        E.check(rank([r + [y] for r, y in zip(ai, bi)], p) > rank(ai, p),
                'ValueError although the system has a solution')
        E.reach()
        return
    x = list(x)
    E.check(len(x) == m, 'length of the solution')
    for i in range(len(a)):
        E.check((dot(a[i], x) - b[i]) % p == 0,
                'the answer does not solve the system')
    for y in x:
        E.check(E.all([y >= 0, y < p]), 'solution outside 0..p-1')
    E.check(E.all([same(E, A, a), same(E, [bb], [b])]), 'arguments modified')
    E.reach()


def h_solve_matrix_wide(S, E, n, m, k, p, free, seed, image):
    """image: the right hand sides are images, so a solution exists"""
    a = fill(E, 'a', sparse(n, m, p, free, seed), 0, p - 1)
    if image:
        X0 = fill(E, 'x', sparse(m, k, p, 1, seed + 3), 0, p - 1)
        b = [[dot(a[i], [X0[t][j] for t in range(m)]) % p for i in range(n)]
             for j in range(k)]
    else:
        b = fill(E, 'b', sparse(k, n, p, 2, seed + 3), 0, p - 1)
    A, B = E.array(a), E.array(b)
    try:
        X = S.functions.solve_matrix_mod_p(A, B, p)
    except ValueError:
        ai = [[int(y) for y in r] for r in a]
        bi = [[int(y) for y in r] for r in b]
        E.check(any(rank([r + [y] for r, y in zip(ai, bb)], p) > rank(ai, p)
                    for bb in bi),
                'ValueError although the systems have solutions')
        E.reach()
        return
    X = rows(X)
    E.check(len(X) == m and len(X[0]) == k, 'shape of the solution')
    for i in range(n):
        for j in range(k):
            E.check((dot(a[i], [X[t][j] for t in range(m)]) - b[j][i]) % p
                    == 0, 'the answer does not solve the systems')
    E.check(E.all([same(E, A, a), same(E, B, b)]), 'arguments modified')
    E.reach()


def cases_p03(tier):
    cs = []
    seeds = range(1, 3) if tier == 'quick' else range(1, 7)
    for n, m, p, f in [(3, 5, 2, 4), (5, 3, 2, 4), (3, 3, 3, 3), (4, 4, 3, 3),
                       (3, 3, 5, 2), (2, 4, 7, 2), (3, 2, 11, 1),
                       (3, 4, 13, 1), (6, 6, 2, 4), (11, 9, 3, 2),
                       (8, 14, 2, 3), (3, 3, 31, 1)] + \
            ([(2, 3, 101, 1)] if tier == 'thorough' else []):
        for s in seeds:
            cs.append(dict(
                name='wide-%dx%d-p%d-%d' % (n, m, p, s), h=h_solve_wide,
                order='random', args=dict(
                    n=n, m=m, p=p, free=f, seed=100 * n + 10 * m + s,
                    dep=2 if s % 2 else 0),
                bounds='%d equations in %d unknowns over Z/%d, %d '
                'coefficients symbolic' % (n + 2 * (s % 2), m, p, f)))
    for n, m, k, p, f in [(3, 3, 3, 3, 2), (4, 3, 2, 5, 1), (2, 4, 4, 2, 4),
                          (3, 4, 2, 7, 1), (8, 8, 6, 3, 1)] + \
            ([(2, 2, 3, 31, 1)] if tier == 'thorough' else []):
        for im in (True, False):
            cs.append(dict(
                name='wide-matrix-%dx%dx%d-p%d-%s' % (
                    n, m, k, p, 'image' if im else 'any'),
                h=h_solve_matrix_wide, order='random', args=dict(
                    n=n, m=m, k=k, p=p, free=f, seed=n + 10 * m + 3,
                    image=im),
                bounds='%d right hand sides, %dx%d over Z/%d, %d entries '
                'symbolic' % (k, n, m, p, f)))
    for n, m, p in [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (1, 2, 5),
                    (2, 1, 5), (2, 1, 7), (3, 3, 2)] + \
            ([(3, 2, 3), (2, 3, 3), (2, 2, 5), (4, 3, 2)]
             if tier == 'thorough' else []):
        cs.append(dict(name='solve-%dx%d-p%d' % (n, m, p), h=h_solve,
                       args=dict(n=n, m=m, p=p),
                       bounds='all %dx%d systems over Z/%d' % (n, m, p)))
    for n, m, k, p in [(2, 2, 2, 2), (2, 1, 2, 3), (1, 2, 2, 3),
                       (2, 2, 1, 3)] + \
            ([(2, 2, 2, 3), (3, 2, 2, 2)] if tier == 'thorough' else []):
        cs.append(dict(name='matrix-%dx%dx%d-p%d' % (n, m, k, p),
                       h=h_solve_matrix, args=dict(n=n, m=m, k=k, p=p),
                       bounds='%d right hand sides, %dx%d over Z/%d' %
                       (k, n, m, p)))
    return cs


# ------------------------------------------------- radius-constrained lifting

def h_lift_rad(S, E, n, m, k, p, solvable, left=None, free=None, radii=None):
    """left block with distinct pivots, columns carry birth radii"""
    if left is None:
        l = rows(matrix(E, 'a', n, m, p))
    else:
        l = fill(E, 'a', left, 0, p - 1)
    R = E.array([E.real('r%d' % i, 0, 8, default=i % 3)
                 if radii is None or radii[i] is None else radii[i]
                 for i in range(m + k)])
    rad = list(R)
    piv = []
    for j in range(m):
        c = -1
        for i in range(n):
            if bool(l[i][j] != 0):
                c = i
        piv.append(c)
    nz = [x for x in piv if x >= 0]
    if len(set(nz)) != len(nz):
        E.assume(False)
    rhs = [[0] * k for _ in range(n)]
    if solvable:
        for j in range(k):
            co = [E.int('c%d%d' % (i, j), 0, p - 1)
                  if free is None or (i, j) in free else (i + 2 * j + 1) % p
                  for i in range(m)]
            for i in range(m):
                if bool(co[i] != 0):
                    E.assume(rad[i] <= rad[m + j])
            for i in range(n):
                rhs[i][j] = dot(l[i], co) % p
    else:
        rhs = [[E.int('b%d%d' % (i, j), 0, p - 1)
                if free is None or (i, j) in free else (3 * i + j) % p
                for j in range(k)] for i in range(n)]
    a = [l[i] + rhs[i] for i in range(n)]
    A = E.array(a)
    try:
        Red, T = S.gauss.gauss_col_rad(A, R, m, p)
    except (RuntimeError, ValueError):
        if solvable:
            E.fail('no lift found although one exists')
        # no combination of the admissible columns may work for some column
        bad = []
        for j in range(m, m + k):
            adm = [i for i in range(m) if bool(rad[i] <= rad[j])]
            if adm:
                bad.append(E.neg(consistent(
                    E, [[a[i][t] for t in adm] for i in range(n)],
                    [a[i][j] for i in range(n)], p)))
            else:
                bad.append(E.any(a[i][j] != 0 for i in range(n)))
        E.check(E.any(bad), 'no lift found although one exists')
        E.reach()
        return
    t, r = rows(T), rows(Red)
    for j in range(m, m + k):
        for i in range(n):
            E.check(r[i][j] % p == 0, 'column not reduced to zero')
            v = dot(a[i], [t[x][j] for x in range(m + k)])
            E.check(v % p == 0, 'the combination does not cancel the column')
        for x in range(m):
            E.check(E.any([t[x][j] % p == 0, rad[x] <= rad[j]]),
                    'uses a column born later')
        for x in range(m, m + k):
            E.check(t[x][j] == (1 if x == j else 0),
                    'mixes the columns to be lifted')
    E.check(same(E, A, a), 'the matrix was modified')
    E.reach()


def bars(E, name, n, order=True):
    out = []
    for i in range(n):
        b = E.real('%sb%d' % (name, i), 0, 8, default=i)
        d = E.real('%sd%d' % (name, i), 0, 9, default=i + 2)
        E.assume(b < d)
        out.append([b, d])
    if order:
        for i in range(n - 1):
            E.assume(out[i][0] <= out[i + 1][0])
            if bool(out[i][0] == out[i + 1][0]):
                E.assume(out[i][1] >= out[i + 1][1])
    return out


def pbars(E, name, pat):
    """bars with some symbolic ends: None, or (lo, hi) for a smaller range"""
    out = []
    for i, (b, d) in enumerate(pat):
        if b is None or isinstance(b, tuple):
            lo, hi = b or (0, 8)
            b = E.real('%sb%d' % (name, i), lo, hi, default=lo)
        if d is None or isinstance(d, tuple):
            lo, hi = d or (0, 9)
            d = E.real('%sd%d' % (name, i), lo, hi, default=hi)
        E.assume(b < d)
        out.append([b, d])
    return out


def h_lift_bars(S, E, n, m, k, p, pat=None, rbars=None, cbars=None):
    A = E.array(fill(E, 'a', pat, 0, p - 1)) if pat else \
        matrix(E, 'a', n, m + k, p)
    a = rows(A)
    rb = pbars(E, 'R', rbars) if rbars else bars(E, 'R', n)
    cb = pbars(E, 'C', cbars) if cbars else \
        bars(E, 'C', m) + bars(E, 'D', k)
    try:
        C = S.gauss.gauss_barcodes(A, E.array(rb), E.array(cb), m, p)
    except (RuntimeError, ValueError):
        C = None
    alive = []
    for j in range(m, m + k):
        x = cb[j][0]
        rows_ = [i for i in range(n) if bool(E.all([rb[i][0] <= x,
                                                    x < rb[i][1]]))]
        cols = [i for i in range(m) if bool(E.all([cb[i][0] <= x,
                                                   x < cb[i][1]]))]
        alive.append((rows_, cols))
    if C is None:
        bad = []
        for j, (rs, cs) in zip(range(m, m + k), alive):
            if cs and rs:
                bad.append(E.neg(consistent(
                    E, [[a[i][t] for t in cs] for i in rs],
                    [a[i][j] for i in rs], p)))
            else:
                bad.append(E.any(a[i][j] != 0 for i in rs))
        E.check(E.any(bad), 'no lift found although one exists')
        E.reach()
        return
    c = rows(C)
    E.check(len(c) == m and len(c[0]) == k, 'shape of the coefficients')
    for jj, (rs, cs) in enumerate(alive):
        for t in range(m):
            if t not in cs:
                E.check(c[t][jj] % p == 0, 'uses a bar that is not alive')
        for i in rs:
            v = dot(a[i][:m], [c[t][jj] for t in range(m)])
            E.check((v - a[i][m + jj]) % p == 0,
                    'the combination differs from the column')
    E.check(same(E, A, a), 'the matrix was modified')
    E.reach()


def cases_p04(tier):
    cs = []
    big = tier == 'thorough'
    for n, m, k, p in [(2, 2, 1, 2), (2, 2, 1, 3), (3, 2, 1, 2), (2, 1, 2, 3),
                       (2, 1, 1, 5)] + \
            ([(3, 3, 1, 2), (3, 2, 2, 2), (3, 2, 1, 3)] if big else []):
        for s in (True, False):
            cs.append(dict(
                name='radius-%dx%d+%d-p%d-%s' % (n, m, k, p,
                                                 'lift' if s else 'any'),
                h=h_lift_rad, args=dict(n=n, m=m, k=k, p=p, solvable=s),
                bounds='%d reduced columns, %d to lift, %d rows, Z/%d, '
                'symbolic radii' % (m, k, n, p)))
    # more columns, fewer symbolic entries
    N = None
    L3 = [[1, 2, 1], [0, 1, N], [2, 0, 0], [0, 0, 1]]
    L4 = [[N, 1, 0, 1], [1, 0, N, 1], [0, 1, 0, 2], [0, 0, 0, 1], [0, 0, 1, 0]]
    for i, (l, k, p, sol, free, radii) in enumerate([
            (L3, 1, 3, True, None, None),
            (L3, 2, 5, True, [(0, 0), (2, 1)], None),
            (L3, 2, 3, False, [(0, 0), (3, 1)], [N, 2.0, N, 3.0, N]),
            (L4, 1, 3, True, [(0, 0), (2, 0)], [N, N, N, 2.0, N]),
            (L4, 2, 7, True, [(1, 0), (3, 1)], [1.0, N, 3.0, N, N, 4.0]),
            (L3, 3, 3, True, [(0, 0), (1, 1), (2, 2)],
             [N, 1.0, 2.0, 1.0, N, 2.0]),
            (L3, 1, 11, False, [(0, 0), (3, 0)], [N, 1.0, N, 2.0])]):
        n, m = len(l), len(l[0])
        cs.append(dict(
            name='radius-wide-%d' % (i + 1), h=h_lift_rad, order='random',
            args=dict(n=n, m=m, k=k, p=p, solvable=sol, left=l, free=free,
                      radii=radii),
            bounds='%d reduced columns, %d to lift, %d rows, Z/%d, some '
            'entries and radii symbolic' % (m, k, n, p)))
    M33 = [[1, 0, N, 1, 2], [0, 1, 1, N, 1], [2, 1, 0, 1, N]]
    M34 = [[1, N, 0, 1, 1], [0, 1, 1, 0, N], [1, 1, N, 1, 0], [0, N, 1, 1, 1]]
    rA = [(0, 5), (1, (2, 6)), (2, 7)]
    cA = [(0, (1, 6)), (1, 8), (2, 6), ((1, 5), 8), (3, 9)]
    for i, (a, m, p, rb, cb) in enumerate([
            (M33, 3, 3, rA, cA),
            (M33, 4, 5, [(0, N), (0, 6), (1, 7)],
             [(0, 4), (1, 8), (N, 7), (2, 6), ((2, 5), 8)]),
            (M34, 3, 2, [(0, 4), (0, N), (1, 9), (2, 5)],
             [(0, N), (1, 3), (1, 8), (N, 8), ((1, 4), 9)]),
            (M34, 4, 3, [(0, 4), (0, (2, 6)), (1, 9), (2, 5)],
             [(0, (1, 5)), (0, 3), (1, 8), (2, 8), ((1, 4), 9)])]):
        cs.append(dict(
            name='bars-wide-%d' % (i + 1), h=h_lift_bars, order='random',
            args=dict(n=len(a), m=m, k=5 - m, p=p, pat=a, rbars=rb, cbars=cb),
            bounds='%d rows, %d+%d columns over Z/%d, some entries and bars '
            'symbolic' % (len(a), m, 5 - m, p)))
    for n, m, k, p in [(1, 1, 1, 3), (2, 1, 1, 2), (1, 2, 1, 2),
                       (2, 2, 1, 2)] + \
            ([(2, 2, 1, 3), (1, 1, 2, 3), (3, 2, 1, 2)] if big else []):
        cs.append(dict(
            name='bars-%dx%d+%d-p%d' % (n, m, k, p), h=h_lift_bars,
            args=dict(n=n, m=m, k=k, p=p), order='random',
            bounds='%d rows, %d+%d columns with symbolic bars over Z/%d' %
            (n, m, k, p)))
    return cs


PROPS = {
    'P01': dict(cases=cases_p01),
    'P02': dict(cases=cases_p02),
    'P03': dict(cases=cases_p03),
    'P04': dict(cases=cases_p04),
}
