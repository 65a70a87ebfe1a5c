"""Persistence morphisms: images, kernels, quotients, homology of chains of
persistence modules."""
from .field import lcg
from .persistence import check_sorted
from .util import Ranks, echelon, ints, kernel, rank, reduce_


# ------------------------------------------------------------------ inputs

def bars(E, tag, n, lo=0, hi=8):
    out = []
    for i in range(n):
        b = E.real('%sb%d' % (tag, i), lo, hi, default=(i % 2) / 2.0)
        d = E.real('%sd%d' % (tag, i), lo, hi, default=3 + i % 3)
        E.assume(b < d)
        out.append([b, d])
    return out


def fits(E, a, b):
    """a non zero map from the bar a to the bar b exists"""
    return E.all([b[0] <= a[0], a[0] < b[1], b[1] <= a[1]])


def morphism(E, tag, A, B, p):
    """symbolic matrix of a persistence morphism A -> B"""
    F = [[0] * len(A) for _ in B]
    for i in range(len(B)):
        for j in range(len(A)):
            x = E.int('%s%d%d' % (tag, i, j), 0, p - 1, default=1)
            E.assume(E.any([x == 0, fits(E, A[j], B[i])]))
            F[i][j] = x
    return F


def dense_bars(E, tag, na, nb, split=None):
    """bars between which every matrix is a morphism: targets are born first
    and die first"""
    B = [[0.0, E.real('%sBd%d' % (tag, i), 2, 4, default=3 - i / 4.0)]
         for i in range(nb)]
    A = []
    for j in range(na):
        b = E.real('%sAb%d' % (tag, j), 0, 2, default=j / 4.0, hi_open=True)
        A.append([b, 5.0 + (j % 2)])
    return A, B


def act(bs, r):
    return [i for i, b in enumerate(bs) if b[0] <= r < b[1]]


def ranked(E, rk, basis, tag):
    out = []
    if basis.dim == 0:
        return out
    for row in basis.barcode:
        b, d = rk(row[0]), rk(row[1])
        E.check(b >= 0 and d >= 0, 'end points of %s bars are end points of '
                'given bars' % tag)
        E.check(b < d, 'a bar of the %s is empty' % tag)
        out.append((b, d))
    E.check(len(out) == basis.dim, 'dimension of the ' + tag)
    return out


def columns(E, M, rows, n, p, tag):
    M = ints(E, M)
    E.check(len(M) == rows and (rows == 0 or len(M[0]) == n),
            'shape of the ' + tag)
    return [[M[i][j] % p for i in range(rows)] for j in range(n)]


def cnt(bs, r, s):
    return sum(1 for b, d in bs if b <= r and s < d)


def basis_ok(E, bs, cols, amb, top, p, tag):
    """representatives: made of elements born in time, gone at the end of
    their bars, independent while alive"""
    for (b, d), c in zip(bs, cols):
        for i, x in enumerate(c):
            if x:
                E.check(amb[i][0] <= b, tag + ': representative uses a '
                        'generator that is not born')
                E.check(not (amb[i][0] <= d < amb[i][1]),
                        tag + ': representative survives the end of its bar')
    for r in range(top):
        a = act(bs, r)
        rows = act(amb, r)
        if a:
            E.check(rank([[cols[k][i] for i in rows] for k in a], p) ==
                    len(a), tag + ': dependent representatives')


# ----------------------------------------------------------- image and kernel

def h_image(S, E, na, nb, p, what, dense=False, presort=False):
    if dense:
        A, B = dense_bars(E, '', na, nb)
        F = [[E.int('F%d%d' % (i, j), 0, p - 1, default=1)
              for j in range(na)] for i in range(nb)]
    else:
        A, B = bars(E, 'A', na), bars(E, 'B', nb)
        F = morphism(E, 'F', A, B, p)
    image_case(S, E, A, B, F, p, what, presort)


def partial(E, tag, A, B, p, entries, seed=1):
    """matrix of a morphism with the listed entries symbolic and the others
    fixed (zero where no map exists)"""
    F = [[0] * len(A) for _ in B]
    for i in range(len(B)):
        for j in range(len(A)):
            if (i, j) in entries:
                x = E.int('%s%d%d' % (tag, i, j), 0, p - 1, default=1)
                E.assume(E.any([x == 0, fits(E, A[j], B[i])]))
                F[i][j] = x
            else:
                x = (seed + 2 * i + 3 * j + i * j) % p
                if x and bool(fits(E, A[j], B[i])):
                    F[i][j] = x
    return F


def h_image_pattern(S, E, A, B, p, what, wiggle=(), entries=None, seed=1):
    """bars given as numbers, except for the listed end points; matrix
    symbolic"""
    A, B = [list(x) for x in A], [list(x) for x in B]
    for k, (which, i, e) in enumerate(wiggle):
        T = A if which == 'A' else B
        x = T[i][e]
        T[i][e] = E.real('w%d' % k, x - 1.5, x + 1.5, default=x)
    for x in A + B:
        E.assume(x[0] < x[1])
    F = morphism(E, 'F', A, B, p) if entries is None else \
        partial(E, 'F', A, B, p, entries, seed)
    image_case(S, E, A, B, F, p, what)


def image_case(S, E, A, B, F, p, what, presort=False):
    na, nb = len(A), len(B)
    X, Y = S.bases.barcode_basis(E.array(A)), S.bases.barcode_basis(E.array(B))
    Fm = E.array(F)
    if presort:
        o = [int(t) for t in X.sort(send_order=True)]
        A = [A[t] for t in o]
        F = [[r[t] for t in o] for r in F]
        o = [int(t) for t in Y.sort(send_order=True)]
        B = [B[t] for t in o]
        F = [F[t] for t in o]
        Fm = E.array(F)
    Im, Ker, Pre = S.imker.image_kernel(X, Y, Fm, p)
    E.check(E.all(X.barcode[i][k] == A[i][k] for i in range(na)
                  for k in range(2)), 'domain modified')
    E.check(E.all(Y.barcode[i][k] == B[i][k] for i in range(nb)
                  for k in range(2)), 'range modified')
    E.check(E.all(Fm[i][j] == F[i][j] for i in range(nb) for j in range(na)),
            'matrix modified')
    F = [[int(x) for x in r] for r in F]
    rk = Ranks(E, [x for b in A + B for x in b])
    top = len(rk)
    Ar = [(rk(b), rk(d)) for b, d in A]
    Br = [(rk(b), rk(d)) for b, d in B]
    im = ranked(E, rk, Im, 'image')
    ke = ranked(E, rk, Ker, 'kernel')
    if 'bars' in what:
        for r in range(top):
            ar, br = act(Ar, r), act(Br, r)
            K = kernel([[F[i][j] for i in br] for j in ar], p)
            for s in range(r, top):
                a2 = act(Ar, s)
                both = [j for j in ar if j in a2]
                bs = act(Br, s)
                E.check(cnt(im, r, s) ==
                        rank([[F[i][j] for i in bs] for j in both], p),
                        'image barcode')
                keep = [t for t, j in enumerate(ar) if j in a2]
                E.check(cnt(ke, r, s) ==
                        rank([[v[t] for t in keep] for v in K], p),
                        'kernel barcode')
    if 'reps' in what:
        ic = columns(E, Im.coordinates, nb, len(im), p, 'image') if im else []
        kc = columns(E, Ker.coordinates, na, len(ke), p, 'kernel') if ke \
            else []
        basis_ok(E, im, ic, Br, top, p, 'image')
        basis_ok(E, ke, kc, Ar, top, p, 'kernel')
        for (b, d), c in zip(ke, kc):
            for i in act(Br, b):
                E.check(sum(F[i][j] * c[j] for j in range(na)) % p == 0,
                        'kernel representative does not map to zero')
        if im:
            pc = columns(E, Pre, na, len(im), p, 'preimages')
            for (b, d), c, v in zip(im, pc, ic):
                E.check(all(Ar[j][0] <= b for j in range(na) if c[j]),
                        'preimage uses a generator that is not born')
                for i in range(nb):
                    E.check((sum(F[i][j] * c[j] for j in range(na)) - v[i])
                            % p == 0, 'preimage does not map to the image '
                            'representative')
        for X_, t in ((Im, 'image'), (Ker, 'kernel')):
            if X_.dim > 1:
                check_sorted(E, [list(r) for r in X_.barcode], t)
    E.reach()


def lots(g, n, lo, hi):
    """n pseudo-random bars with end points in quarters"""
    out = []
    for _ in range(n):
        b = lo + next(g) % (4 * (hi - lo) - 4) / 4.0
        out.append([b, b + .5 + next(g) % (4 * hi) / 4.0])
    return out


def h_image_rand(S, E, na, nb, p, what, seed):
    """a large pseudo-random morphism, two end points and two entries
    symbolic"""
    g = lcg(seed)
    A, B = lots(g, na, 1, 5), lots(g, nb, 0, 4)
    i, j = next(g) % na, next(g) % nb
    A[i][1] = E.real('a', A[i][0] + .25, A[i][1] + 2, default=A[i][1])
    B[j][0] = E.real('b', B[j][0] - 1, B[j][0] + .25, default=B[j][0])
    en = [(next(g) % nb, next(g) % na) for _ in range(2)]
    image_case(S, E, A, B, partial(E, 'F', A, B, p, en, next(g) % p), p, what)


def coarse(g, p, na, nb, q):
    """bars with few different integer end points, so that many of them
    begin and end together, and the matrix of a morphism"""
    A = [[1.0 + next(g) % q, next(g) % q] for _ in range(na)]
    B = [[0.0 + next(g) % q, next(g) % q] for _ in range(nb)]
    for x in A + B:
        x[1] += x[0] + 1
    F = [[next(g) % p if b[0] <= a[0] < b[1] <= a[1] else 0 for a in A]
         for b in B]
    return A, B, F


def h_image_coarse(S, E, na, nb, p, q, what, seed):
    """a large pseudo-random morphism of bars that share their end points,
    one of which moves, three entries symbolic"""
    g = lcg(seed)
    A, B, F = coarse(g, p, na, nb, q)
    on = [(i, j) for i in range(nb) for j in range(na) if F[i][j]]
    t = sorted({on[next(g) % len(on)] for _ in range(3)}) if on else []
    j = next(g) % na
    A[j][1] = E.real('a', A[j][0] + .5, A[j][1] + 1, default=A[j][1])
    for k, (i, l) in enumerate(on):
        if l == j:
            E.assume(fits(E, A[l], B[i]))
    for i, l in t:
        F[i][l] = E.int('F%d%d' % (i, l), 0, p - 1, default=F[i][l])
    image_case(S, E, A, B, F, p, what)


def h_misfit(S, E, hi):
    """matrices are rejected exactly when they do not fit the modules"""
    na, nb = int(E.int('na', 1, hi)), int(E.int('nb', 1, hi))
    m, n = int(E.int('m', 1, hi)), int(E.int('n', 1, hi))
    X = S.bases.barcode_basis(E.array([[1.0, 6.0 - i] for i in range(na)]))
    Y = S.bases.barcode_basis(E.array([[0.0, 2.0 - i / 8.0]
                                       for i in range(nb)]))
    F = [[E.int('F%d%d' % (i, j), 0, 2) for j in range(n)] for i in range(m)]
    try:
        S.imker.image_kernel(X, Y, E.array(F), 3)
        ok = True
    except ValueError:
        ok = False
    E.check(ok == (m == nb and n == na), 'a matrix that does not fit is '
            'accepted' if ok else 'a matrix that fits is rejected')
    E.reach()


def image_cases(tier, what):
    cs = []
    big = tier == 'thorough'

    def add(name, h, bounds, order='random', weight=1, **a):
        a['what'] = what
        cs.append(dict(name=name, h=h, args=a, bounds=bounds, order=order,
                       weight=weight))
    if 'bars' in what:
        cs.append(dict(name='misfit', h=h_misfit, args=dict(hi=2),
                       order='random', bounds='up to 2 bars and matrices up '
                       'to 2x2'))
    for na, nb, p in [(1, 1, 3), (2, 1, 2), (1, 2, 3)] + (
            [(2, 1, 5)] if big else []):
        add('free-%dx%d-p%d' % (nb, na, p), h_image, '%d bars to %d bars, all '
            'end points and the matrix symbolic, Z/%d' % (na, nb, p),
            na=na, nb=nb, p=p, presort=na == 1)
    dens = [(2, 2, 3), (3, 2, 2), (2, 3, 2), (3, 1, 5)]
    if big:
        dens += [(3, 3, 2), (3, 2, 3), (2, 3, 3), (4, 2, 2), (2, 2, 5)]
    for na, nb, p in dens:
        add('dense-%dx%d-p%d' % (nb, na, p), h_image, '%d bars to %d bars, '
            'every matrix over Z/%d, births of the domain and deaths of the '
            'range symbolic' % (na, nb, p), na=na, nb=nb, p=p, dense=True,
            weight=2)
    # domain bars that die at different radii, targets that die before
    add('steps-2x2-p5', h_image_pattern, '2 bars to 2 bars, deaths of the '
        'domain and the range move', A=[[0, 3], [0, 4]], B=[[0, 2], [-1, 2]],
        p=5, wiggle=[('A', 0, 1), ('B', 0, 1), ('A', 1, 0)])
    add('steps-1x2-p5', h_image_pattern, '2 bars to 1 bar', p=5,
        A=[[0, 3], [0, 4]], B=[[0, 2]],
        wiggle=[('A', 0, 1), ('A', 1, 1), ('B', 0, 1)])
    add('steps-2x3-p3', h_image_pattern, '3 bars to 2 bars', p=3,
        A=[[1, 3], [2, 3], [2, 4]], B=[[1, 3], [0, 3]],
        wiggle=[('A', 2, 1), ('B', 1, 1)])
    add('steps-3x3-p2', h_image_pattern, '3 bars to 3 bars', p=2,
        A=[[1, 5], [1.5, 6], [0.5, 7]], B=[[0, 3], [0, 4], [-1, 4.5]],
        wiggle=[('B', 0, 1), ('A', 0, 1)])
    add('steps-2x4-p2', h_image_pattern, '4 bars to 2 bars', p=2,
        A=[[1, 5], [1, 6], [0.5, 4], [2, 6]], B=[[0, 3], [0, 4]],
        wiggle=[('B', 0, 1), ('A', 2, 1)])
    # more bars, few symbolic entries
    wA = [[1, 5], [1, 6], [0.5, 4], [2, 6], [0, 7]]
    wB = [[0, 3], [0, 4], [0.5, 3.5], [-1, 2.5]]
    wide = [
        ('wide-4x5-p3', wA, wB, 3, [('B', 0, 1), ('A', 2, 0)],
         [(0, 1), (2, 3), (3, 0)], 1),
        ('wide-4x5-p7', wA, wB, 7, [('A', 0, 1), ('B', 1, 1)],
         [(1, 2), (0, 4)], 2),
        ('wide-4x5-p2', wA, wB, 2, [('B', 2, 1), ('A', 3, 1), ('A', 1, 0)],
         [(0, 0), (1, 1), (2, 2)], 0),
        ('wide-3x6-p5', wA + [[1.5, 4]], wB[:3], 5,
         [('B', 1, 1), ('A', 5, 1)], [(0, 5), (1, 3)], 3),
        ('wide-6x3-p3', [[1, 6], [2, 5], [1.5, 7]],
         wB + [[1, 4.5], [0.5, 5]], 3, [('B', 4, 1), ('A', 1, 0)],
         [(4, 0), (5, 2), (0, 1)], 1),
        ('wide-1x5-p11', wA, [[0, 3]], 11, [('B', 0, 1), ('A', 2, 1)],
         [(0, 1), (0, 3)], 4),
        ('wide-4x1-p13', [[1, 5]], wB, 13, [('A', 0, 0), ('B', 3, 1)],
         [(0, 0), (2, 0)], 5),
        # equal bars
        ('equal-3x3-p3', [[0, 3]] * 3, [[0, 3]] * 3, 3,
         [('A', 0, 1), ('B', 1, 1)], [(0, 0), (1, 1), (2, 0)], 1),
        ('zero-3x3-p2', [[0, 3], [0, 3], [1, 3]], [[0, 2], [0, 2], [0, 3]], 2,
         [('A', 2, 0), ('B', 0, 1)], [(i, j) for i in range(3)
                                      for j in range(2)], 0),
    ]
    for name, A_, B_, p, wig, en, sd in wide:
        add(name, h_image_pattern, '%d bars to %d bars over Z/%d, %d end '
            'points and %d entries symbolic' % (len(A_), len(B_), p, len(wig),
                                                len(en)),
            A=A_, B=B_, p=p, wiggle=wig, entries=en, seed=sd)
    for k in range(12 if big else 4):
        na, nb, p = 5 + k % 4, 5 + (k * 2) % 5, (2, 3, 5, 7, 11)[k % 5]
        add('rand-%dx%d-p%d-%d' % (nb, na, p, k), h_image_rand, '%d bars to '
            '%d bars over Z/%d, 2 end points and 2 entries symbolic' %
            (na, nb, p), na=na, nb=nb, p=p, seed=k + 1)
    many = [(7, 3, 3, 4, 5), (8, 4, 2, 4, 15), (8, 4, 3, 5, 6),
            (7, 5, 5, 4, 1), (6, 6, 3, 4, 290)]
    if big:
        many += [(8, 6, 2, 5, s) for s in (36, 139, 2, 3)] + \
            [(8, 4, 3, 5, s) for s in (233, 7, 8)] + \
            [(9, 6, 7, 5, s) for s in (1, 2, 3, 4)]
    for na, nb, p, q, s in many:
        add('coarse-%dx%d-p%d-%d' % (nb, na, p, s), h_image_coarse, '%d bars '
            'to %d bars with %d different births over Z/%d, an end point and '
            '3 entries symbolic' % (na, nb, q, p), na=na, nb=nb, p=p, q=q,
            seed=s)
    if big:
        add('steps-3x4-p2', h_image_pattern, '4 bars to 3 bars', p=2,
            A=[[1, 5], [1, 6], [0.5, 4], [2, 6]],
            B=[[0, 3], [0, 4], [0.5, 3.5]],
            wiggle=[('B', 0, 1), ('A', 2, 1)])
        add('steps-3x3-p3', h_image_pattern, '3 bars to 3 bars', p=3,
            A=[[1, 5], [1.5, 6], [0.5, 7]], B=[[0, 3], [0, 4], [-1, 4.5]],
            wiggle=[('B', 0, 1)])
        add('free-2x2-p2', h_image, '2 bars to 2 bars, everything symbolic',
            na=2, nb=2, p=2, weight=3)
        add('free-2x3-p2', h_image, '3 bars to 2 bars, everything symbolic '
            '(not exhausted)', na=3, nb=2, p=2, weight=3)
    else:
        add('free-2x2-p2', h_image, '2 bars to 2 bars, everything symbolic',
            na=2, nb=2, p=2, weight=2)
    return cs


# --------------------------------------------------------------- broken bases

def h_broken_image(S, E, n, p, what, B=None, wiggle=(), top=9.0,
                   entries=None, fixed=0):
    """generators that are rewritten in terms of others when they die: the
    barcode of the glued module"""
    if B is None:
        B = []
        for i in range(n):
            b = E.real('b%d' % i, 0, 9, default=(i % 2) / 2.0, hi_open=True)
            d = E.real('d%d' % i, 0, 9, default=3 + i % 3)
            E.assume(b < d)
            B.append([b, d])
    else:
        B = [list(x) for x in B]
        for k, (i, e) in enumerate(wiggle):
            x = B[i][e]
            B[i][e] = E.real('w%d' % k, max(0, x - 1.5), min(top, x + 1.5),
                             default=x)
        for x in B:
            E.assume(x[0] < x[1])
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if entries is not None and (i, j) not in entries:
                x = fixed and (fixed + i + 2 * j) % p
                if x and bool(E.all([B[i][0] <= B[j][1],
                                     B[j][1] < B[i][1]])):
                    M[i][j] = x
                continue
            x = E.int('m%d%d' % (i, j), 0, p - 1, default=1)
            # g_j becomes a sum of generators alive when it dies
            E.assume(E.any([x == 0, E.all([B[i][0] <= B[j][1],
                                           B[j][1] < B[i][1]])]))
            M[i][j] = x
    X = S.bases.barcode_basis(E.array(B))
    Y = S.bases.barcode_basis(E.array(B), broken_basis=True,
                              broken_differentials=E.array(M))
    o1 = [int(t) for t in X.sort(send_order=True)]
    o2 = [int(t) for t in Y.sort(send_order=True)]
    F = [[int(a == b) for b in o1] for a in o2]
    X.barcode[:, 1] = top * S.np.ones(X.dim)
    Im, _ = S.imker.image_kernel(X, Y, E.array(F), p)
    M = [[int(x) for x in r] for r in M]
    rk = Ranks(E, [x for b in B for x in b] + [top])
    tp = len(rk) - 1
    Br = [(rk(b), rk(d)) for b, d in B]
    im = ranked(E, rk, Im, 'image')

    def push(v, r, s):
        v = list(v)
        for t in range(r + 1, s + 1):
            w = list(v)
            for i in range(n):
                if Br[i][1] == t and v[i]:
                    w[i] = 0
                    for j in range(n):
                        w[j] = (w[j] + M[j][i] * v[i]) % p
            v = w
        return v
    for r in range(tp):
        base = act(Br, r)
        for s in range(r, tp):
            vs = [push([int(i == k) for i in range(n)], r, s) for k in base]
            E.check(cnt(im, r, s) == rank(vs, p), 'barcode of the glued '
                    'module')
    if Im.dim > 1:
        check_sorted(E, [list(r) for r in Im.barcode], 'glued module')
    E.reach()


def h_broken_rand(S, E, n, p, what, seed, top=12.0, q=None):
    """many generators, pseudo-random rules, two end points and two rules
    symbolic"""
    g = lcg(seed)
    if q is None:
        B = lots(g, n, 0, 5)
    else:
        # many bars begin and end together
        B = [[0.0 + next(g) % q, next(g) % q] for _ in range(n)]
        for x in B:
            x[1] += x[0] + 1
    wig = [(next(g) % n, 1), (next(g) % n, 0)]
    en = [(next(g) % n, next(g) % n) for _ in range(3)]
    h_broken_image(S, E, n, p, what, B=B, wiggle=wig, top=top,
                   entries=[e for e in en if e[0] != e[1]],
                   fixed=next(g) % p)


def broken_cases(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, bounds, order='random', weight=1, **a):
        a['what'] = ()
        cs.append(dict(name='glue-' + name, h=h_broken_image, args=a,
                       bounds=bounds, order=order, weight=weight))
    add('1', '1 generator', n=1, p=2)
    add('2-p3', '2 generators, all end points and rewriting rules symbolic',
        n=2, p=3)
    add('3-p2', '3 generators, chains of rewriting, 3 end points move',
        n=3, p=2, B=[[0, 2], [1, 4], [0.5, 6]],
        wiggle=[(0, 1), (1, 0), (1, 1)])
    add('3-p3', '3 generators, 2 end points move', n=3, p=3,
        B=[[0, 2], [0, 4], [0, 6]], wiggle=[(1, 1), (2, 0)])
    add('3-same-p2', '3 generators, two die together', n=3, p=2,
        B=[[0, 2], [1, 2], [0.5, 6]], wiggle=[(1, 1), (2, 0), (2, 1)])
    add('4-p2', '4 generators', n=4, p=2,
        B=[[0, 2], [0, 3], [1, 5], [0.5, 6]], wiggle=[(1, 1), (3, 0)],
        entries=[(1, 0), (2, 0), (3, 0), (2, 1), (3, 1), (3, 2)])
    wide = [[0, 2], [0, 3], [1, 5], [0.5, 6], [2, 7], [1.5, 4]]
    add('5-p3', '5 generators, 2 end points and 3 rules symbolic', n=5, p=3,
        B=wide[:5], wiggle=[(1, 1), (3, 0)],
        entries=[(1, 0), (2, 1), (4, 2)], fixed=1)
    add('5-p7', '5 generators, 2 end points and 2 rules symbolic', n=5, p=7,
        B=wide[:5], wiggle=[(2, 1), (4, 0)], entries=[(2, 0), (3, 2)],
        fixed=3)
    add('6-p2', '6 generators, 3 end points and 3 rules symbolic', n=6, p=2,
        B=wide, wiggle=[(1, 1), (5, 1), (0, 1)],
        entries=[(1, 0), (2, 1), (5, 1)], fixed=1)
    add('6-p5', '6 generators, 2 end points and 2 rules symbolic', n=6, p=5,
        B=wide, wiggle=[(0, 1), (5, 0)], entries=[(5, 0), (2, 5)], fixed=2)
    add('4-chain-p11', '4 generators rewritten one by the next', n=4, p=11,
        B=[[0, 2], [0, 4], [0, 6], [0, 8]], wiggle=[(1, 1), (2, 1)],
        entries=[(1, 0), (2, 1)], fixed=0)
    for k in range(16 if big else 5):
        n, p = 5 + k % 3, (2, 3, 5, 7, 11)[k % 5]
        cs.append(dict(name='glue-rand-%d-p%d-%d' % (n, p, k),
                       h=h_broken_rand, order='random',
                       args=dict(n=n, p=p, what=(), seed=k + 1),
                       bounds='%d generators over Z/%d, 2 end points and up '
                       'to 3 rules symbolic' % (n, p)))
    for k in range(16 if big else 6):
        n, p, q = 6 + k % 3, (2, 3, 5, 7)[k % 4], 3 + k % 2
        cs.append(dict(name='glue-coarse-%d-p%d-%d' % (n, p, k),
                       h=h_broken_rand, order='random',
                       args=dict(n=n, p=p, what=(), seed=k + 31, q=q),
                       bounds='%d generators with %d different births over '
                       'Z/%d, 2 end points and up to 3 rules symbolic' %
                       (n, q, p)))
    if big:
        add('3-free-p2', '3 generators, everything symbolic (not exhausted)',
            n=3, p=2, weight=3)
        add('4-p3', '4 generators', n=4, p=3,
            B=[[0, 2], [0, 3], [1, 5], [0.5, 9]], wiggle=[(1, 1), (3, 0)],
            entries=[(1, 0), (2, 0), (3, 0), (2, 1), (3, 1)])
    return cs


# ------------------------------------------------------------- homology of chains

def h_chain(S, E, ns, p, Bs=None, wiggle=(), what=(), D1=None,
            entries=None, mats=None):
    """C2 -> C1 -> C0 with composite zero"""
    if Bs is None:
        Bs = [bars(E, 'C%d' % d, n) for d, n in enumerate(ns)]
    else:
        Bs = [[list(x) for x in B] for B in Bs]
        for k, (d, i, e) in enumerate(wiggle):
            x = Bs[d][i][e]
            Bs[d][i][e] = E.real('w%d' % k, x - 1.5, x + 1.5, default=x)
        for B in Bs:
            for x in B:
                E.assume(x[0] < x[1])
    Ds = [0]
    for d in range(1, len(Bs)):
        if mats is not None and d in mats:
            M = mats[d]
        elif d == 1 and D1 is not None:
            M = [list(r) for r in D1]
            for i in range(len(Bs[0])):
                for j in range(len(Bs[1])):
                    if M[i][j]:
                        E.assume(fits(E, Bs[1][j], Bs[0][i]))
        elif entries is not None and d in entries:
            M = partial(E, 'D%d' % d, Bs[d], Bs[d - 1], p, entries[d])
        else:
            M = morphism(E, 'D%d' % d, Bs[d], Bs[d - 1], p)
        Ds.append(M)
    for d in range(2, len(Bs)):
        for j in range(len(Bs[d])):
            for i in range(len(Bs[d - 2])):
                v = 0
                for k in range(len(Bs[d - 1])):
                    v = v + Ds[d - 1][i][k] * Ds[d][k][j]
                if isinstance(v, int) and v == 0:
                    continue
                # the composite vanishes while the target lives
                E.assume(E.any([v % p == 0,
                                E.neg(fits(E, Bs[d][j], Bs[d - 2][i]))]))
    Base = [S.bases.barcode_basis(E.array(B)) if B else
            S.bases.barcode_basis([]) for B in Bs]
    Dm = [0] + [E.array(M) if M and M[0] else
                S.np.zeros((len(Bs[d]), len(Bs[d + 1])))
                for d, M in enumerate(Ds[1:])]
    Hom, Im, Pre = S.mph.module_persistence_homology(Dm, Base, p)
    Ds = [0] + [[[int(x) for x in r] for r in M] for M in Ds[1:]]
    rk = Ranks(E, [x for B in Bs for b in B for x in b])
    top = len(rk)
    Rs = [[(rk(b), rk(d)) for b, d in B] for B in Bs]
    E.check(len(Hom) == len(Bs), 'one homology module per degree')
    for d, B in enumerate(Rs):
        n = len(B)
        hb = ranked(E, rk, Hom[d], 'homology')
        hc = columns(E, Hom[d].coordinates, n, len(hb), p,
                     'homology') if hb else []
        D = Ds[d] if d else None
        U = Ds[d + 1] if d + 1 < len(Rs) else None
        if Hom[d].dim > 1:
            check_sorted(E, [list(r) for r in Hom[d].barcode], 'homology')

        def bnd(s):
            rows = act(B, s)
            if U is None:
                return rows, []
            return rows, [[U[i][c] for i in rows] for c in act(Rs[d + 1], s)]
        for r in range(top):
            ar = act(B, r)
            if d:
                lo = act(Rs[d - 1], r)
                K = kernel([[D[i][j] for i in lo] for j in ar], p)
            else:
                K = [[int(i == j) for i in range(len(ar))]
                     for j in range(len(ar))]
            for s in range(r, top):
                rows, bd = bnd(s)
                e = echelon(bd, p)
                pos = {j: t for t, j in enumerate(ar)}
                vs = [reduce_([v[pos[j]] if j in pos else 0 for j in rows],
                              e, p) for v in K]
                E.check(cnt(hb, r, s) == rank(vs, p),
                        'homology barcode in degree %d' % d)
        for (b, e), c in zip(hb, hc):
            E.check(all(B[i][0] <= b for i in range(n) if c[i]),
                    'representative uses a generator that is not born')
            if d:
                for i in act(Rs[d - 1], b):
                    E.check(sum(D[i][j] * c[j] for j in range(n)) % p == 0,
                            'representative is not a cycle')
            rows, bd = bnd(e)
            if rows:
                E.check(rank(bd + [[c[i] for i in rows]], p) == rank(bd, p),
                        'class does not vanish at the end of its bar')
        for r in range(top):
            rows, bd = bnd(r)
            a = act(hb, r)
            E.check(rank(bd + [[hc[k][i] for i in rows] for k in a], p) ==
                    rank(bd, p) + len(a), 'dependent classes')
        if d + 1 < len(Rs) and Im[d].dim > 0:
            ib = ranked(E, rk, Im[d], 'boundaries')
            ic = columns(E, Im[d].coordinates, n, len(ib), p, 'boundaries')
            basis_ok(E, ib, ic, B, top, p, 'boundaries')
            pc = columns(E, Pre[d + 1], len(Rs[d + 1]), len(ib), p,
                         'preimages')
            for (b, e), c, v in zip(ib, pc, ic):
                for i in range(n):
                    E.check((sum(U[i][j] * c[j] for j in range(len(c))) -
                             v[i]) % p == 0,
                            'preimage does not map to the boundary')
        if d + 1 < len(Rs):
            ib = ranked(E, rk, Im[d], 'boundaries')
            for r in range(top):
                rows, bd = bnd(r)
                E.check(len(act(ib, r)) == rank(bd, p),
                        'number of boundaries')
    E.reach()


def h_chain_rand(S, E, n0, n1, n2, p, seed):
    """quotients and kernels of many bars; the second map is built from
    multiples of a vector in the kernel of the first"""
    g = lcg(seed)
    B1 = lots(g, n1, 1, 5)
    B2 = [[5.5 + next(g) % 8 / 4.0, 16.0 + next(g) % 4] for _ in range(n2)]
    B0 = []
    D1 = []
    for _ in range(n0):
        # targets that die before the sources of the second map are born
        B0.append([0.0, 1.5 + next(g) % 14 / 4.0])
        D1.append([(next(g) % p) if B1[j][0] < B0[-1][1] <= B1[j][1] else 0
                   for j in range(n1)])
    i = next(g) % n1
    B1[i][1] = E.real('e', B1[i][1], B1[i][1] + 3, default=B1[i][1])
    k = next(g) % n2
    B2[k][0] = E.real('s', 5.25, 8, default=B2[k][0])
    en = {2: [(next(g) % n1, next(g) % n2) for _ in range(2)]}
    Bs = [B0, B1, B2]
    if not n0:
        D1 = None
    h_chain(S, E, (n0, n1, n2), p, Bs=Bs, D1=D1, entries=en)


def h_chain_coarse(S, E, n1, n2, p, q, seed, lead):
    """kernel and cokernel of a large morphism of bars that share their end
    points, below a trivial module (lead) or not; an end point and two
    entries symbolic"""
    g = lcg(seed)
    A, B, F = coarse(g, p, n2, n1, q)
    on = [(i, j) for i in range(n1) for j in range(n2) if F[i][j]]
    t = sorted({on[next(g) % len(on)] for _ in range(2)}) if on else []
    j = next(g) % n2
    A[j][1] = E.real('a', A[j][0] + .5, A[j][1] + 1, default=A[j][1])
    for i, l in on:
        if l == j:
            E.assume(fits(E, A[l], B[i]))
    for i, l in t:
        F[i][l] = E.int('F%d%d' % (i, l), 0, p - 1, default=F[i][l])
    if lead:
        h_chain(S, E, (0, n1, n2), p, Bs=[[], B, A], mats={2: F})
    else:
        h_chain(S, E, (n1, n2), p, Bs=[B, A], mats={1: F})


def chain_cases(tier):
    big = tier == 'thorough'
    cs = []

    def add(name, bounds, order='random', weight=1, **a):
        cs.append(dict(name=name, h=h_chain, args=a, bounds=bounds,
                       order=order, weight=weight))
    add('1-1-p3', '1 bar to 1 bar, everything symbolic', ns=(1, 1), p=3)
    add('0-2-1-p3', 'trivial target', ns=(0, 2, 1), p=3, weight=2,
        Bs=[[], [[0, 4], [1, 5]], [[1, 6]]], wiggle=[(1, 0, 1), (2, 0, 0)])
    add('0-1-1-p2', 'trivial target, everything symbolic', ns=(0, 1, 1), p=2)
    add('1-0-1-p2', 'trivial middle, everything symbolic', ns=(1, 0, 1), p=2)
    add('1-1-0-p2', 'trivial source, everything symbolic', ns=(1, 1, 0), p=2)
    add('1-1-1-p3', 'three bars, everything symbolic', ns=(1, 1, 1), p=3)
    add('2-1-p2', 'one bar to two bars', ns=(2, 1), p=2)
    add('1-2-1-p2', 'bars with 3 moving end points', ns=(1, 2, 1), p=2,
        Bs=[[[0, 3]], [[1, 3], [1.5, 5]], [[2, 6]]], weight=2,
        wiggle=[(0, 0, 1), (1, 0, 1), (2, 0, 0)])
    add('1-2-1-p3', 'bars with 3 moving end points', ns=(1, 2, 1), p=3,
        Bs=[[[0, 3]], [[1, 3], [1, 4]], [[1, 6]]], weight=2,
        wiggle=[(0, 0, 1), (1, 0, 1), (2, 0, 1)])
    add('1-3-1-p2', 'relative images', ns=(1, 3, 1), p=2, weight=2,
        Bs=[[[0, 1]], [[0, 2], [0, 3], [0, 2]], [[0, 2]]],
        wiggle=[(1, 0, 1), (2, 0, 1)])
    add('1-3-2-p2', 'two relations', ns=(1, 3, 2), p=2, weight=2,
        Bs=[[[0, 2]], [[0.5, 3], [0.5, 4], [1, 5]], [[2, 5], [1, 6]]],
        wiggle=[(1, 0, 1), (2, 0, 0)])
    add('2-2-p3', 'two bars to two bars, 3 moving end points', ns=(2, 2), p=3,
        Bs=[[[0, 3], [0, 4]], [[1, 5], [1, 6]]],
        wiggle=[(0, 0, 1), (1, 0, 0), (1, 1, 0)])
    add('0-3-2-p2', 'quotient of 3 bars by 2 elements', ns=(0, 3, 2), p=2,
        Bs=[[], [[0, 3], [0, 4], [0.5, 5]], [[1, 6], [2, 7]]],
        wiggle=[(1, 0, 1), (2, 0, 0)], weight=2)
    add('0-2-2-p5', 'quotient of 2 bars by 2 elements', ns=(0, 2, 2), p=5,
        Bs=[[], [[0, 3], [0, 4]], [[1, 6], [2, 7]]],
        wiggle=[(1, 0, 1), (2, 0, 0)], weight=2)
    # more bars
    add('0-4-3-p3', 'quotient of 4 bars by 3 elements, 3 entries and 2 ends '
        'symbolic', ns=(0, 4, 3), p=3,
        Bs=[[], [[0, 3], [0, 4], [0.5, 5], [1, 4.5]],
            [[1, 6], [2, 7], [1.5, 5.5]]],
        wiggle=[(1, 0, 1), (2, 0, 0)],
        entries={2: [(0, 0), (1, 2), (3, 1)]})
    add('0-5-2-p5', 'quotient of 5 bars by 2 elements, 2 entries and 2 ends '
        'symbolic', ns=(0, 5, 2), p=5,
        Bs=[[], [[0, 3], [0, 4], [0.5, 5], [1, 4.5], [0, 2]],
            [[1, 6], [1.5, 7]]], wiggle=[(1, 2, 1), (2, 1, 0)],
        entries={2: [(0, 0), (2, 1)]})
    add('3-4-p3', '4 bars to 3 bars, 3 entries and 2 ends symbolic',
        ns=(3, 4), p=3, Bs=[[[0, 3], [0, 4], [1, 3.5]],
                            [[1, 5], [1, 4], [1.5, 6], [2, 5]]],
        wiggle=[(0, 0, 1), (1, 1, 1)],
        entries={1: [(0, 0), (1, 2), (2, 3)]})
    add('2-4-2-p3', 'fixed first map, second map symbolic', ns=(2, 4, 2), p=3,
        Bs=[[[0, 3], [0, 3]], [[0, 3], [0, 4], [1, 5], [1, 4]],
            [[1, 6], [2, 7]]], D1=[[1, 2, 0, 1], [0, 1, 1, 0]],
        wiggle=[(2, 0, 0)])
    add('1-4-2-p2', 'fixed first map, second map symbolic', ns=(1, 4, 2), p=2,
        Bs=[[[0, 2.5]], [[0, 3], [0, 4], [1, 5], [1, 4]],
            [[1, 6], [2, 7]]], D1=[[1, 1, 0, 1]],
        wiggle=[(1, 1, 1), (2, 1, 0)])
    add('1-2-2-1-p3', 'four terms, first map fixed', ns=(1, 2, 2, 1), p=3,
        Bs=[[[0, 3]], [[0, 3], [1, 4]], [[1, 5], [2, 6]], [[2, 7]]],
        D1=[[1, 1]], wiggle=[(3, 0, 0), (2, 0, 1)])
    for k in range(12 if big else 4):
        n0, n1, n2 = (0, 2, 0, 1)[k % 4], 5 + k % 3, 3 + k % 2
        p = (2, 3, 5, 7, 11)[k % 5]
        cs.append(dict(name='rand-%d-%d-%d-p%d-%d' % (n0, n1, n2, p, k),
                       h=h_chain_rand, order='random', args=dict(
                           n0=n0, n1=n1, n2=n2, p=p, seed=k + 1),
                       bounds='%d, %d and %d bars over Z/%d, 2 end points '
                       'and 2 entries symbolic' % (n0, n1, n2, p)))
    many = [(4, 6, 2, 4, 15, 0), (5, 6, 3, 4, 2, 1), (6, 5, 5, 4, 3, 0),
            (7, 4, 3, 5, 4, 1)] + [(5 + k % 3, 8 - k % 3, (2, 3, 5)[k % 3],
                                    4 + k % 2, 20 + k, k % 2)
                                   for k in range(12)]
    if big:
        many += [(7, 8, 2, 5, k, k % 2) for k in range(5, 9)] + \
            [(6, 7, 7, 4, k, k % 2) for k in range(9, 13)]
    for n1, n2, p, q, k, lead in many:
        cs.append(dict(name='coarse-%d-%d-p%d-%d' % (n1, n2, p, k),
                       h=h_chain_coarse, order='random', args=dict(
                           n1=n1, n2=n2, p=p, q=q, seed=k, lead=lead),
                       bounds='%d bars to %d bars with %d different births '
                       'over Z/%d, an end point and 2 entries symbolic' %
                       (n2, n1, q, p)))
    if big:
        add('0-3-2-p3', 'quotient of 3 bars by 2 elements', ns=(0, 3, 2), p=3,
            Bs=[[], [[0, 3], [0, 4], [0.5, 5]], [[1, 6], [2, 7]]],
            wiggle=[(1, 0, 1), (2, 0, 0)], weight=2)
        add('2-2-2-p2', '2-2-2 bars', ns=(2, 2, 2), p=2, weight=2,
            Bs=[[[0, 3], [0, 4]], [[1, 4], [1, 6]], [[1.5, 6], [2, 7]]],
            wiggle=[(0, 0, 1), (1, 0, 1), (2, 0, 0)])
        add('1-2-1-free-p2', '1-2-1 bars, everything symbolic (not '
            'exhausted)', ns=(1, 2, 1), p=2, weight=3)
        add('0-2-1-free-p2', '2 bars by 1, everything symbolic',
            ns=(0, 2, 1), p=2, weight=2)
        add('1-1-1-1-p2', 'four terms', ns=(1, 1, 1, 1), p=2,
            Bs=[[[0, 3]], [[1, 4]], [[1, 5]], [[2, 6]]],
            wiggle=[(0, 0, 1), (1, 0, 1), (2, 0, 0)])
    return cs


def cases_p11(tier):
    return image_cases(tier, ('bars',))


def cases_p12(tier):
    return image_cases(tier, ('reps',))


PROPS = {
    'P11': dict(cases=cases_p11),
    'P12': dict(cases=cases_p12),
    'P13': dict(cases=chain_cases),
    'P14': dict(cases=broken_cases),
}
