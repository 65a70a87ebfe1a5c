"""Calls do not influence each other: what a call returns depends on its
arguments only, and is not changed by later calls."""
import numpy

from engine import loader, sym
from .complexes import dist_matrix


# ----------------------------------------------------- results as plain data

def scalar(x):
    return sym.is_sym(x) or isinstance(
        x, (int, float, bool, str, numpy.generic)) or x is None


def plain(x, depth=0):
    """nested lists of numbers, copied out of a result"""
    if scalar(x):
        return x
    if depth > 9:
        return None
    if isinstance(x, numpy.ndarray):
        if x.ndim == 0:
            return plain(x.item() if x.size == 1 else None, depth + 1)
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return [[k, plain(x[k], depth + 1)] for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if hasattr(x, 'barcode') and hasattr(x, 'dim'):
        out = [int(x.dim)]
        if x.dim > 0:
            out += [plain(x.barcode, depth + 1),
                    plain(x.coordinates, depth + 1)]
        return out
    if hasattr(x, 'ref') and hasattr(x, 'coord'):
        return [plain(x.ref, depth + 1), plain(x.coord, depth + 1)]
    return None


def pairs(a, b, out):
    """entries to compare, False when the shapes differ"""
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(pairs(x, y, out)
                                        for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str):
        return a is b or a == b
    out.append((a, b))
    return True


def same(E, a, b, what):
    out = []
    E.check(pairs(a, b, out), what)
    E.check(E.all(x == y for x, y in out), what)


def spoil(x, depth=0):
    """what a caller may do with arrays it was given"""
    if depth > 6:
        return
    if isinstance(x, numpy.ndarray):
        if x.dtype == object and x.size and any(
                isinstance(v, (list, numpy.ndarray)) for v in x.flat):
            for v in x.flat:
                spoil(v, depth + 1)
            return
        try:
            x[...] = 77
        except (ValueError, TypeError, sym.Limit):
            pass
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, depth + 1)
    elif hasattr(x, 'barcode') and hasattr(x, 'dim'):
        spoil([x.barcode, x.coordinates], depth + 1)
    elif hasattr(x, 'ref') and hasattr(x, 'coord'):
        spoil([x.ref, x.coord], depth + 1)


# --------------------------------------------------------------- computations

def ints_of(E, tag, k, m, n, p):
    return [[E.int('%s%d_%d%d' % (tag, k, i, j), 0, p - 1,
                   default=(i + 2 * j + k) % p)
             if (i + j) % 2 == 0 or m * n <= 4 else (i + j + k) % p
             for j in range(n)] for i in range(m)]


class Job(object):
    """inputs of a call (made once) and the call"""

    def __init__(self, E, k):
        self.E, self.k = E, k
        self.make()


class Field(Job):
    def make(self):
        E, k = self.E, self.k
        # the two calls may use any two of these
        self.p = p = E.choice('p%d' % k, [2, 3, 5, 7, 13])
        self.a = E.int('a%d' % k, 1, p - 1)
        self.M = ints_of(E, 'M', k, 2, 2, p)
        self.N = ints_of(E, 'N', k, 2, 2 + k, p)

    def run(self, S):
        E, p = self.E, self.p
        A, B = E.array(self.M), E.array(self.N)
        return [S.arith.inv_mod_p(self.a, p), S.arith.add_mod_c(self.a, 2, p),
                S.arith.inv_mod_p(p - 1, p), S.arith.inv_mod_p(1 + p, p),
                S.functions.multiply_mod_p(A, B, p),
                S.arith.add_arrays_mod_c(A, E.array(self.M), p)]


class Reduce(Job):
    shape = (2, 2)
    primes = (2, 3)

    def make(self):
        E, k = self.E, self.k
        self.p = p = self.primes[k]
        self.M = ints_of(E, 'M', k, self.shape[0], self.shape[1], p)
        if k:
            self.M = [r + [(i + 1) % p] for i, r in enumerate(self.M)]
            self.M[0][1] = self.M[1][1] = 1
        self.b = [E.int('b%d' % k, 0, p - 1)] + [1] * (self.shape[0] - 1)

    def run(self, S):
        E, p = self.E, self.p
        out = list(S.gauss.gauss_col(E.array(self.M), p))
        try:
            out.append(S.functions.solve_mod_p(E.array(self.M),
                                               E.array(self.b), p))
        except ValueError:
            out.append('no solution')
        return out


class ReduceWide(Reduce):
    shape = (3, 3)
    primes = (2, 2)


class ReduceTwice(Reduce):
    """one matrix, two primes; the second call may have it transposed"""
    primes = (3, 5)

    def make(self):
        E, k = self.E, self.k
        self.p = self.primes[k]
        M = [[E.int('M%d%d' % (i, j), 0, 2, default=1 + (i == j))
              if i * j == 0 else 2 for j in range(2)] for i in range(2)]
        if k and bool(E.int('turn', 0, 1) == 1):
            M = [[M[j][i] for j in range(2)] for i in range(2)]
        self.M = M
        self.b = [2, 1]


class Rips(Job):
    sizes = (3, 3)
    dims = (2, 2)
    primes = (3, 5)
    free = (1, 1)
    radii = (4.0, 5.0)

    def make(self):
        E, k = self.E, self.k
        n = self.sizes[k]
        vals = [1.0, 3.0, 2.0, 3.5, 1.5, 2.5, 3.25]
        M = [[0.0] * n for _ in range(n)]
        t = 0
        for i in range(n):
            for j in range(i):
                if t % 2 == 0 and t // 2 < self.free[k]:
                    v = E.real('d%d_%d%d' % (k, j, i), 0, 6,
                               default=vals[t % 7])
                else:
                    v = vals[(t + k) % 7]
                M[i][j] = M[j][i] = v
                t += 1
        self.M = M

    def run(self, S):
        E, k = self.E, self.k
        C, R = S.vr.vietoris_rips(E.array(self.M), self.radii[k],
                                  self.dims[k])
        D = S.differentials.complex_differentials(C, self.primes[k])
        H, I, P = S.ph.persistent_homology(D, R, self.radii[k],
                                           self.primes[k])
        return [list(C[1:]), list(R), list(D[1:]), list(H), list(I),
                list(P[1:])]


class RipsSame(Rips):
    sizes = (4, 4)
    free = (1, 1)
    radii = (4.0, 4.0)
    primes = (3, 3)


class RipsDims(Rips):
    sizes = (4, 5)
    dims = (3, 1)
    primes = (2, 3)


class RipsMore(Rips):
    sizes = (4, 5)
    free = (2, 2)
    radii = (4.0, 4.0)
    primes = (7, 7)


class RipsRadius(Rips):
    sizes = (5, 4)
    dims = (2, 3)
    radii = (2.25, 6.0)
    primes = (5, 2)


class RipsPrimes(Rips):
    """the same distances modulo two primes, or permuted"""
    radii = (4.0, 4.0)
    primes = (3, 5)
    perm = ((0, 1, 2, 3), (0, 1, 2, 3))

    def make(self):
        E, n = self.E, 4
        vals = [1.0, 3.0, 2.0, 3.5, 1.5, 5.0]
        M = [[0.0] * n for _ in range(n)]
        w = self.perm[self.k]
        t = 0
        for i in range(n):
            for j in range(i):
                v = vals[t]
                if t == 4:
                    v = E.real('d', 0, 6, default=v)
                M[w[i]][w[j]] = M[w[j]][w[i]] = v
                t += 1
        self.M = M


class RipsPerm(RipsPrimes):
    primes = (3, 3)
    perm = ((0, 1, 2, 3), (3, 0, 2, 1))


class FlagsSame(Job):
    """as many vertices and edges"""
    graphs = ([(0, 1), (0, 2), (1, 2), (2, 3), (3, 4)],
              [(0, 1), (1, 2), (2, 3), (2, 4), (3, 4)])

    def make(self):
        a = self.E.int('v%d' % self.k, 0, 1)
        self.G = list(self.graphs[self.k]) + [(0, 3) if bool(a == 1)
                                              else (1, 4)]

    def run(self, S):
        C = S.flag.flag_complex(self.E.array([list(e) for e in self.G]), 5,
                                3)
        return [list(C[1:]), int(C[0])]


class Flags(Job):
    def make(self):
        E, k = self.E, self.k
        n = self.n = 4 + k
        self.edges = [(a, b) for a in range(n) for b in range(a + 1, n)]
        self.on = [True if (a + b + k) % 3 else
                   bool(E.int('e%d_%d%d' % (k, a, b), 0, 1) == 1)
                   for a, b in self.edges]

    def run(self, S):
        E = self.E
        G = E.array([list(e) for e, o in zip(self.edges, self.on) if o])
        C = S.flag.flag_complex(G, self.n, 3)
        return [list(C[1:]), list(S.differentials.complex_differentials(
            [C[0]] + [E.array([list(map(int, s)) for s in c]) if len(c) else c
                      for c in C[1:]], (3, 5)[self.k])[1:])]


class Morphism(Job):
    primes = (3, 5)
    A = ([[0., 3.], [1., 4.]], [[0., 2.], [.5, 5.], [1., 4.]])
    B = ([[0., 2.], [-1., 3.]], [[-1., 1.5], [0., 4.]])

    def make(self):
        E, k = self.E, self.k
        self.x = E.real('x%d' % k, 2.5, 6, default=3) if k == 0 else 3.5
        self.f = E.int('f%d' % k, 0, self.primes[k] - 1, default=1)
        self.g = E.int('g%d' % k, 0, 1, default=1)

    def run(self, S):
        E, k = self.E, self.k
        A = [list(r) for r in self.A[k]]
        A[0][1] = self.x
        X = S.bases.barcode_basis(E.array(A))
        Y = S.bases.barcode_basis(E.array(self.B[k]))
        F = [[0] * len(A) for _ in range(2)]
        F[0][0], F[1][1] = self.f, self.g
        F[1][0] = 1
        out = list(S.imker.image_kernel(X, Y, E.array(F), self.primes[k]))
        X.sort()
        return out + [X, X.changes_list(), X.active(1.5), X.birth(0.),
                      X.death(4.)]


class MorphismSame(Morphism):
    """the same bars with other matrices and primes"""
    A = ([[0., 3.], [1., 4.]],) * 2
    B = ([[0., 2.], [-1., 3.]],) * 2

    def make(self):
        E, k = self.E, self.k
        self.x = E.real('x', 2.5, 6, default=3)
        self.f = E.int('f%d' % k, 0, 2, default=1)
        self.g = 1 + k


class Complexes(Job):
    """three modules"""
    primes = (2, 3)

    def make(self):
        E, k = self.E, self.k
        self.x = E.real('x%d' % k, 1.5, 4, default=3)
        self.f = E.int('f%d' % k, 0, self.primes[k] - 1, default=1)

    def run(self, S):
        E, k = self.E, self.k
        b = S.bases.barcode_basis
        M0 = b(E.array([[0., 2. + k], [0., self.x]]))
        M1 = b(E.array([[0., 5.], [.5, 5.]]))
        M2 = b(E.array([[1., 5. + k]]))
        p = self.primes[k]
        D1 = [[self.f, 1], [self.f, 1]]
        D2 = [[p - 1], [self.f]]
        return list(S.mph.module_persistence_homology(
            [0, E.array(D1), E.array(D2)], [M0, M1, M2], p))


class Cover(Job):
    def make(self):
        E, k = self.E, self.k
        self.x = E.real('x%d' % k, 1, 5, default=3)
        self.P = [[0., 0.], [self.x, 1.], [6. - k, 4.], [2., 5.]]

    def run(self, S):
        c, ids, nerve = S.cover.generate_cover(2 + self.k, 1.0,
                                               self.E.array(self.P))
        return [list(c), list(ids), list(nerve[1:]), int(nerve[0])]


class CoverTurned(Job):
    """the same cloud with its axes exchanged, or as many hypercubes"""
    def make(self):
        E, k = self.E, self.k
        x = E.real('x', 1, 5, default=3)
        P = [[0., 0.], [x, 1.], [6., 3.5], [2., 3.]]
        self.P = [r[::-1] for r in P] if k else P
        self.div = 3

    def run(self, S):
        c, ids, nerve = S.cover.generate_cover(self.div, 1.0,
                                               self.E.array(self.P))
        return [list(c), list(ids), list(nerve[1:]), int(nerve[0])]


class CoverLine(CoverTurned):
    def make(self):
        E, k = self.E, self.k
        x = E.real('x', 1, 5, default=3)
        self.P = [[0., 0.], [x, 1.], [6., 5.5]] if k else \
            [[0., 0.], [x, 1.], [6., 1.25]]
        self.div = 2 if k else 4


class Chains(Job):
    def make(self):
        E, k = self.E, self.k
        self.r = [[E.int('r%d_%d%d' % (k, i, j), 0, 4) for j in range(2)]
                  for i in range(2)]

    def run(self, S):
        E = self.E
        S.chains.local_chains.p = 5
        a = S.chains.local_chains(2 + self.k)
        b = S.chains.local_chains(2 + self.k)
        a.add_entry(0, E.array([0, 2]), E.array(self.r))
        b.add_entry(self.k, E.array([1, 2]), E.array(self.r[::-1]))
        c = a + b
        b.minus()
        d = S.chains.local_chains.sums(a, E.array([[1, 2, 3], [0, 1, 4]]))
        return [a, b, c, d, list(S.chains.local_chains.copy_seq([a, c]))]


class Mayer(Job):
    """two clouds"""
    sizes = (1, 2)
    primes = (3, 5)
    dims = (2, 2)
    divs = (2, 2)

    def make(self):
        E, k = self.E, self.k
        x = E.real('x%d' % k, 1, 3, default=2)
        if k == 0:
            self.P = [[0., 0.], [1., .25], [x, 0.], [4., 4.], [1.75, 1.25]]
        else:
            self.P = [[0., 0.], [1.5, 2.25], [3., x], [4., 4.], [2.25, 1.],
                      [1., 3.]]

    def run(self, S):
        k = self.k
        r = (1.75, 2.0)[k]
        ss = S.mv.create_MV_ss(self.E.array(self.P), r, self.dims[k],
                               self.divs[k], r * 1.01, self.primes[k])
        out = [list(ss.persistent_homology)]
        out.append([[plain(c) for c in row] for row in ss.Hom[0]])
        return out


class MayerDims(Mayer):
    primes = (5, 2)
    dims = (3, 2)
    divs = (2, 3)


def h_calls(S, E, job):
    def fresh():
        return loader.load('sym' if E.sym else 'real', serial=True)
    T = fresh()
    first = job(E, 0)
    other = job(E, 1)
    if bool(E.int('swap', 0, 1) == 1):
        first, other = other, first
    r1 = first.run(T)
    s1 = plain(r1)
    r2 = other.run(T)
    s2 = plain(r2)
    same(E, plain(r1), s1, 'a later call changes the result of an earlier one')
    same(E, plain(other.run(fresh())), s2, 'a call gives another result after '
         'other calls')
    r3 = first.run(T)
    same(E, plain(r3), s1, 'the same call gives another result after other '
         'calls')
    same(E, plain(r2), s2, 'a later call changes the result of an earlier one')
    spoil(r1)
    spoil(r3)
    same(E, plain(first.run(T)), s1, 'what the caller does with a result '
         'changes the next')
    E.reach()


JOBS = [('field', Field, 'two sets of residues and matrices modulo any two of '
         '2, 3, 5, 7, 13'),
        ('reduce', Reduce, '2x2 and 2x3 matrices and systems modulo 2 and 3'),
        ('reduce-wide', ReduceWide, '3x3 and 3x4 matrices and systems modulo '
         '2', 1),
        ('rips', Rips, 'Rips complexes and barcodes of 3 points, modulo 3 '
         'and 5, other cut-off'),
        ('rips-same', RipsSame, 'Rips complexes and barcodes of two clouds of '
         '4 points with the same parameters'),
        ('rips-dims', RipsDims, 'Rips complexes and barcodes of 4 and 5 '
         'points, dimensions 3 and 1'),
        ('rips-more', RipsMore, 'Rips complexes and barcodes of 4 and 5 '
         'points, two distances symbolic in each', 1),
        ('rips-radius', RipsRadius, 'Rips complexes and barcodes of 5 and 4 '
         'points, small and large cut-off'),
        ('reduce-twice', ReduceTwice, 'a 2x2 matrix modulo 3 and 5, or '
         'transposed'),
        ('rips-primes', RipsPrimes, 'Rips complex of 4 points modulo 3 and '
         '5'),
        ('rips-perm', RipsPerm, 'Rips complexes of 4 points and of the same '
         'points renumbered'),
        ('flags-same', FlagsSame, 'flag complexes of two graphs with as many '
         'vertices and edges'),
        ('morphism-same', MorphismSame, 'the same bars with other matrices '
         'and primes'),
        ('cover-turned', CoverTurned, 'covers of a cloud and of the cloud '
         'with its axes exchanged'),
        ('cover-line', CoverLine, 'covers with 4x1 and 2x2 hypercubes'),
        ('flags', Flags, 'flag complexes of graphs on 4 and 5 vertices'),
        ('morphism', Morphism, 'images and kernels of two morphisms, bases '
         'used twice'),
        ('modules', Complexes, 'homology of two sequences of modules'),
        ('cover', Cover, 'covers of two clouds of the plane'),
        ('chains', Chains, 'two collections of chains'),
        ('mayer', Mayer, 'spectral sequences of two clouds of the plane, '
         'modulo 3 and 5'),
        ('mayer-dims', MayerDims, 'spectral sequences of two clouds of the '
         'plane, other dimensions and divisions')]


def cases_p25(tier):
    return [dict(name=n, h=h_calls, args=dict(job=j), bounds=b +
                 ', one input or more symbolic in each, both orders',
                 order='random', weight=2 if n.startswith('mayer') else 1)
            for n, j, b, *late in JOBS if tier == 'thorough' or not late]


PROPS = {'P25': dict(cases=cases_p25, opts=dict(query_ms=3000))}
