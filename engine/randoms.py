"""numpy.random on concrete replays: hands out the recorded values."""
import contextlib

import numpy as np
from fractions import Fraction

NAMES = ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform',
         'randint', 'choice', 'seed', 'default_rng', 'RandomState')


class Recorded(object):
    def __init__(self, assign):
        self.assign = assign
        self.aux = 0
        self.stream = None

    def _name(self):
        if self.stream is None:
            self.aux += 1
            return 'rnd%d' % self.aux
        self.stream[1] += 1
        return 'rnd_s%s_%d' % tuple(self.stream)

    def _u(self):
        v = float(Fraction(self.assign.get(self._name(), Fraction(1, 4))))
        return min(max(v, 0.0), 1 - 2.0 ** -53)

    def seed(self, s=None):
        self.stream = None if s is None else [s, 0]

    def rand(self, *shape):
        if not shape:
            return self._u()
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self._u()
        return a

    def random(self, size=None):
        if size is None:
            return self._u()
        if isinstance(size, (int, np.integer)):
            size = (size,)
        return self.rand(*size)
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + self.random(size) * (high - low)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is not None:
            if isinstance(size, (int, np.integer)):
                size = (size,)
            a = np.empty(size, dtype=int)
            for i in np.ndindex(*size):
                a[i] = self.randint(low, high)
            return a
        if int(low) == int(high) - 1:
            return int(low)
        v = self.assign.get(self._name().replace('rnd', 'rni'), low)
        return min(max(int(v), int(low)), int(high) - 1)
    integers = randint

    def choice(self, a, *args, **kw):
        if isinstance(a, (int, np.integer)):
            return int(self.randint(a))
        return a[int(self.randint(len(a)))]

    def default_rng(self, s=None):
        if s is not None:
            self.seed(s)
        return self
    RandomState = default_rng


@contextlib.contextmanager
def recorded(assign):
    r = Recorded(assign)
    old = {n: getattr(np.random, n) for n in NAMES}
    try:
        for n in NAMES:
            setattr(np.random, n, getattr(r, n))
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)
