"""Random generators that record the parameters of what is drawn; helpers for samplers."""
import zlib

import numpy as np

from simcats.support_functions import NormalSamplingRange, UniformSamplingRange
from simcats.support_functions._parameter_sampling import ParameterSamplingInterface


class RecGen(np.random.Generator):
    """A genuine generator (seeded PCG64) whose draws are logged as (name, parameters..., n)."""

    def __new__(cls, seed):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.log = []

    def __deepcopy__(self, memo):
        c = RecGen(0)
        c.bit_generator.state = self.bit_generator.state
        c.log = self.log
        return c

    def take(self):
        e, self.log[:] = list(self.log), []
        return e

    def state(self):
        return zlib.crc32(repr(self.bit_generator.state).encode())

    def _size(self, size):
        return 1 if size is None else int(np.prod(size))

    def binomial(self, n, p, size=None):
        self.log.append(("binomial", float(np.max(p)), self._size(size)))
        return super().binomial(n, p, size)

    def geometric(self, p, size=None):
        self.log.append(("geometric", float(np.max(p)), self._size(size)))
        return super().geometric(p, size)

    def poisson(self, lam=1.0, size=None):
        self.log.append(("poisson", float(np.max(lam)), self._size(size)))
        return super().poisson(lam, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.log.append(("normal", float(np.max(loc)), float(np.max(scale)), self._size(size)))
        return super().normal(loc, scale, size)


class CountingSampler(ParameterSamplingInterface):
    """Cycles through given values and counts the draws."""

    def __init__(self, values):
        self.values, self.n, self.last = list(values), 0, None

    def sample_parameter(self):
        self.last = self.values[self.n % len(self.values)]
        self.n += 1
        return self.last

    def last_sample(self):
        return self.last
