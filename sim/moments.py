"""Random draws with exact moments: all pairs of symmetric sigma points for the filter
coefficients and for the signal, handed to the Monte Carlo method instead of random
numbers.  Sample means and covariances of such draws have no sampling error."""
import numpy as np

from .seams import HUB


def root(U):
    w, V = np.linalg.eigh(0.5 * (U + U.T))
    return V * np.sqrt(np.clip(w, 0, None))


def sigma_points(d):
    """rows with mean 0 and covariance 1"""
    E = np.sqrt(d) * np.eye(d)
    return np.vstack((E, -E))


class Design:
    """p coefficients, n signal values; runs = 2p * 2n, run k uses the coefficients
    k // 2n and the signal k % 2n"""

    def __init__(self, p, n):
        assert n > p >= 1
        self.p, self.n = p, n
        self.T, self.X = sigma_points(p), sigma_points(n)
        self.runs = len(self.T) * len(self.X)
        self.it = self.ix = 0
        self.unmatched = False
        self.methods = ("multivariate_normal", "randn", "standard_normal", "normal")

    def install(self):
        for m in self.methods:
            HUB.override[m] = getattr(self, m)

    def remove(self):
        for m in self.methods:
            HUB.override.pop(m, None)

    def complete(self):
        """everything was consumed as foreseen"""
        return not self.unmatched and self.it == self.runs and self.ix == self.runs

    def theta(self, k):
        t = self.T[np.arange(self.it, self.it + k) // len(self.X) % len(self.T)]
        self.it += k
        return t

    def signal(self, k):
        x = self.X[np.arange(self.ix, self.ix + k) % len(self.X)]
        self.ix += k
        return x

    def block(self, size, d=None):
        """standardised values for a requested shape"""
        shape = (1,) if size is None else tuple(np.atleast_1d(size))
        total = int(np.prod(shape))
        if d is None:
            if total == self.n:
                return self.signal(1).reshape(shape)
            if total == self.p:
                return self.theta(1).reshape(shape)
            if shape in ((self.runs, self.n), (self.runs, 1, self.n)):
                return self.signal(self.runs).reshape(shape)
            if shape in ((self.runs, self.p), (self.runs, 1, self.p)):
                return self.theta(self.runs).reshape(shape)
        else:
            if d == self.n:
                return self.signal(total).reshape(shape + (d,))
            if d == self.p:
                return self.theta(total).reshape(shape + (d,))
        self.unmatched = True
        return None

    def multivariate_normal(self, mean, cov, size=None, *args, **kwargs):
        mean = np.asarray(mean, float)
        z = self.block(size, len(mean))
        if z is None:
            return NotImplemented
        out = mean + z.dot(root(np.asarray(cov, float)).T)
        return out[0] if size is None else out

    def standard_normal(self, size=None):
        z = self.block(size)
        return NotImplemented if z is None else z

    def randn(self, *size):
        return self.standard_normal(size or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        z = self.block(size)
        return NotImplemented if z is None else loc + scale * z
