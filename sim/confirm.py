"""Monte Carlo confirmation of closed-form results: the library's own engine (UMC_generic,
under the simulated pool) evaluates a model at draws whose moments are exact."""
import numpy as np

from . import umc_common as U
from .core import Violation
from .moments import root, sigma_points


class Draws:
    """the first runs_init draws are the estimate, the following ones the sigma points"""

    def __init__(self, x, cov, eps):
        R = root(np.asarray(cov, float))
        self.X = np.asarray(x, float) + eps * sigma_points(len(x)).dot(R.T)
        self.x = np.asarray(x, float)
        self.first = True
        self.k = 0

    def __call__(self, size):
        if self.first:
            self.first = False
            return np.tile(self.x, (size, 1))
        out = self.X[self.k:self.k + size]
        self.k += size
        return out


class Offset:
    """the model relative to its value at the estimate, which keeps rounding small"""

    def __init__(self, model, x, eps):
        self.model, self.y0, self.eps = model, np.asarray(model(np.asarray(x, float)), float), eps

    def __call__(self, v):
        return (np.asarray(self.model(v), float) - self.y0) / self.eps


def propagate(ch, ctx, model, x, cov, eps=1.0):
    """estimate and covariance of model(x) by Monte Carlo"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import UMC_generic
    runs = 2 * len(x)
    dr, ev = Draws(x, cov, eps), Offset(model, x, eps)
    block = ch.int(1, runs) if ch.bool() else runs
    init = ch.int(1, 3)
    n_cpu = ch.wpick([(1, 3), (2, 1), (4, 1)])
    got = U.no_deadlock(lambda: UMC_generic(dr, ev, runs=runs, blocksize=block, runs_init=init, nbins=2, n_cpu=n_cpu))
    ctx.probe("Monte Carlo evaluations", runs)
    return ev.y0 + eps * np.asarray(got[0]), np.asarray(got[1]) * (runs - 1.0) / runs


def agree(what, y, C, my, mC, rtol=1e-6, kind=None, ytol=1e-9, size=0.0):
    """closed form against Monte Carlo; C may be the diagonal only.
    size: of the values with whose rounding Monte Carlo has to live"""
    kind = kind or what.split()[0]
    y, C = np.asarray(y, float), np.asarray(C, float)
    if y.shape != my.shape:
        raise Violation(kind, "%s: result has the shape %s, expected %s" % (what, y.shape, my.shape))
    big = np.max(np.abs(my)) + 1e-300
    if not np.all(np.abs(y - my) <= ytol * big + 1e-12 * np.sqrt(np.max(np.diag(mC)))):
        raise Violation(kind, "%s: value deviates by %.3g (values up to %.3g)" % (what, np.nanmax(np.abs(y - my)), big))
    v = np.sqrt(np.clip(np.diag(mC), 0, None))
    if C.ndim == 1:
        mC, S = np.diag(mC), v * v
    else:
        S = np.outer(v, v)
    if C.shape != mC.shape:
        raise Violation(kind, "%s: covariance has the shape %s, expected %s" % (what, C.shape, mC.shape))
    tol = rtol * S + rtol * 1e-3 * np.max(S) + 1e-14 * rtol + 1e-14 * max(big, size) * np.max(v)
    d = np.abs(C - mC)
    if not np.all(d <= tol):
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d - tol)), d.shape)
        raise Violation(kind, "%s: covariance element %s is %r, Monte Carlo: %r" % (what, i, C[i], mC[i]))
