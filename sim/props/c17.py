"""credible intervals of UMC are quantiles of its histograms"""
import numpy as np

from ..core import Violation
from .c06 import umc_case

BATCH = 15


def quantile_range(e, c, p, eps=1e-9):
    """all arguments at which the piecewise linear distribution function given by the
    edges e and the counts c takes the value p (an interval if bins are empty)"""
    G = np.append(0.0, np.cumsum(c)) / np.sum(c)
    scale = eps * (np.max(np.abs(e)) + 1e-300)

    def inverse(q):
        if q <= 0:
            return e[0], e[np.flatnonzero(G <= 0)[-1]]
        if q >= 1:
            return e[np.flatnonzero(G >= 1 - 1e-14)[0]], e[-1]
        m = np.flatnonzero(G < q)[-1]
        v = e[m] + (q - G[m]) / (G[m + 1] - G[m]) * (e[m + 1] - e[m])
        return v, v
    # rounding of the probability moves the quantile across an empty bin
    lo = min(inverse(p - 1e-12)[0], inverse(p)[0])
    hi = max(inverse(p + 1e-12)[1], inverse(p)[1])
    return lo - scale, hi + scale


def run(ch, ctx):
    nb = ch.wpick([("default", 1), ("int", 4), ("one", 3), ("several", 4)])
    if nb == "int":
        nbins = ch.size(1, 30, 400)
    elif nb == "one":
        nbins = [ch.size(1, 30, 400)]
    elif nb == "several":
        nbins = sorted(set(ch.int(1, 40) for _ in range(3)))
        nbins = ch.shuffle(nbins)
    over = dict(nbins=list(nbins) if nb in ("one", "several") else nbins) if nb != "default" else dict(nbins=1000)
    if nb == "default":
        nbins = 1000
    ci = ch.wpick([(0.95, 3), (None, 4), (1.0, 1), (0.0, 1), (0.5, 1)])
    if ci is None:
        ci = ch.int(1, 999) / 1000.0
    if not (ci == 0.95 and ch.bool()):
        over["credible_interval"] = ci
    res, Y0, Y, runs = umc_case(ch, ctx, **over)
    ctx.desc += " nbins=%s credible_interval=%g" % (nbins, ci)
    ctx.cover(ctx.desc)
    if len(res) != 5:
        raise Violation("shape", "UMC returned %d values" % len(res))
    y, Uy, low, high, happr = res
    low, high = np.asarray(low, float), np.asarray(high, float)
    want = [nbins] if isinstance(nbins, int) else list(nbins)
    n = len(y)
    if list(happr) != want:
        raise Violation("histograms", "nbins=%s requested, histograms of %s bins returned" % (nbins, list(happr)))
    if low.shape != (len(want), n) or high.shape != (len(want), n):
        raise Violation("shape", "credible limits of shape %s and %s for %d histograms of %d values" % (
            low.shape, high.shape, len(want), n))
    if Y is not None:
        Yr = np.concatenate([Y0, Y])
        big = np.max(np.abs(Yr)) + 1e-300
        for nbin in want:
            e = np.asarray(happr[nbin]["bin-edges"])
            if np.any(np.abs(e[0] - Yr.min(axis=0)) > 1e-9 * big) or np.any(np.abs(e[-1] - Yr.max(axis=0)) > 1e-9 * big):
                raise Violation("histogram-limits", "edges of the histogram do not enclose exactly the evaluated outputs")
    empty = 0
    for m, nbin in enumerate(want):
        e = np.asarray(happr[nbin]["bin-edges"], float)
        c = np.asarray(happr[nbin]["bin-counts"], float)
        if e.shape != (nbin + 1, n) or c.shape != (nbin, n) or np.any(c.sum(axis=0) != runs) or np.any(c < 0):
            raise Violation("histogram-total", "edges %s, counts %s summing to %s for %d runs" % (
                e.shape, c.shape, c.sum(axis=0), runs))
        if Y is not None and not np.any(np.ptp(Y0, axis=0) < 1e-6 * big):
            # recount (results within rounding of an edge may be on either side)
            cum = np.cumsum(c, axis=0)
            for k in range(n):
                v = np.sort(Y[:, k])
                for j in range(nbin - 1):
                    a = np.searchsorted(v, e[j + 1, k] - 1e-9 * big)
                    b = np.searchsorted(v, e[j + 1, k] + 1e-9 * big, side="right")
                    if not a <= cum[j, k] <= b:
                        raise Violation("histogram-bin", "nbins=%d: value %d: %d results below edge %d, counted %d" % (
                            nbin, k, a, j + 1, cum[j, k]))
            ctx.probe("recounted")
        for k in range(n):
            empty += int(np.any(c[:, k] == 0))
            for name, got, p in (("lower", low[m, k], (1 - ci) / 2), ("upper", high[m, k], (1 + ci) / 2)):
                a, b = quantile_range(e[:, k], c[:, k], p)
                if not a <= got <= b:
                    raise Violation("quantile", "%s limit of value %d for %d bins is %r, the %g-quantile of the histogram is in [%r, %r]" % (
                        name, k, nbin, got, p, a, b))
            tol = 1e-9 * np.max(np.abs(e[:, k]))
            if low[m, k] > high[m, k] + tol:
                if not (ci == 0.0):
                    raise Violation("order", "lower limit %r above upper limit %r" % (low[m, k], high[m, k]))
    ctx.probe("histograms with empty bins", int(empty > 0))
    ctx.nontrivial = Y is not None
    ctx.event("ok", ctx.desc)
