"""histograms of UMC_generic account for every result"""
import numpy as np

from .. import umc_common as U
from ..core import Violation

BATCH = 20


def check_histograms(s, happr, Y_init, Y, nbins):
    """happr describes the results Y; Y_init only fixed the inner edges"""
    n = Y.shape[1]
    want = [nbins] if isinstance(nbins, int) else list(nbins)
    if sorted(happr.keys()) != sorted(want):
        raise Violation("histogram-keys", "histograms for %s requested, got %s" % (want, list(happr)))
    lo0, hi0 = Y_init.min(axis=0), Y_init.max(axis=0)
    lo = np.minimum(lo0, Y.min(axis=0))
    hi = np.maximum(hi0, Y.max(axis=0))
    for nb in want:
        e = np.asarray(happr[nb]["bin-edges"], float)
        c = np.asarray(happr[nb]["bin-counts"], float)
        if e.shape != (nb + 1, n) or c.shape != (nb, n):
            raise Violation("histogram-shape", "nbins=%d: edges %s counts %s" % (nb, e.shape, c.shape))
        if np.any(c < 0) or np.any(c != np.round(c)):
            raise Violation("histogram-counts", "negative or fractional counts")
        if np.any(c.sum(axis=0) != len(Y)):
            raise Violation("histogram-total", "nbins=%d: counts sum to %s for %d results" % (
                nb, c.sum(axis=0), len(Y)))
        if np.any(np.diff(e, axis=0) < 0):
            raise Violation("histogram-edges-order", "nbins=%d: edges decrease" % nb)
        scale = np.maximum(np.abs(lo), np.abs(hi)) + 1e-300
        tol = 1e-11 * scale
        if np.any(np.abs(e[0] - lo) > tol) or np.any(np.abs(e[-1] - hi) > tol):
            raise Violation("histogram-limits", "nbins=%d: edges span [%s, %s], evaluated results [%s, %s]" % (
                nb, e[0], e[-1], lo, hi))
        inner = lo0 + (hi0 - lo0) * (np.arange(nb + 1) / nb)[:, None]
        if np.any(np.abs(e[1:-1] - inner[1:-1]) > 10 * tol):
            raise Violation("histogram-inner-edges", "nbins=%d: inner edges do not divide the initial range evenly" % nb)
        cum = np.cumsum(c, axis=0)
        for k in range(n):
            v = np.sort(Y[:, k])
            for m in range(nb - 1):
                a = np.searchsorted(v, e[m + 1, k] - 10 * tol[k], side="left")
                b = np.searchsorted(v, e[m + 1, k] + 10 * tol[k], side="right")
                if not a <= cum[m, k] <= b:
                    raise Violation("histogram-bin", "nbins=%d output %d: %d results below edge %d, counted %d" % (
                        nb, k, a, m + 1, cum[m, k]))


def run(ch, ctx):
    if ch.bool(0.03):
        s, X, Y0, Y, res = U.many(ch, ctx)
        check_histograms(s, res[2], Y0, Y, s.nbins)
        return
    s = U.generate(ch, ctx, stochastic=ch.bool(0.15))
    style = U.schedule(ch, ctx, fork_p=0.04)
    ctx.desc = U.describe(s, style)
    dr = U.Draw(s.draw_seed, s.in_shape, s.tails, s.aslist, s.use_global)
    ev = U.Evaluate(s.eval_seed, s.in_shape, s.out_shape, s.kind, s.noise)
    res = U.no_deadlock(lambda: U.call(s, ev, dr))
    evs = U.evaluations()
    U.completion_signature(ctx)
    ctx.cover(s.runs, s.blocksize, s.out_shape, s.n_cpu, s.nbins, s.tails)
    by_key = {k: np.asarray(r, float).ravel() for k, r in evs}
    try:
        Y_all = np.array([by_key[U.key(x)] for x in dr.samples])
    except KeyError:
        raise Violation("not-evaluated", "a drawn sample was never evaluated")
    Y_init, Y = Y_all[:s.runs_init], Y_all[s.runs_init:]
    out = np.any((Y < Y_init.min(axis=0)) | (Y > Y_init.max(axis=0)))
    ctx.probe("results beyond the initial range", int(out))
    ctx.probe("degenerate output", int(s.kind == "const"))
    ctx.probe("several histograms", int(isinstance(s.nbins, list) and len(s.nbins) > 1))
    ctx.nontrivial = bool(out)
    check_histograms(s, res[2], Y_init, Y, s.nbins)
    ctx.event("ok")
