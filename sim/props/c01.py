"""mean and covariance of UMC_generic are the batch statistics of its results"""
import numpy as np

from .. import umc_common as U
from ..core import Violation
from ..simpool import POLICY

BATCH = 20


def check_statistics(s, Y, y, Uy):
    big = np.max(np.abs(Y)) + 1e-300
    ref = Y.mean(axis=0)
    err = np.max(np.abs(y - ref))
    if not err <= 1e-10 * big:
        raise Violation("mean", "mean deviates by %.3g (values up to %.3g) from the mean of the %d results" % (
            err, big, len(Y)))
    if s.runs >= 2:
        C = np.atleast_2d(np.cov(Y, rowvar=False))
        var = np.max(np.diag(C))
        tol = 1e-9 * var + 1e-12 * big * np.sqrt(var) + 1e-28 * len(Y) * big ** 2
        err = np.max(np.abs(Uy - C))
        if not err <= tol:
            raise Violation("covariance", "covariance deviates by %.3g (variances up to %.3g) from "
                            "the covariance of the %d results" % (err, np.max(np.diag(C)), len(Y)))


def run(ch, ctx):
    if ch.bool(0.02):
        s, X, Y0, Y, res = U.many(ch, ctx)
        check_statistics(s, Y, np.asarray(res[0], float), np.asarray(res[1], float))
        return
    s = U.generate(ch, ctx, stochastic=ch.bool(0.15))
    style = U.schedule(ch, ctx, fork_p=0.04)
    ctx.desc = U.describe(s, style)
    dr = U.Draw(s.draw_seed, s.in_shape, s.tails, s.aslist, s.use_global)
    ev = U.Evaluate(s.eval_seed, s.in_shape, s.out_shape, s.kind, s.noise)
    res = U.no_deadlock(lambda: U.call(s, ev, dr))
    y, Uy, shape = np.asarray(res[0], float), np.asarray(res[1], float), tuple(res[3])
    evs = U.evaluations()
    U.completion_signature(ctx)
    ctx.cover(s.runs, s.blocksize, s.out_shape, s.n_cpu)
    n = int(np.prod(s.out_shape))
    if shape != s.out_shape or y.shape != (n,) or Uy.shape != (n, n):
        raise Violation("shape", "output_shape %s, y %s, Uy %s for results of shape %s" % (
            shape, y.shape, Uy.shape, s.out_shape))
    if len(dr.samples) < s.runs_init + s.runs:
        raise Violation("too-few-samples", "only %d samples drawn" % len(dr.samples))
    Y = U.main_results(s, dr, evs)
    if Y is None:
        raise Violation("not-evaluated", "a drawn sample was never evaluated")
    blocks = -(-s.runs // s.blocksize)
    ctx.nontrivial = blocks >= 2
    ctx.probe("partial last block", int(s.runs % s.blocksize != 0 and blocks > 1))
    ctx.probe("single block", int(blocks == 1))
    ctx.probe("blocksize 1", int(s.blocksize == 1))
    ctx.probe("parallel", int(s.n_cpu != 1))
    ctx.event("results", Y.shape, "blocks", blocks)
    check_statistics(s, Y, y, Uy)
    ctx.event("ok")
