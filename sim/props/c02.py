"""accounting of UMC_generic: samples drawn, evaluated, returned"""
import numpy as np

from .. import umc_common as U
from ..core import Violation
from ..simpool import POLICY

BATCH = 20


def check_accounting(s, dr, evs, res):
    total = s.runs_init + s.runs
    if len(dr.samples) != total:
        raise Violation("samples-drawn", "%d samples drawn for runs_init=%d and runs=%d" % (
            len(dr.samples), s.runs_init, s.runs))
    if max(dr.sizes) > max(s.runs_init, s.blocksize):
        raise Violation("block-too-large", "draws of sizes %s with blocksize %d, runs_init %d" % (
            dr.sizes, s.blocksize, s.runs_init))
    drawn = {}
    for smp in dr.samples:
        drawn[U.key(smp)] = drawn.get(U.key(smp), 0) + 1
    seen = {}
    for k, r in evs:
        seen[k] = seen.get(k, 0) + 1
    if seen != drawn:
        raise Violation("evaluations", "%d evaluations of %d different samples for %d drawn samples" % (
            len(evs), len(seen), len(drawn)))
    result = {k: np.asarray(r, float) for k, r in evs}
    if len(res) != (5 if s.return_samples else 4):
        raise Violation("return-arity", "%d return values" % len(res))
    Y = np.array([result[U.key(x)].ravel() for x in dr.samples[s.runs_init:]])
    if not np.max(np.abs(np.asarray(res[0]) - Y.mean(axis=0))) <= 1e-10 * (np.max(np.abs(Y)) + 1e-300):
        raise Violation("mean", "mean is not the mean of the results of all %d samples" % s.runs)
    if s.return_samples:
        sims = res[4]
        xs, ys = np.asarray(sims["samples"]), np.asarray(sims["results"])
        if xs.shape != (s.runs,) + s.in_shape or ys.shape != (s.runs,) + s.out_shape:
            raise Violation("returned-shape", "samples %s results %s" % (xs.shape, ys.shape))
        left = {}
        for smp in dr.samples[s.runs_init:]:
            left[U.key(smp)] = left.get(U.key(smp), 0) + 1
        for i in range(s.runs):
            k = U.key(xs[i])
            if left.get(k, 0) < 1:
                raise Violation("returned-sample", "returned sample %d was not drawn in the main phase "
                                "(or is returned twice)" % i)
            left[k] -= 1
            if not np.allclose(result[k], ys[i], rtol=1e-12, atol=1e-12):
                raise Violation("pairing", "returned result %d does not belong to returned sample %d" % (i, i))


def run(ch, ctx):
    if ch.bool(0.02):
        s, X, Y0, Y, res = U.many(ch, ctx, most=4200)
        if s.return_samples and not (np.array_equal(res[4]["samples"], X) and np.array_equal(res[4]["results"], Y)):
            raise Violation("pairing", "returned samples or results are not the %d drawn ones" % s.runs)
        return
    s = U.generate(ch, ctx, stochastic=ch.bool(0.15))
    style = U.schedule(ch, ctx, fork_p=0.04)
    ctx.desc = U.describe(s, style)
    dr = U.Draw(s.draw_seed, s.in_shape, s.tails, s.aslist, s.use_global)
    ev = U.Evaluate(s.eval_seed, s.in_shape, s.out_shape, s.kind, s.noise)
    res = U.no_deadlock(lambda: U.call(s, ev, dr))
    evs = U.evaluations()
    U.completion_signature(ctx)
    ctx.cover(s.runs, s.blocksize, s.out_shape, s.n_cpu, s.return_samples)
    blocks = -(-s.runs // s.blocksize)
    ctx.nontrivial = blocks >= 2
    ctx.probe("partial last block", int(s.runs % s.blocksize != 0 and blocks > 1))
    ctx.probe("parallel", int(s.n_cpu != 1))
    ctx.probe("returned samples", int(s.return_samples))
    check_accounting(s, dr, evs, res)
    ctx.event("ok")
