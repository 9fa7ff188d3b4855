"""SMC against run-wise recursive filtering on the same random stream"""
import numpy as np
from scipy.signal import lfilter
from scipy.stats.mstats import mquantiles

from .. import filters as F
from ..core import Violation
from ..seams import HUB

BATCH = 15


def smc_runs(x, std, b, a, Uab, runs, blow, alow, shift, phi, theta, Delta):
    """every run: its own coefficients, ARMA noise, low-pass and filter"""
    b = np.atleast_1d(np.asarray(b, float))
    a = np.array([1.0]) if a is None else np.asarray(a, float)
    coefs = np.hstack((a[1:], b))
    C = np.tile(coefs, (runs, 1)) if Uab is None else np.random.multivariate_normal(coefs, Uab, runs)
    n = len(x)
    W = np.zeros((runs, n))
    D = np.zeros((runs, n))
    for i in range(n):
        W[:, i] = np.random.randn(runs) * std
        D[:, i] = np.random.rand(runs) * 2 * Delta - Delta
    ma = np.hstack((1.0, np.atleast_1d(theta))) if theta is not None else np.array([1.0])
    ar = np.hstack((1.0, -np.atleast_1d(phi))) if phi is not None else np.array([1.0])
    Y = np.zeros((runs, n))
    for k in range(runs):
        xn = x + lfilter(ma, ar, W[k])
        if blow is not None:
            xn = lfilter(blow, 1.0 if alow is None else alow, xn)
        Y[k] = lfilter(C[k, len(a) - 1:], np.hstack((1.0, C[k, :len(a) - 1])), xn) + D[k]
    return np.roll(Y, shift, axis=1)


def statistics(Y, Perc):
    out = [Y.mean(axis=0), Y.std(axis=0)]
    if Perc is not None:
        out.append(np.array([mquantiles(Y[:, i], prob=Perc) for i in range(Y.shape[1])]).T)
    return out


def run(ch, ctx):
    from PyDynamic.uncertainty.propagate_MonteCarlo import SMC
    b, a, r = F.gen_filter(ch, max_order=4)
    x = F.gen_signal(ch, r, lo=1)
    n = len(x)
    a_arg = a
    if len(a) == 1 and ch.bool(0.5):
        a_arg = 1.0      # a FIR filter may be given with a scalar denominator
    Uab = None
    k = "none"
    spread = ch.pick([0.01, 0.1])
    if ch.bool(0.7):
        Uab, k = F.gen_cov(ch, r, len(a) + len(b) - 1, spread)
    std = ch.pick([0.1, 1.0, 0.0])
    runs = ch.size(1, 30, 1500)
    Perc = None
    if ch.bool(0.4):
        Perc = list(r.uniform(0, 1, ch.int(1, 4)))
        if ch.bool(0.5):
            Perc.sort()
        elif ch.bool(0.3):
            Perc.append(Perc[0])
        if ch.bool(0.2):
            Perc[-1] = ch.pick([0.0, 1.0])
    blow = alow = None
    low = ch.wpick([("none", 3), ("fir", 1), ("iir", 2)])
    if low != "none":
        blow, alow, _ = F.gen_filter(ch, fir_ok=False, max_order=3)
        if low == "fir":
            alow = None
    phi = theta = None
    if ch.bool(0.5):
        phi = r.uniform(-0.4, 0.4, ch.int(1, 3))
        if len(phi) == 1 and ch.bool(0.5):
            phi = float(phi[0])
    if ch.bool(0.5):
        theta = r.uniform(-0.8, 0.8, ch.int(1, 3))
        if len(theta) == 1 and ch.bool(0.5):
            theta = float(theta[0])
    Delta = ch.pick([0.0, 0.2])
    shift = ch.wpick([(0, 3), (1, 1), (-2, 1)])
    seed = ch.subseed()
    restart = F.extreme_draws(ch, ctx)
    ctx.desc = ("SMC n=%d std=%g b=%d a=%d%s Uab=%s*%g runs=%d Perc=%s lowpass=%s phi=%s theta=%s Delta=%g shift=%d" % (
        n, std, len(b), len(a), "" if a_arg is a else "(scalar)", k, spread, runs, Perc is not None, low,
        np.size(phi) if phi is not None else 0, np.size(theta) if theta is not None else 0, Delta, shift))
    ctx.cover(ctx.desc)
    ctx.nontrivial = runs > 1

    brief = ch.bool(0.3)        # leave out what has its default value

    def call(R, ret, s=seed, P=Perc):
        if restart:
            restart()
        kw = dict(Uab=Uab, runs=R, Perc=P, blow=blow, alow=alow, shift=shift,
                  return_samples=ret, phi=phi, theta=theta, Delta=Delta)
        if brief:
            kw = {k: v for k, v in kw.items() if v is not None and not (k in ("shift", "Delta") and v == 0)}
        np.random.seed(s)
        return SMC(x, std, b, a_arg, **kw)

    def ref(R, s):
        if restart:
            restart()
        np.random.seed(s)
        return smc_runs(x, std, b, a, Uab, R, blow, alow, shift, phi, theta, Delta)
    Y = ref(runs, seed)
    samples = np.asarray(call(runs, True))
    res = call(runs, False)
    want = statistics(Y, Perc)
    if len(res) != len(want):
        raise Violation("smc-arity", "%d return values" % len(res))
    scale = np.max(np.abs(Y)) + 1e-300
    if F.close(samples, Y, rtol=1e-8) and all(F.close(v, w, rtol=1e-7, atol=1e-9 * scale) for v, w in zip(res, want)):
        ctx.probe("exact stream")
        ctx.event("ok")
        return
    if samples.shape != (runs, n):
        raise Violation("smc-samples", "%s samples, expected %s" % (samples.shape, (runs, n)))
    own = statistics(samples, Perc)
    for what, v, w in zip(("mean", "standard deviation", "percentiles"), res, own):
        if not F.close(v, w, rtol=1e-7, atol=1e-9 * scale):
            raise Violation("smc-statistics", "%s is not that of the samples: %s" % (what, F.dev(v, w)))
    ctx.probe("distribution")
    if restart:     # which draws are improbable depends on how they are portioned
        HUB.override.clear()
        restart = False
    A = np.asarray(call(1500, True, seed + 1, None))
    B = ref(1500, seed + 2)
    what = F.differ(A, B)
    if what:
        raise Violation("smc-" + what, "SMC samples do not match run-wise filtering (%s differs); on the same "
                        "stream %s" % (what, F.dev(samples, Y)))
    ctx.event("ok")
