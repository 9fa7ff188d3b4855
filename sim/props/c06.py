"""MC and UMC for filters against a run-by-run reference on the same random stream"""
import numpy as np
from scipy import stats
from scipy.signal import lfilter

from .. import filters as F
from .. import umc_common as U
from ..core import Violation
from ..seams import HUB, STDOUT, RealRandomState
from ..simpool import POLICY

BATCH = 15


def mc_runs(x, Ux, b, a, Uab, runs, blow, alow, shift):
    """the definition of the method; returns samples and stable runs"""
    Theta = np.random.multivariate_normal(np.hstack((a[1:], b)), Uab, runs)
    Na = len(a)
    Y = np.zeros((runs, len(x)))
    ok = []
    matrix = isinstance(Ux, np.ndarray) and Ux.ndim == 2
    dist = stats.multivariate_normal(x, Ux, allow_singular=True) if matrix else None
    for k in range(runs):
        if matrix:
            xn = np.atleast_1d(dist.rvs())
        else:
            xn = x + np.random.randn(1, len(x))[0] * Ux
        if blow is not None:
            xn = lfilter(blow, 1.0 if alow is None else alow, xn)
        aa = np.hstack((1.0, Theta[k, :Na - 1]))
        if Na == 1 or np.all(np.abs(np.roots(aa)) < 1):
            Y[k] = lfilter(Theta[k, Na - 1:], aa, xn)
            ok.append(k)
    return np.roll(Y, shift, axis=1), ok


def run_mc(ch, ctx):
    from PyDynamic.uncertainty.propagate_MonteCarlo import MC
    b, a, r = F.gen_filter(ch)
    x = F.gen_signal(ch, r)
    n = len(x)
    spread = ch.pick([0.01, 0.1, 0.4])
    Uab, kab = F.gen_cov(ch, r, len(a) + len(b) - 1, spread)
    kind = ch.pick(["float", "point", "matrix"])
    sd = ch.pick([0.1, 1.0, 0.003])
    if kind == "float":
        Ux = float(sd)
    elif kind == "point":
        Ux = sd * r.uniform(0, 1, n)
        if ch.bool(0.3):
            Ux[ch.int(0, n - 1)] = 0.0
    else:
        Ux, k2 = F.gen_cov(ch, r, n, sd)
        kind = "matrix/" + k2
    runs = ch.size(2, 40, 1300)
    blow = alow = None
    low = ch.wpick([("none", 3), ("fir", 1), ("iir", 1)])
    if low != "none":
        blow, alow, _ = F.gen_filter(ch, fir_ok=False)
        if low == "fir":
            alow = None
    shift = ch.wpick([(0, 3), (1, 1), (-2, 1), (n + 1, 1)])
    verbose = ch.bool(0.5)
    runs_arg = float(runs) if ch.bool(0.2) else runs
    seed = ch.subseed()
    restart = F.extreme_draws(ch, ctx)
    ctx.desc = "MC n=%d Ux=%s b=%d a=%d Uab=%s*%g runs=%s lowpass=%s shift=%d" % (
        n, kind, len(b), len(a), kab, spread, runs_arg, low, shift)
    ctx.cover(ctx.desc)

    def call(R, ret, s=seed):
        if restart:
            restart()
        np.random.seed(s)
        return MC(x, Ux, b, a, Uab, runs=R, blow=blow, alow=alow, return_samples=ret,
                  shift=shift, verbose=verbose)
    if restart:
        restart()
    np.random.seed(seed)
    Y, ok = mc_runs(x, Ux, b, a, Uab, runs, blow, alow, shift)
    ctx.probe("unstable runs", int(len(ok) < runs))
    if len(ok) < runs:
        ctx.fault("unstable-filter-drawn", runs - len(ok))
    if len(ok) < 2:
        return
    samples = call(runs_arg, True)
    y, Uy = call(runs_arg, False)
    ctx.nontrivial = True
    samples = np.asarray(samples)
    exact = (F.close(samples, Y) and F.close(y, Y[ok].mean(axis=0))
             and F.close(Uy, np.cov(Y[ok], rowvar=False)))
    if exact:
        ctx.probe("exact stream")
        return
    # another use of the random stream is legitimate: consistency, then distribution
    if samples.shape != (runs, n):
        raise Violation("mc-samples", "%s samples, expected %s" % (samples.shape, (runs, n)))
    if len(ok) == runs and np.any(samples) and not restart:
        for what, got, want in (("mean", y, samples.mean(axis=0)), ("covariance", Uy, np.cov(samples, rowvar=False))):
            if not F.close(got, want):
                raise Violation("mc-statistics", "%s is not that of the samples: %s" % (what, F.dev(got, want)))
    if restart:
        HUB.override.clear()
        restart = False
    ctx.probe("distribution")
    R = 1500
    A = np.asarray(call(R, True, seed + 1))
    np.random.seed(seed + 2)
    B, okB = mc_runs(x, Ux, b, a, Uab, R, blow, alow, shift)
    np.random.seed(seed + 1)
    A2, okA2 = mc_runs(x, Ux, b, a, Uab, R, blow, alow, shift)
    what = F.differ(A, B)
    if what:
        raise Violation("mc-" + what, "MC samples do not match the definition (%s differs); on the same random stream %s" % (
            what, F.dev(A, A2)))
    y, Uy = call(R, False, seed + 1)
    okA = np.any(A != 0, axis=1) if len(okB) < R else np.ones(R, bool)
    if not F.close(y, A[okA].mean(axis=0)) or not F.close(Uy, np.cov(A[okA], rowvar=False)):
        raise Violation("mc-statistics", "mean or covariance are not those of the (stable) samples")


def standardised(v, low, width):
    v, low, width = np.asarray(v, float), np.asarray(low, float), np.asarray(width, float)
    w = np.where(width == 0, 1.0, width)
    return [float(t) for t in np.ravel((v - low) / w * (width != 0))]


def normals(draws):
    """standard normal and uniform values behind the draws of one evaluation, in order"""
    z, u = [], []
    for name, a_, k_, v in draws:
        a_ = list(a_[:2]) + [0.0, 1.0][len(a_[:2]):]
        if name in ("randn", "standard_normal"):
            z += standardised(v, 0.0, 1.0)
        elif name == "normal":
            z += standardised(v, k_.get("loc", a_[0]), k_.get("scale", a_[1]))
        elif name in ("rand", "random_sample", "random"):
            u += standardised(v, 0.0, 1.0)
        elif name == "uniform":
            low, high = k_.get("low", a_[0]), k_.get("high", a_[1])
            u += standardised(v, low, np.asarray(high, float) - low)
        else:
            return None, None
    return z, u


def umc_case(ch, ctx, check=False, **over):
    """one call of UMC; what it returned and, if its use of the random stream is the
    foreseen one, the outputs of the initial and of the main phase"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import UMC
    b, a, r = F.gen_filter(ch, max_order=2)
    x = F.gen_signal(ch, r, hi=8)
    n = len(x)
    mode = ch.pick(["coefficients", "noise", "both"])
    p = len(a) + len(b) - 1
    runs, blocksize, runs_init = ch.size(2, 25, 300), ch.size(1, 8, 60), ch.size(1, 4, 120)
    low = ch.wpick([("none", 2), ("fir", 1), ("iir", 1), ("scaled", 1)])
    kw = {}
    blow, alow = np.array([1.0]), np.array([1.0])
    if low != "none":
        blow, alow, _ = F.gen_filter(ch, fir_ok=False, max_order=2)
        if low == "fir":
            alow = np.array([1.0])
            kw = dict(blow=blow)
        elif low == "scaled":
            kw = dict(blow=blow * 2.0, alow=alow * 2.0)
        else:
            kw = dict(blow=blow, alow=alow)
    style = U.schedule(ch, ctx, fork_p=0.05)
    seed = ch.subseed()
    ctx.desc = "UMC mode=%s n=%d b=%d a=%d runs=%d blocksize=%d runs_init=%d lowpass=%s" % (
        mode, n, len(b), len(a), runs, blocksize, runs_init, low)
    main = []
    HUB.recorder = lambda name, a_, k_, v: main.append((name, a_, k_, v))
    POLICY.task_log = []
    POLICY.record_rng = True
    phi = theta = 0.0
    sigma = Delta = 0.0
    Uab = np.zeros((p, p))
    if mode != "noise":
        Uab, _ = F.gen_cov(ch, r, p, ch.pick([0.01, 0.05]))
    if mode != "coefficients":
        sigma = ch.pick([1.0, 0.2, 0.0])
        Delta = ch.pick([0.0, 0.3])
        if ch.bool(0.5):
            phi = r.uniform(-0.4, 0.4, ch.int(1, 2))
        if ch.bool(0.5):
            theta = r.uniform(-0.4, 0.4, ch.int(1, 2))
        kw.update((k, v) for k, v in (("phi", phi), ("theta", theta), ("Delta", Delta)) if np.any(v) or ch.bool())
    if sigma != 1.0 or ch.bool():
        kw["sigma"] = sigma
    np.random.seed(seed)
    res = U.no_deadlock(lambda: UMC(x, b, a, Uab, runs=runs, blocksize=blocksize, runs_init=runs_init,
                                    **dict(dict(nbins=ch.pick([10, [5, 7]])), **over), **kw))
    HUB.recorder = None
    ctx.cover(ctx.desc)
    na, tot = len(a), runs + runs_init
    ys = None
    th = [np.hstack((a[1:], b))] * tot
    if mode != "noise":
        th = [v for name, _, _, v in main if name == "multivariate_normal"]
        th = np.concatenate([np.reshape(v, (-1, p)) for v in th]) if th else np.zeros((0, p))
    zu = [(np.zeros(n), np.zeros(n))] * tot
    if mode != "coefficients":
        tasks = [t["draws"] for t in sorted(POLICY.task_log, key=lambda t: t["no"])]
        if not tasks:  # in the calling process: the stream of the main generator, one by one
            flat = [d for d in main if d[0] != "multivariate_normal"]
            z, u = normals(flat)
            if z is not None and len(z) == tot * n and len(u) == tot * n:
                zu = [(z[i * n:(i + 1) * n], u[i * n:(i + 1) * n]) for i in range(tot)]
            else:
                zu = []
        else:
            zu = [normals(d) for d in tasks]
    if len(th) == tot == len(zu) and all(z is not None and len(z) == n and len(u) == n for z, u in zu):
        ys = []
        for t, (z, u) in zip(th, zu):
            e = lfilter(np.append(1.0, theta) if np.ndim(theta) else np.array([1.0, theta]),
                        np.append(1.0, -np.atleast_1d(phi)), np.array(z))
            ys.append(lfilter(t[na - 1:], np.append(1, t[:na - 1]), lfilter(blow, alow, x + sigma * e))
                      + Delta * (2 * np.array(u) - 1))
        ys = np.array(ys)
        for k, what in ((0, "noise"), (1, "deviations")):
            drawn = [tuple(v[k]) for v in zu if np.any(v[k])]
            if len(set(drawn)) < len(drawn):
                raise Violation("umc-repeated", "evaluations of UMC share their random %s" % what)
    POLICY.task_log = []
    ctx.probe("UMC " + mode)
    why = None
    if ys is not None:
        big = np.max(np.abs(ys)) + 1e-300
        C = np.cov(ys[runs_init:], rowvar=False)
        if not F.close(res[0], ys[runs_init:].mean(axis=0), atol=1e-12):
            why = "mean"
        elif not F.close(res[1], C, rtol=1e-8, atol=1e-12 * big ** 2):
            why = "covariance"
    if ys is not None and not why:
        return res, ys[:runs_init], ys[runs_init:], runs
    ctx.probe("unmatched stream")
    if check:
        # another use of the random stream than foreseen, or wrong results
        R, big = 800, 20000
        np.random.seed(seed + 1)
        y, Uy = U.no_deadlock(lambda: UMC(x, b, a, Uab, runs=R, blocksize=50, runs_init=2, nbins=5, **kw))[:2]
        g = RealRandomState(seed + 2)
        th = g.multivariate_normal(np.hstack((a[1:], b)), Uab, big)
        e = lfilter(np.append(1.0, np.atleast_1d(theta)), np.append(1.0, -np.atleast_1d(phi)),
                    sigma * g.normal(size=(big, n)), axis=1)
        xs = lfilter(blow, alow, x + e, axis=1)
        if mode == "noise":
            B = lfilter(b, a, xs, axis=1)
        else:
            B = np.array([lfilter(t[na - 1:], np.append(1, t[:na - 1]), v) for t, v in zip(th[:4000], xs)])
        B = B + g.uniform(-1, 1, size=B.shape) * Delta
        what = agrees(np.asarray(y), np.asarray(Uy), R, B)
        if what:
            raise Violation("umc-" + what, "UMC %s of %d runs does not match the definition; on the same stream: %s" % (
                what, R, why or "not comparable"))
    return res, None, None, runs


def agrees(y, Uy, R, B, nsig=7.0):
    """mean and covariance of R runs against those of a large reference sample"""
    n = B.shape[1]
    if y.shape != (n,) or np.shape(np.atleast_2d(Uy)) != (n, n):
        return "shape %s, %s" % (y.shape, np.shape(Uy))
    Uy = np.atleast_2d(Uy)
    f = 1.0 / R + 1.0 / len(B)
    big = np.max(np.abs(B)) + 1e-300
    m = B.mean(axis=0)
    if np.any(np.abs(y - m) > nsig * np.sqrt(B.var(axis=0) * f) + 1e-9 * big):
        return "mean"
    D = B - m
    for lag in range(n):
        p = D[:, lag:] * D[:, :n - lag]
        se = np.sqrt(p.var(axis=0) * f)
        # 10: products of heavy tails need more room than seven standard errors
        if np.any(np.abs(np.diag(Uy, lag) - p.mean(axis=0)) > (nsig + 3) * se + 1e-9 * big ** 2):
            return "covariance"
        if not np.allclose(np.diag(Uy, lag), np.diag(Uy, -lag), rtol=1e-9, atol=1e-12 * big ** 2):
            return "covariance"
    return None


def run_umc(ch, ctx):
    # mean and covariance are compared within
    _, _, ys, _ = umc_case(ch, ctx, check=True)
    ctx.nontrivial = ys is not None


def run(ch, ctx):
    if ch.bool(0.35):
        run_umc(ch, ctx)
    else:
        run_mc(ch, ctx)
    ctx.event("ok", ctx.desc)
