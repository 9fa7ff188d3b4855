"""digital filters, signals and reference statistics for the Monte Carlo checks"""
import numpy as np
from scipy.signal import lfilter

from .core import Violation
from .seams import HUB, RealRandomState


def gen_filter(ch, fir_ok=True, max_order=3, spread=1.0):
    """random numerator, stable denominator with a[0] = 1"""
    r = RealRandomState(ch.subseed())
    nb = ch.int(1, max_order + 1)
    na = ch.int(0 if fir_ok else 1, max_order)
    b = r.uniform(-1, 1, nb)
    b[0] += 0.7
    if na == 0:
        return b, np.array([1.0]), r
    roots = []
    while len(roots) < na:
        if na - len(roots) >= 2 and r.rand() < 0.5:
            p = r.uniform(0, 0.85) * np.exp(1j * r.uniform(0, np.pi))
            roots += [p, np.conj(p)]
        else:
            roots.append(r.uniform(-0.85, 0.85))
    a = np.real(np.poly(roots))
    return b, a, r


def gen_cov(ch, r, n, scale, kind=None):
    """covariance matrix of size n"""
    kind = kind or ch.wpick([("full", 4), ("diag", 2), ("singular", 1), ("zero", 1)])
    if n == 0:
        return np.zeros((0, 0)), kind
    if kind == "zero":
        return np.zeros((n, n)), kind
    if kind == "diag":
        return np.diag(r.uniform(0.1, 1, n) ** 2) * scale ** 2, kind
    k = max(1, n - 1) if kind == "singular" else n + 2
    M = r.normal(size=(n, k))
    C = M.dot(M.T) / k
    return 0.5 * (C + C.T) * scale ** 2, kind


def gen_signal(ch, r, lo=2, hi=14):
    n = ch.size(lo, hi, 10 * hi)
    style = ch.pick(["noise", "step", "sine", "zero"])
    x = {"noise": r.normal(size=n), "step": 1.0 * (np.arange(n) >= n // 3),
         "sine": np.sin(0.7 * np.arange(n)), "zero": np.zeros(n)}[style]
    x = x * ch.pick([1.0, 10.0, 0.01])
    if ch.bool(0.1):         # a signal given as whole numbers, in an integer type
        return np.round(3 * x).astype(ch.pick([int, np.int32]))
    return x


def close(v, w, rtol=1e-9, atol=0.0):
    v, w = np.asarray(v, float), np.asarray(w, float)
    if v.shape != w.shape:
        return False
    if v.size == 0:
        return True
    fin = np.isfinite(v) & np.isfinite(w)
    if not np.array_equal(np.isnan(v), np.isnan(w)) or not np.array_equal(np.isinf(v), np.isinf(w)):
        return False
    scale = np.max(np.abs(w[fin])) if np.any(fin) else 0.0
    return bool(np.all(np.abs(v - w)[fin] <= rtol * scale + atol))


def dev(v, w):
    v, w = np.asarray(v, float), np.asarray(w, float)
    if v.shape != w.shape:
        return "shape %s instead of %s" % (v.shape, w.shape)
    with np.errstate(all="ignore"):
        return "deviation up to %.3g of values up to %.3g" % (
            np.nanmax(np.abs(v - w)) if v.size else 0, np.nanmax(np.abs(w)) if v.size else 0)


def differ(A, B, nsig=7.0):
    """compare two independent sets of runs (rows); None or what differs"""
    A, B = np.asarray(A, float), np.asarray(B, float)
    if A.ndim != 2 or A.shape[1:] != B.shape[1:]:
        return "shape of the runs %s, expected %s" % (A.shape, B.shape)
    ma, mb = A.mean(axis=0), B.mean(axis=0)
    va, vb = A.var(axis=0), B.var(axis=0)
    big = np.max(np.abs(B)) + 1e-300
    se = np.sqrt(va / len(A) + vb / len(B))
    if np.any(np.abs(ma - mb) > nsig * se + 1e-9 * big):
        return "mean"
    CA, CB = (A - ma), (B - mb)
    for lag in range(0, min(4, A.shape[1])):
        pa = CA[:, lag:] * CA[:, :CA.shape[1] - lag]
        pb = CB[:, lag:] * CB[:, :CB.shape[1] - lag]
        se = np.sqrt(pa.var(axis=0) / len(A) + pb.var(axis=0) / len(B))
        if np.any(np.abs(pa.mean(axis=0) - pb.mean(axis=0)) > nsig * se + 1e-9 * big ** 2):
            return "covariance at lag %d" % lag
    return None


def stream(seed):
    """put the global generator into the state after np.random.seed(seed)"""
    np.random.seed(seed)


def extreme_draws(ch, ctx, p=0.1):
    """fault: improbable random numbers; a fraction of the normal values is blown up"""
    if not ch.bool(p):
        return False
    factor = ch.pick([4.0, 8.0])
    period = ch.int(2, 7)
    count = {"n": 0}

    def wrap(name):
        def f(*args, **kwargs):
            v = getattr(HUB.cur(), name)(*args, **kwargs)
            count["n"] += 1
            if count["n"] % period == 0:
                v = v * factor
            return v
        return f
    for name in ("randn", "standard_normal"):
        HUB.override[name] = wrap(name)
    ctx.fault("extreme-draws")

    def restart():
        count["n"] = 0
    return restart
