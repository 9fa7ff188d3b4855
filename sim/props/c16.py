"""closed-form propagation against the Monte Carlo method with moment-exact draws"""
import numpy as np

from .. import filters as F
from .. import moments
from ..core import Violation
from ..seams import HUB, RealRandomState

BATCH = 15


def monte_carlo(ctx, x, Ux, b, a, Uab, blow=None, alow=None):
    """mean and covariance of MC for draws with exact moments, or None if the random
    numbers were asked for in another way than foreseen"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import MC
    d = moments.Design(len(a) + len(b) - 1, len(x))
    d.install()
    try:
        y, Uy = MC(x, Ux, b, a, Uab, runs=d.runs, blow=blow, alow=alow, verbose=False)
    finally:
        d.remove()
    if not d.complete():
        ctx.probe("unmatched stream")
        return None
    ctx.probe("moment-exact runs", d.runs)
    return np.asarray(y), np.asarray(Uy) * (d.runs - 1.0) / d.runs


def random_mc(x, Ux, b, a, Uab, blow=None, alow=None):
    """fallback: real random draws"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import MC
    S = MC(x, Ux, b, a, Uab, runs=3000, blow=blow, alow=alow, verbose=False, return_samples=True)
    return np.asarray(S)


def match(what, got, want, ctx, rtol=1e-8):
    for name, g, w in zip(("output", "uncertainty"), got, want):
        if not F.close(g, w, rtol=rtol, atol=1e-13):
            raise Violation(what, "%s: %s differs: %s; %s" % (what, name, F.dev(g, w), ctx.desc))


def statistically(what, S, y, U, sl, ctx):
    S = S[:, sl]
    m, se = S.mean(axis=0), S.std(axis=0) / np.sqrt(len(S))
    if np.any(np.abs(m - y) > 7 * se + 1e-9 * np.max(np.abs(y))):
        raise Violation(what, "%s: output differs from the mean of random draws" % what)
    D = S - m
    for i in range(S.shape[1]):
        P = D * D[:, [i]]
        if np.any(np.abs(P.mean(axis=0) - U[i]) > 8 * P.std(axis=0) / np.sqrt(len(S)) + 1e-9 * np.max(np.abs(U))):
            raise Violation(what, "%s: covariance differs from that of random draws" % what)


def gen_u(ch, r, n):
    """an uncertainty of the signal: all documented forms, the matrix, a label"""
    kind = ch.pick(["white", "pointwise", "stationary", "matrix"])
    s = ch.pick([0.1, 1.0, 5.0])
    if kind == "white":
        forms = [(s, "corr"), (s, "diag"), (np.full(n, s), "diag"), (np.array([s ** 2]), "corr"), (s ** 2 * np.eye(n), "corr")]
        return kind, forms, s ** 2 * np.eye(n)
    if kind == "pointwise":
        u = s * r.uniform(0, 1, n)
        if ch.bool(0.3):
            u[ch.int(0, n - 1)] = 0.0
        return kind, [(u, "diag"), (np.diag(u ** 2), "corr"), (np.diag(u ** 2), "diag")], np.diag(u ** 2)
    if kind == "stationary":
        h = r.normal(size=ch.int(1, 4))
        acf = np.correlate(h, h, "full")[len(h) - 1:] * s ** 2
        full = np.zeros(n)
        full[:min(n, len(acf))] = acf[:n]
        T = full[np.abs(np.subtract.outer(np.arange(n), np.arange(n)))]
        forms = [(acf, "corr"), (full, "corr"), (np.r_[full, 0.0, 0.0], "corr"), (T, "corr")]
        return kind, forms, T
    U, k = F.gen_cov(ch, r, n, s)
    return kind + "/" + k, [(U, "corr"), (U, "diag"), (np.asfortranarray(U), "corr")], U


def gen_t(ch, r, p):
    kind = ch.pick(["none", "diag", "matrix"])
    if kind == "none":
        return kind, [None, np.zeros((p, p)), np.zeros(p)], np.zeros((p, p))
    s = ch.pick([0.05, 1.0])
    if kind == "diag":
        u = s * r.uniform(0, 1, p)
        return kind, [u, np.diag(u ** 2)], np.diag(u ** 2)
    U, k = F.gen_cov(ch, r, p, s)
    return kind + "/" + k, [U], U


def numbers(ch, r, n):
    return np.round(4 * r.normal(size=n)) if ch.bool(0.3) else r.normal(size=n) * ch.pick([1.0, 10.0])


def fir(ch, ctx):
    from PyDynamic.uncertainty.propagate_filter import FIRuncFilter
    r = RealRandomState(ch.subseed())
    p = ch.int(1, 4)
    n = p + ch.size(1, 8, 90)
    theta = numbers(ch, r, p)
    x = numbers(ch, r, n)
    ku, uforms, U = gen_u(ch, r, n)
    kt, tforms, Ut = gen_t(ch, r, p)
    blow = r.uniform(-1, 1, ch.int(1, 3)) if ch.bool(0.35) else None
    shift = ch.wpick([(0, 3), (1, 1), (-2, 1), (n + 1, 1)])
    ctx.desc = "FIRuncFilter n=%d theta=%d U=%s Utheta=%s lowpass=%s shift=%d" % (
        n, p, ku, kt, None if blow is None else len(blow), shift)
    ctx.cover(ctx.desc)
    y, Uy = FIRuncFilter(x, U, theta, Utheta=Ut, blow=blow, return_full_covariance=True)
    if np.shape(y) != (n,) or np.shape(Uy) != (n, n):
        raise Violation("shape", "%s and %s for %d values; %s" % (np.shape(y), np.shape(Uy), n, ctx.desc))
    # the forms of the same problem
    for _ in range(ch.int(1, 4)):
        uf, kind = ch.pick(uforms)
        tf = ch.pick(tforms)
        full = ch.bool()
        s = shift if ch.bool() else 0
        low = blow
        if blow is None and ch.bool(0.2):
            low = np.array([1.0])
        xx, tt = x, theta
        if ch.bool(0.3) and np.array_equal(x, np.round(x)):
            xx = x.astype(int)
        if ch.bool(0.3) and np.array_equal(theta, np.round(theta)):
            tt = theta.astype(int)
        g = FIRuncFilter(xx, uf, tt, Utheta=tf, shift=s, blow=low, kind=kind, return_full_covariance=full)
        want = (np.roll(y, -s), np.roll(np.roll(Uy, -s, axis=0), -s, axis=1))
        if not full:
            want = (want[0], np.sqrt(np.abs(np.diag(want[1]))))
            if ku.startswith("matrix"):      # rounding below the square root
                want = (want[0], want[1])
        what = "U as %s/%s, Utheta as %s, full=%s, shift=%d, dtype=%s/%s" % (
            type(uf).__name__ + str(np.shape(uf)), kind, None if tf is None else np.shape(tf), full, s, xx.dtype, tt.dtype)
        ctx.event(what)
        if not full:
            g = (g[0], np.asarray(g[1]) ** 2)
            want = (want[0], want[1] ** 2)
        try:
            match("fir-forms", g, want, ctx)
        except Violation as v:
            raise Violation("fir-forms", v.msg + "; " + what)
    # Monte Carlo on the signal that is continued into the past as documented
    m = p - 1
    ext = np.r_[np.full(m, x[0]), x]
    Ue = np.zeros((n + m, n + m))
    col = np.r_[U[:, 0], np.zeros(m)]
    Ue[:] = col[np.abs(np.subtract.outer(np.arange(n + m), np.arange(n + m)))]
    Ue[m:, m:] = U
    w = np.linalg.eigvalsh(Ue)
    past = blow is None and w[0] > -1e-12 * max(w[-1], 1e-300)
    ctx.probe("including the continued past", int(past))
    if not past:
        ext, Ue = x, U
        m += 0 if blow is None else len(blow) - 1
    if m >= len(ext):
        return
    args = (ext, Ue, theta, np.array([1.0]), Ut, blow)
    k0 = m if not past else p - 1
    sl = slice(k0, None)
    yy, UU = (y, Uy) if past else (y[m:], Uy[m:, m:])
    res = monte_carlo(ctx, *args)
    if res is None:
        np.random.seed(ch.subseed())
        return statistically("fir-mc", random_mc(*args), yy, UU, sl, ctx)
    match("fir-mc", (yy, UU), (res[0][sl], res[1][sl, sl]), ctx)


MODES = {"nearest": "edge", "reflect": "symmetric", "mirror": "reflect"}


def conv(ch, ctx):
    from PyDynamic.uncertainty.propagate_convolution import convolve_unc
    r = RealRandomState(ch.subseed())
    n1, n2 = ch.size(2, 7, 60), ch.size(1, 6, 40)
    x1, x2 = numbers(ch, r, n1), numbers(ch, r, n2)
    U1, k1 = F.gen_cov(ch, r, n1, ch.pick([0.1, 1.0]))
    U2, k2 = F.gen_cov(ch, r, n2, ch.pick([0.1, 1.0]))
    n1_none, n2_none = ch.bool(0.2), ch.bool(0.2)
    if n1_none:
        U1 = np.zeros((n1, n1))
    if n2_none:
        U2 = np.zeros((n2, n2))
    mode = ch.pick(["full", "valid", "same", "nearest", "reflect", "mirror"])
    ctx.desc = "convolve_unc mode=%s lengths %d and %d, U1=%s U2=%s" % (
        mode, n1, n2, None if n1_none else k1, None if n2_none else k2)
    ctx.cover(ctx.desc)
    y, Uy = convolve_unc(x1, None if n1_none and ch.bool() else U1, x2, None if n2_none and ch.bool() else U2, mode=mode)
    if mode in MODES:
        # the continued signal as a linear map of x1
        pad = n2
        idx = np.pad(np.arange(n1), (pad, pad), mode=MODES[mode])
        E = np.zeros((len(idx), n1))
        E[np.arange(len(idx)), idx] = 1.0
        from scipy.ndimage import convolve1d
        s1, V1, s2, V2 = E.dot(x1), E.dot(U1).dot(E.T), x2, U2
        first = pad + n2 // 2
        sl = slice(first, first + n1)
        if not F.close(y, convolve1d(x1, x2, mode=mode), rtol=1e-9, atol=1e-12):
            raise Violation("convolution", "other values than scipy.ndimage.convolve1d; %s" % ctx.desc)
    else:
        s1, V1, s2, V2 = x1, U1, x2, U2
        if n1 < n2:
            s1, V1, s2, V2 = x2, U2, x1, U1
        m = len(s2) - 1
        s1 = np.r_[s1, np.zeros(m + 1)]
        W = np.zeros((len(s1), len(s1)))
        W[:len(V1), :len(V1)] = V1
        V1 = W
        N, M = max(n1, n2), min(n1, n2)
        sl = {"full": slice(0, N + M - 1), "valid": slice(M - 1, N), "same": slice((M - 1) // 2, (M - 1) // 2 + N)}[mode]
        if not F.close(y, np.convolve(x1, x2, mode=mode), rtol=1e-9, atol=1e-12):
            raise Violation("convolution", "other values than numpy.convolve; %s" % ctx.desc)
    args = (s1, V1, s2, np.array([1.0]), V2)
    res = monte_carlo(ctx, *args)
    if res is None:
        np.random.seed(ch.subseed())
        return statistically("convolution-mc", random_mc(*args), y, Uy, sl, ctx)
    match("convolution-mc", (y, Uy), (res[0][sl], res[1][sl, sl]), ctx)
    if mode in ("full", "valid", "same") and n1 != n2:
        z, Uz = convolve_unc(x2, U2, x1, U1, mode=mode)
        match("convolution-commutes", (z, Uz), (y, Uy), ctx)


def iir(ch, ctx):
    from PyDynamic.uncertainty.propagate_filter import IIRuncFilter
    b, a, r = F.gen_filter(ch)
    p = len(a) + len(b) - 1
    n = max(p + 1, ch.size(2, 14, 120))
    x = numbers(ch, r, n)
    Uab, ku = F.gen_cov(ch, r, p, 1.0)
    form = ch.pick(["float", "array"])
    noise = ch.pick([0.0, 1.0, 0.3]) if form == "float" else r.uniform(0, 1, n)
    ctx.desc = "IIRuncFilter n=%d b=%d a=%d Uab=%s noise=%s" % (n, len(b), len(a), ku, form)
    ctx.cover(ctx.desc)
    y, u = IIRuncFilter(x, noise, b, a, Uab)
    if np.shape(y) != (n,) or np.shape(u) != (n,):
        raise Violation("shape", "%s and %s for %d values; %s" % (np.shape(y), np.shape(u), n, ctx.desc))
    if form == "float":
        match("iir-forms", IIRuncFilter(x, np.full(n, noise), b, a, Uab), (y, u), ctx)
    if np.array_equal(x, np.round(x)):
        match("iir-forms", IIRuncFilter(x.astype(int), noise, b, a, Uab), (y, u), ctx)
    h = 1e-5
    args = (x, h * noise, b, a, h ** 2 * Uab)
    res = monte_carlo(ctx, *args)
    if res is None:
        # linear in the scale: compare at two scales by random draws
        np.random.seed(ch.subseed())
        S = random_mc(*args)
        v = S.var(axis=0) / h ** 2
        if np.any(np.abs(v - u ** 2) > 0.3 * np.max(u ** 2) + 1e-6):
            raise Violation("iir-mc", "variance %s of random draws, %s stated; %s" % (v, u ** 2, ctx.desc))
        return
    v = np.diag(res[1]) / h ** 2
    if not F.close(y, res[0], rtol=1e-5, atol=1e-12):
        raise Violation("iir-mc", "output: %s; %s" % (F.dev(y, res[0]), ctx.desc))
    if not F.close(u ** 2, v, rtol=1e-5, atol=1e-8 * np.max(np.abs(y)) ** 2):
        raise Violation("iir-mc", "squared uncertainty: %s; %s" % (F.dev(u ** 2, v), ctx.desc))


def run(ch, ctx):
    kind = ch.wpick([("fir", 4), ("conv", 3), ("iir", 2)])
    ctx.fault("moment-exact draws")
    {"fir": fir, "conv": conv, "iir": iir}[kind](ch, ctx)
    ctx.nontrivial = True
    ctx.event("ok", ctx.desc)
