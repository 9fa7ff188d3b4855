"""Monte Carlo based identification/conversion: batch statistics over their draws"""
import numpy as np

from .. import filters as F
from ..core import Violation
from ..seams import RealRandomState

BATCH = 8
W_FAST = [("realimag", 4), ("sos_ri", 4), ("sos_ap", 4), ("som_mc", 4), ("som_lin", 2),
          ("fir_unc", 3), ("fir_mc", 1), ("iir", 1)]


def stats_of(Y):
    return Y.mean(axis=0), np.cov(Y, rowvar=False)


def judge(ctx, name, call, ref, seed, rtol=1e-9, big_runs=None, rel_atol=1e-12):
    """call(runs=None) -> (mean, cov); ref(runs=None) -> rows of samples"""
    np.random.seed(seed)
    Y = np.asarray(ref(None), float)
    m, C = stats_of(Y)
    np.random.seed(seed)
    got_m, got_C = call(None)
    sc = np.max(np.abs(Y)) + 1e-300

    def ok(gm, gC, wm, wC):
        return F.close(gm, wm, rtol=rtol, atol=1e-12 * sc) and F.close(gC, wC, rtol=100 * rtol, atol=rel_atol * sc ** 2)
    if np.shape(got_m) != m.shape or np.shape(got_C) != C.shape:
        raise Violation(name + "-shape", "%s: mean %s cov %s, expected %s and %s" % (
            name, np.shape(got_m), np.shape(got_C), m.shape, C.shape))
    if ok(got_m, got_C, m, C):
        ctx.probe(name + " exact stream")
        return
    ctx.probe(name + " distribution")
    np.random.seed(seed + 1)
    got_m, got_C = call(big_runs)
    np.random.seed(seed + 2)
    B = np.asarray(ref(big_runs), float)
    n = len(B)
    D = B - B.mean(axis=0)
    se = np.sqrt(2 * D.var(axis=0) / n)
    if np.any(np.abs(got_m - B.mean(axis=0)) > 7 * se + 1e-9 * np.max(np.abs(B))):
        raise Violation(name + "-mean", "%s: mean is not that of the draws: %s" % (name, F.dev(got_m, B.mean(axis=0))))
    for i in range(D.shape[1]):
        P = D * D[:, i:i + 1]
        se = np.sqrt(2 * P.var(axis=0) / n)
        if np.any(np.abs(got_C[i] - P.mean(axis=0)) > 8 * se + 1e-9 * np.max(np.abs(P))):
            raise Violation(name + "-covariance", "%s: covariance is not that of the draws: %s" % (
                name, F.dev(got_C, np.cov(B, rowvar=False))))


def unc_matrix(ch, r, n, sd):
    C, k = F.gen_cov(ch, r, n, sd, ch.pick(["full", "diag", "singular"]))
    return C, k


def gen_H(ch, r, n):
    f = np.sort(r.uniform(0.02, 0.48, n))
    f += 0.001 * np.arange(n)
    H = (1.5 + r.uniform(-0.4, 0.4, n)) * np.exp(1j * np.cumsum(r.uniform(-0.5, 0.2, n)))
    return f, H


def realimag(ch, ctx, r):
    from PyDynamic.misc.tools import FreqResp2RealImag
    n = ch.size(1, 6, 40)
    A, P = r.uniform(0.5, 2, n), r.uniform(-3, 3, n)
    U, k = unc_matrix(ch, r, 2 * n, ch.pick([0.01, 0.3]))
    if ch.bool(0.2):
        U = np.diag(U).copy()
        k = "vector"
    runs = ch.size(2, 60, 1500)
    ctx.desc = "FreqResp2RealImag n=%d Unc=%s runs=%d" % (n, k, runs)

    def call(R):
        Re, Im, URI = FreqResp2RealImag(A, P, U, MCruns=R or runs)
        return np.hstack((Re, Im)), URI

    def ref(R):
        X = np.random.multivariate_normal(np.hstack((A, P)), U if U.ndim == 2 else np.diag(U), R or runs)
        return np.hstack((X[:, :n] * np.cos(X[:, n:]), X[:, :n] * np.sin(X[:, n:])))
    judge(ctx, "FreqResp2RealImag", call, ref, ch.subseed(), big_runs=20000)


def sos(ch, ctx, r, absphase):
    from PyDynamic.misc.SecondOrderSystem import sos_absphase, sos_realimag
    S, d, f0 = r.uniform(0.5, 2), r.uniform(0.05, 0.7), r.uniform(1, 5)
    rel = ch.pick([0.01, 0.05])
    uS, ud, uf0 = rel * S * r.uniform(0.2, 1), rel * d * r.uniform(0.2, 1), rel * f0 * r.uniform(0.2, 1)
    f = np.sort(r.uniform(0.1, 8, ch.size(1, 6, 40)))
    if ch.bool(0.2):
        f = f[::-1].copy()
    runs = ch.size(2, 60, 1500)
    fun = sos_absphase if absphase else sos_realimag
    ctx.desc = "%s n=%d runs=%d" % (fun.__name__, len(f), runs)

    def draws(R):
        n = R or runs
        s_, d_, f_ = S + np.random.randn(n) * uS, d + np.random.randn(n) * ud, f0 + np.random.randn(n) * uf0
        om0, w = 2 * np.pi * f_[:, None], 2 * np.pi * f[None, :]
        return s_[:, None] * om0 ** 2 / (om0 ** 2 + 2j * d_[:, None] * om0 * w - w ** 2)
    means = []

    def call(R):
        Hm, HC = fun(S, d, f0, uS, ud, uf0, f, runs=R or runs)
        means.append(np.asarray(Hm))
        if not absphase:
            return np.hstack((np.real(Hm), np.imag(Hm))), HC
        return zero(len(HC)), HC

    def zero(n):
        return np.zeros(n)

    def ref(R):
        H = draws(R)
        if not absphase:
            return np.hstack((H.real, H.imag))
        hm.append(H.mean(axis=0))
        c = H.mean(axis=0)
        Y = np.hstack((np.abs(H), np.angle(H * np.conj(c))))
        return Y - Y.mean(axis=0)
    hm = []
    seed = ch.subseed()
    judge(ctx, fun.__name__, call, ref, seed, big_runs=20000, rel_atol=1e-11 if not absphase else 1e-10)
    if absphase:
        if len(hm) == 1:
            if means[0].shape != hm[0].shape or not (F.close(means[0].real, hm[0].real, atol=1e-9) and F.close(
                    means[0].imag, hm[0].imag, atol=1e-9)):
                raise Violation("sos_absphase-mean", "mean response is not that of the draws")
        elif np.max(np.abs(means[1] - hm[1])) > 20 * rel * np.max(np.abs(hm[1])) / 10:
            raise Violation("sos_absphase-mean", "mean response is not that of the draws")


def som_params(mu):
    mu = np.atleast_2d(mu)
    return np.c_[1 / mu[:, 0], mu[:, 1] / np.sqrt(np.abs(mu[:, 0] * mu[:, 2])),
                 np.sqrt(np.abs(mu[:, 0] / mu[:, 2])) / 2 / np.pi]


def som(ch, ctx, r, mc):
    from PyDynamic.model_estimation.fit_transfer import fit_som
    n = ch.size(3, 7, 30)
    S, d, f0 = r.uniform(0.5, 2), r.uniform(0.1, 0.7), r.uniform(0.8, 1.5)
    f = np.linspace(0.1, 2, n)
    w = 2 * np.pi * f
    om0 = 2 * np.pi * f0
    Hc = S * om0 ** 2 / (om0 ** 2 + 2j * d * om0 * w - w ** 2)
    H = np.r_[Hc.real, Hc.imag]
    vec = ch.bool(0.4)
    sd = ch.pick([1e-3, 1e-2]) * np.min(np.abs(Hc))
    if vec:
        UH = sd * r.uniform(0.3, 1, 2 * n)
    else:
        UH, _ = F.gen_cov(ch, r, 2 * n, sd, "full")
    weighting = ch.pick([None, "diag", "cov", "array"])
    warr = r.uniform(0.5, 2, 2 * n)
    runs = ch.int(8 * n, 80 + 8 * n) if mc else None
    scaling = ch.pick([1e-3, 1.0, 0.1])
    ctx.desc = "fit_som n=%d UH=%s weighting=%s MCruns=%s scaling=%g" % (n, "vector" if vec else "matrix", weighting, runs, scaling)
    E = np.c_[np.ones(n), 2j * w, -(w ** 2)]
    X = np.r_[E.real, E.imag]

    def inverse(R):
        R = R or runs or 10000
        if vec:
            hr = H[:n] + np.random.randn(R, n) * UH[:n]
            hi = H[n:] + np.random.randn(R, n) * UH[n:]
            h = hr + 1j * hi
        else:
            q = np.random.multivariate_normal(H, UH, R)
            h = q[:, :n] + 1j * q[:, n:]
        return np.c_[(1 / h).real, (1 / h).imag]

    def weights(iURI):
        return {None: np.eye(2 * n), "diag": np.diag(np.diag(iURI)), "cov": iURI, "array": np.diag(warr)}[weighting]

    def estimator(iURI):
        L = np.linalg.cholesky(weights(iURI))
        Xw = np.linalg.solve(L, X)
        return np.linalg.pinv(Xw).dot(np.linalg.inv(L))

    def call(R):
        return fit_som(f, H, UH=UH, weighting=warr if weighting == "array" else weighting,
                       MCruns=(R or runs) if mc else None, scaling=scaling)
    seed = ch.subseed()
    if mc:
        def ref(R):
            iRI = inverse(R)
            return som_params(iRI.dot(estimator(np.cov(iRI, rowvar=False)).T))
        judge(ctx, "fit_som", call, ref, seed, rtol=1e-5, big_runs=3000, rel_atol=1e-11)
        return
    # linear propagation: nominal value and Jacobian times the covariance of the draws
    def lin(s):
        np.random.seed(s)
        iURI = np.cov(inverse(None), rowvar=False)
        G = estimator(iURI)
        y = np.r_[(1 / Hc).real, (1 / Hc).imag]
        mu = G.dot(y)
        J = np.zeros((3, 3))
        for i in range(3):
            h = 1e-5 * abs(mu[i])
            e = np.zeros(3)
            e[i] = h
            J[:, i] = (som_params(mu + e) - som_params(mu - e))[0] / (2 * h)
        return som_params(mu)[0], J.dot(G.dot(iURI).dot(G.T)).dot(J.T)
    np.random.seed(seed)
    p, U = call(None)
    wp, wU = lin(seed)
    def okp(p, U, wp, wU, tol):
        s = np.sqrt(np.diag(wU))
        return F.close(p, wp, rtol=1e-6) and np.shape(U) == (3, 3) and np.all(
            np.abs(U - wU) <= tol * np.outer(s, s))
    if okp(p, U, wp, wU, 1e-4):
        ctx.probe("fit_som linear exact stream")
        return
    wp, wU = lin(seed + 5)
    if not okp(p, U, wp, wU, 0.15):
        raise Violation("fit_som-linear", "linear propagation: parameters %s, covariance deviates from J U J^T: %s" % (
            F.dev(p, wp), F.dev(U, wU)))


def fir(ch, ctx, r, mc):
    from PyDynamic.model_estimation.fit_filter import invLSFIR_unc, invLSFIR_uncMC
    n = ch.size(4, 8, 30)
    f, H = gen_H(ch, r, n)
    Fs = ch.pick([1.0, 1000.0])
    f = f * Fs
    N = ch.int(1, 4)
    tau = ch.pick([0, 1, 3])
    UH, k = unc_matrix(ch, r, 2 * n, ch.pick([1e-3, 0.02]))
    E = np.exp(-2j * np.pi * np.outer(f / Fs, np.arange(N + 1)))
    X = np.vstack((E.real, E.imag))
    verbose = ch.bool(0.3)
    Hri = np.hstack((H.real, H.imag))
    seed = ch.subseed()

    def inverse(R):
        q = np.random.multivariate_normal(Hri, UH, R or 10000)
        h = (q[:, :n] + 1j * q[:, n:]) * np.exp(2j * np.pi * f / Fs * tau)
        return np.hstack(((1 / h).real, (1 / h).imag))
    if mc:
        ctx.desc = "invLSFIR_uncMC n=%d N=%d tau=%d UH=%s" % (n, N, tau, k)
        judge(ctx, "invLSFIR_uncMC", lambda R: invLSFIR_uncMC(H, UH, N, tau, f, Fs, verbose=verbose),
              lambda R: inverse(R).dot(np.linalg.pinv(X).T), seed, rtol=1e-7)
        return
    wt = r.uniform(0.5, 2, 2 * n) if ch.bool(0.4) else None
    asvec = ch.bool(0.3)
    tol = ch.pick([None, 1e-9, "cut"])
    Xw = X if wt is None else wt[:, None] * X
    u, s, v = np.linalg.svd(Xw, full_matrices=False)
    si = 1 / s
    if tol == "cut":
        tol = float(np.sqrt(s[-1] * s[-2]))
        si[-1] = 0.0
    M = (v.T * si).dot(u.T)
    if wt is not None:
        M = M * wt
    h0 = H * np.exp(2j * np.pi * f / Fs * tau)
    b0 = M.dot(np.hstack(((1 / h0).real, (1 / h0).imag)))
    ctx.desc = "invLSFIR_unc n=%d N=%d tau=%d UH=%s wt=%s tol=%s H=%s" % (
        n, N, tau, k, wt is not None, tol, "2n real" if asvec else "complex")

    def call(R):
        b, Ub = invLSFIR_unc(Hri if asvec else H, UH, N, tau, f, Fs, wt=wt, verbose=verbose, trunc_svd_tol=tol)
        if not F.close(b, b0, rtol=1e-7):
            raise Violation("invLSFIR_unc-fit", "coefficients: %s" % F.dev(b, b0))
        return np.zeros(N + 1), Ub

    def ref(R):
        Y = inverse(R).dot(M.T)
        return Y - Y.mean(axis=0)
    judge(ctx, "invLSFIR_unc", call, ref, seed, rtol=1e-7)


def iir(ch, ctx, r):
    from PyDynamic.model_estimation.fit_filter import invLSIIR, invLSIIR_unc
    n = ch.int(8, 12)
    f, H = gen_H(ch, r, n)
    UH, k = unc_matrix(ch, r, 2 * n, 1e-3)
    Nb, Na = ch.int(1, 2), ch.int(1, 2)
    tau = ch.int(0, 1)
    ctx.desc = "invLSIIR_unc n=%d Nb=%d Na=%d tau=%d UH=%s" % (n, Nb, Na, tau, k)
    taus = []

    def call(R):
        b, a, t, U = invLSIIR_unc(H, UH, Nb, Na, f, 1.0, tau)
        if np.shape(a) != (Na + 1,) or a[0] != 1.0:
            raise Violation("invLSIIR_unc-a", "denominator %s" % (a,))
        taus.append(float(t))
        return np.hstack((a[1:], b)), U

    def ref(R):
        q = np.random.multivariate_normal(np.hstack((H.real, H.imag)), UH, 1000)
        out = []
        tt = []
        for row in q:
            b, a, t = invLSIIR(row[:n] + 1j * row[n:], Nb, Na, f, 1.0, tau, verbose=False)
            out.append(np.hstack((a[1:], b)))
            tt.append(t)
        taus.append(np.mean(tt))
        return np.array(out)
    judge(ctx, "invLSIIR_unc", call, ref, ch.subseed(), rtol=1e-7)
    if len(taus) == 2 and abs(taus[0] - taus[1]) > 1e-9:
        raise Violation("invLSIIR_unc-tau", "mean delay %r, expected %r" % (taus[1], taus[0]))


def run(ch, ctx):
    r = RealRandomState(ch.subseed())
    kind = ch.wpick(W_FAST)
    ctx.nontrivial = True
    if kind == "realimag":
        realimag(ch, ctx, r)
    elif kind in ("sos_ri", "sos_ap"):
        sos(ch, ctx, r, kind == "sos_ap")
    elif kind in ("som_mc", "som_lin"):
        som(ch, ctx, r, kind == "som_mc")
    elif kind in ("fir_unc", "fir_mc"):
        fir(ch, ctx, r, kind == "fir_mc")
    else:
        iir(ch, ctx, r)
    ctx.cover(ctx.desc)
    ctx.event("ok", ctx.desc)
