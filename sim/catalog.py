"""The public interface of the library as a catalogue of generated calls.

Every entry builds the arguments of one call from three random streams: S decides
sizes, O decides options and forms, V decides values.  Equal S and different O or V
give "sibling" calls, whose arguments can be mixed one by one."""
import importlib

import numpy as np
from scipy import sparse

from . import simpool
from .seams import RealRandomState

OPS = {}


class Op:
    def __init__(self, name, build, rng, cost, pool):
        self.name, self.build, self.rng, self.cost, self.pool = name, build, rng, cost, pool


def op(name, rng=False, cost=1, pool=False):
    def deco(f):
        OPS[name] = Op(name, f, rng, cost, pool)
        return f
    return deco


def get(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("PyDynamic." + mod), name)


UNC = "uncertainty."
DFT = UNC + "propagate_DFT."
MCM = UNC + "propagate_MonteCarlo."
FLT = UNC + "propagate_filter."
FIT = "model_estimation.fit_filter."
SIG = "misc.testsignals."
TLS = "misc.tools."
FST = "misc.filterstuff."

# ----------------------------------------------------------------- ingredients


def vec(V, n, scale=1.0, off=0.0):
    return V.normal(size=n) * scale + off


def pos(V, n, lo=0.1, hi=1.0):
    return V.uniform(lo, hi, n)


def cov(V, n, scale=1.0):
    M = V.normal(size=(n, n + 2))
    C = M.dot(M.T) / (n + 2) * scale ** 2
    return 0.5 * (C + C.T)


def ucov(O, V, n, scale=1.0):
    """covariance matrix or vector of variances"""
    return cov(V, n, scale) if O.rand() < 0.6 else pos(V, n) * scale ** 2


def pick(O, seq):
    return seq[O.randint(len(seq))]


def form(O, x):
    """the same numbers in another memory layout or number type"""
    k = O.randint(8)
    if k == 1:
        big = np.full((2 * x.shape[0],) + x.shape[1:], 7.5, dtype=np.result_type(x, float))
        big[::2] = x
        return big[::2]
    if k == 2 and x.ndim == 2:
        return np.asfortranarray(x)
    if k == 3 and x.ndim == 1:
        return x[::-1].copy()[::-1]
    return x


def stable(V, n):
    """denominator of order n with a[0] = 1"""
    if n == 0:
        return np.array([1.0])
    roots = V.uniform(-0.8, 0.8, n)
    return np.real(np.poly(roots))


def big(S, lo, hi, top=3000):
    """usually a small size, now and then a large one"""
    if S.rand() < 0.06:
        return int(S.randint(1001, top))
    return int(S.randint(lo, hi))


def whole(O, x, p=0.15):
    """now and then whole numbers of integer type"""
    if O.rand() < p:
        return np.round(np.asarray(x) * 3).astype(int)
    return x


def aslist(O, x, p=0.15):
    return np.asarray(x).tolist() if O.rand() < p else x


def coeffs(O, V, n, scale=0.2):
    """coefficients as array or list, which may contain zeros, also at the ends"""
    c = vec(V, n, scale)
    if O.rand() < 0.4:
        c[O.randint(n)] = 0.0
    if O.rand() < 0.3:
        c[-1] = 0.0
    if O.rand() < 0.1:
        c = c * 0.0
    k = O.randint(3)
    return c.tolist() if k == 0 else c


def times(O, V, n):
    t = np.arange(n) * pick(O, [0.1, 1.0, 1e-3]) + pick(O, [0.0, 5.0])
    return t


# ------------------------------------------------------------------------- DFT


def even(S, lo=2, hi=9):
    return 2 * S.randint(lo, hi)


@op("GUM_DFT")
def _(S, O, V):
    n = S.randint(3, 20)
    kind = O.randint(5)
    Ux = float(pos(V, 1)[0]) if kind == 0 else (pos(V, n) if kind == 1 else cov(V, n))
    a = dict(x=whole(O, form(O, vec(V, n))), Ux=Ux)
    L = n
    if O.rand() < 0.4:
        L = n + int(O.randint(0, 8))
        a["N"] = L
    if O.rand() < 0.3:
        a["window"] = form(O, pos(V, n))
    if O.rand() < 0.3:
        m = O.rand(L // 2 + 1) < 0.6
        m[0] = True
        a["mask"] = m
    elif O.rand() < 0.3:
        k = np.outer(np.arange(L // 2 + 1), 2 * np.pi * np.arange(n) / L)
        a["CxCos"], a["CxSin"] = np.cos(k) * (1 + 0.1 * V.rand()), -np.sin(k)
    if O.rand() < 0.3:
        a["returnC"] = True
    return get(DFT + "GUM_DFT"), a


@op("GUM_iDFT")
def _(S, O, V):
    n = even(S)
    a = dict(F=form(O, vec(V, n + 2)), UF=form(O, cov(V, n + 2)))
    if O.rand() < 0.3:
        a["UF"] = pos(V, n + 2)
    Nx = n
    if O.rand() < 0.3:
        Nx = a["Nx"] = int(O.randint(2, n + 1))
    if O.rand() < 0.3:
        a["returnC"] = True
    if O.rand() < 0.3:
        a["Cc"] = vec(V, (Nx, n // 2 + 1))
    if O.rand() < 0.3:
        a["Cs"] = vec(V, (Nx, n // 2 + 1))
    return get(DFT + "GUM_iDFT"), a


@op("GUM_DFTfreq")
def _(S, O, V):
    return get(DFT + "GUM_DFTfreq"), dict(N=int(S.randint(2, 40)), dt=float(pos(V, 1)[0]))


@op("DFT2AmpPhase")
def _(S, O, V):
    n = even(S)
    a = dict(F=form(O, vec(V, n + 2, 3.0)), UF=form(O, ucov(O, V, n + 2, 0.1)))
    if O.rand() < 0.4:
        a["keep_sparse"] = True
    if O.rand() < 0.3:
        a["tol"] = pick(O, [0.1, 100.0])
    if O.rand() < 0.3:
        a["return_type"] = "array"
    return get(DFT + "DFT2AmpPhase"), a


def dia(V, N):
    d1, d2 = pos(V, 2 * N), 0.05 * pos(V, N)
    return sparse.diags([d1, d2, d2], [0, N, -N])


@op("AmpPhase2DFT")
def _(S, O, V):
    n = S.randint(2, 12)
    k = O.randint(3)
    U = pos(V, 2 * n) if k == 0 else (dia(V, n) if k == 1 else form(O, cov(V, 2 * n)))
    a = dict(A=form(O, pos(V, n)), P=form(O, vec(V, n)), UAP=U)
    if O.rand() < 0.4:
        a["keep_sparse"] = True
    return get(DFT + "AmpPhase2DFT"), a


@op("Time2AmpPhase")
def _(S, O, V):
    n = even(S)
    return get(DFT + "Time2AmpPhase"), dict(x=form(O, vec(V, n)), Ux=ucov(O, V, n))


@op("Time2AmpPhase_multi")
def _(S, O, V):
    n, m = even(S), S.randint(1, 4)
    a = dict(x=vec(V, (m, n)), Ux=pos(V, m))
    if O.rand() < 0.5:
        a["selector"] = np.sort(O.choice(n // 2 + 1, 2, replace=False))
    return get(DFT + "Time2AmpPhase_multi"), a


@op("AmpPhase2Time")
def _(S, O, V):
    n = even(S) // 2 + 1
    k = O.randint(3)
    U = pos(V, 2 * n) if k == 0 else (dia(V, n) if k == 1 else form(O, cov(V, 2 * n)))
    return get(DFT + "AmpPhase2Time"), dict(A=form(O, pos(V, n)), P=form(O, vec(V, n)), UAP=U)


def _pair(S, O, V, names):
    n = even(S) + 2
    X, Y, UX, UY = names
    return {X: form(O, vec(V, n, 1, 2)), Y: form(O, vec(V, n)), UX: form(O, ucov(O, V, n, 0.1)),
            UY: form(O, ucov(O, V, n, 0.1))}


@op("DFT_deconv")
def _(S, O, V):
    return get(DFT + "DFT_deconv"), _pair(S, O, V, ("H", "Y", "UH", "UY"))


@op("DFT_transferfunction")
def _(S, O, V):
    return get(DFT + "DFT_transferfunction"), _pair(S, O, V, ("X", "Y", "UX", "UY"))


@op("DFT_multiply")
def _(S, O, V):
    n = even(S) + 2
    a = dict(Y=form(O, vec(V, n)), F=form(O, vec(V, n)), UY=form(O, ucov(O, V, n)))
    if O.rand() < 0.5:
        a["UF"] = form(O, ucov(O, V, n))
    return get(DFT + "DFT_multiply"), a


# --------------------------------------------------------------------- filters


@op("FIRuncFilter")
def _(S, O, V):
    n, m = S.randint(3, 20), S.randint(1, 6)
    k = O.randint(5)
    a = dict(y=form(O, vec(V, n)), theta=form(O, vec(V, m)))
    a["sigma_noise"] = (float(pos(V, 1)[0]) if k == 0 else
                        pos(V, n) if k in (1, 2) else form(O, cov(V, n)))
    if k == 1:
        a["kind"] = "diag"
    if k == 2:
        a["kind"] = "corr"
        a["sigma_noise"] = a["sigma_noise"][0] * 0.5 ** np.arange(S.randint(1, n + 4))
    u = O.randint(4)
    if u == 1:
        a["Utheta"] = pos(V, m)
    if u == 3:
        a["Utheta"] = np.diag(pos(V, m))
    if u == 2:
        a["Utheta"] = form(O, cov(V, m))
    if O.rand() < 0.4:
        a["shift"] = int(O.randint(-4, 5))
    if O.rand() < 0.3:
        a["blow"] = aslist(O, form(O, vec(V, O.randint(1, 5))))
    if O.rand() < 0.4:
        a["return_full_covariance"] = True
    return get(FLT + "FIRuncFilter"), a


@op("IIRuncFilter")
def _(S, O, V):
    n, nb, na = S.randint(3, 16), S.randint(1, 5), S.randint(1, 4)
    a = dict(x=form(O, vec(V, n)), noise=float(pos(V, 1)[0]) if O.rand() < 0.5 else pos(V, n),
             b=form(O, vec(V, nb)), a=stable(V, na), Uab=form(O, cov(V, na + nb, 0.05)))
    if O.rand() < 0.15:
        a["a"] = a["a"] * 2.0
    return get(FLT + "IIRuncFilter"), a


@op("convolve_unc")
def _(S, O, V):
    n, m = S.randint(2, 12), S.randint(1, 8)
    a = dict(x1=form(O, vec(V, n)), U1=form(O, cov(V, n)) if O.rand() < 0.8 else None,
             x2=form(O, vec(V, m)), U2=form(O, cov(V, m)) if O.rand() < 0.8 else None)
    if O.rand() < 0.1:
        a["U1"] = pos(V, n)
    a["mode"] = pick(O, ["full", "valid", "same", "nearest", "reflect", "mirror"])
    return get(UNC + "propagate_convolution.convolve_unc"), a


@op("interp1d_unc")
def _(S, O, V):
    n, m = S.randint(3, 14), S.randint(1, 14)
    t = np.cumsum(pos(V, n))
    a = dict(t_new=V.uniform(t[0], t[-1], m), t=form(O, t), y=form(O, vec(V, n)), uy=form(O, pos(V, n)))
    out = O.rand() < 0.5
    if out:
        a["t_new"] = V.uniform(t[0] - 1, t[-1] + 1, m)
    a["kind"] = pick(O, ["linear", "linear", "linear", "previous", "next", "nearest"])
    if out:
        k = O.randint(4)
        if k == 0:
            a["fill_value"], a["fill_unc"] = "extrapolate", "extrapolate"
        elif k == 1:
            a["fill_value"], a["fill_unc"] = (1.0, 2.0), (0.1, 0.2)
            a["bounds_error"] = False
        elif k == 2:
            a["bounds_error"] = False
            a["fill_value"] = 5.0
        if O.rand() < 0.3 and k == 0:
            a["returnC"] = True
    elif O.rand() < 0.4 and a["kind"] == "linear":
        a["returnC"] = True
    if O.rand() < 0.3:
        p = O.permutation(n)
        a["t"], a["y"], a["uy"] = a["t"][p], a["y"][p], a["uy"][p]
        a["assume_sorted"] = False
    if O.rand() < 0.4:
        a["copy"] = False
    if O.rand() < 0.15:
        a["t_new"] = float(a["t_new"][0])
    if O.rand() < 0.2:
        for k in ("t", "y", "uy"):
            a[k] = a[k].tolist()
    mod = pick(O, ["uncertainty.interpolate.interp1d_unc", "uncertainty.interpolation.interp1d_unc"])
    return get(mod), a


@op("make_equidistant")
def _(S, O, V):
    n = S.randint(3, 14)
    t = np.cumsum(pos(V, n))
    a = dict(t=form(O, t), y=form(O, vec(V, n)), uy=form(O, pos(V, n)))
    if O.rand() < 0.7:
        a["dt"] = pick(O, [0.3, 0.17, 0.5])
    if O.rand() < 0.5:
        a["kind"] = pick(O, ["previous", "next", "nearest", "linear"])
    return get(pick(O, [TLS, UNC + "interpolate."]) + "make_equidistant"), a


# ----------------------------------------------------------------- Monte Carlo


@op("MC", rng=True)
def _(S, O, V):
    n, nb, na = S.randint(3, 10), S.randint(1, 4), S.randint(0, 3)
    k = O.randint(3)
    a = dict(x=form(O, vec(V, n)), Ux=float(pos(V, 1)[0]) if k == 0 else (pos(V, n) if k == 1 else cov(V, n)),
             b=vec(V, nb), a=stable(V, na), Uab=cov(V, na + nb, 0.3 if O.rand() < 0.2 else 0.05),
             runs=int(O.randint(2, 20)))
    if O.rand() < 0.4:
        a["blow"] = aslist(O, pos(V, O.randint(1, 4)))
        if O.rand() < 0.5:
            a["alow"] = aslist(O, stable(V, 1))
    if O.rand() < 0.3:
        a["shift"] = int(O.randint(-2, 3))
    if O.rand() < 0.3:
        a["return_samples"] = True
    if O.rand() < 0.3:
        a["verbose"] = False
    if O.rand() < 0.1:
        a["runs"] = int(O.randint(300, 1500))
    return get(MCM + "MC"), a


@op("SMC", rng=True)
def _(S, O, V):
    n, nb, na = S.randint(3, 10), S.randint(1, 4), S.randint(0, 3)
    a = dict(x=form(O, vec(V, n)), noise_std=float(pos(V, 1)[0]), b=vec(V, nb), a=stable(V, na),
             runs=int(O.randint(2, 12)))
    if O.rand() < 0.6:
        a["Uab"] = cov(V, na + nb, 0.05)
    if O.rand() < 0.4:
        a["Perc"] = [0.1, 0.5, 0.9]
    if O.rand() < 0.4:
        a["blow"] = pos(V, O.randint(1, 4))
        if O.rand() < 0.5:
            a["alow"] = stable(V, O.randint(1, 3))
    if O.rand() < 0.4:
        a["phi"] = coeffs(O, V, O.randint(1, 4))
    if O.rand() < 0.4:
        a["theta"] = coeffs(O, V, O.randint(1, 4))
    if O.rand() < 0.1:
        a["runs"] = int(O.randint(300, 1500))
    if O.rand() < 0.3:
        a["Delta"] = 0.1
    if O.rand() < 0.3:
        a["shift"] = int(O.randint(-2, 3))
    if O.rand() < 0.3:
        a["return_samples"] = True
    return get(MCM + "SMC"), a


@op("UMC", rng=True, pool=True)
def _(S, O, V):
    n, nb, na = S.randint(3, 8), S.randint(1, 4), S.randint(0, 3)
    a = dict(x=vec(V, n), b=vec(V, nb), a=stable(V, na), Uab=cov(V, na + nb, 0.05),
             runs=int(O.randint(2, 24)), blocksize=int(O.randint(2, 8)), runs_init=int(O.randint(2, 6)),
             nbins=int(O.randint(2, 12)))
    if O.rand() < 0.4:
        a["blow"] = pos(V, O.randint(1, 4))
        if O.rand() < 0.5:
            a["alow"] = stable(V, 1)
            if O.rand() < 0.5:
                a["alow"] = 2.0 * a["alow"]
    if O.rand() < 0.25:
        a["nbins"] = [int(O.randint(2, 6)) for _ in range(O.randint(1, 4))]
    if O.rand() < 0.4:
        a["phi"], a["theta"], a["sigma"] = coeffs(O, V, 2), coeffs(O, V, 1), 0.3
    if O.rand() < 0.3:
        a["Delta"] = 0.2
    if O.rand() < 0.3:
        a["credible_interval"] = 0.8
    return get(MCM + "UMC"), a


class Lin:
    """picklable model and source of samples"""

    def __init__(self, A, shape):
        self.A, self.shape = A, shape

    def __call__(self, s):
        return self.A.dot(np.ravel(s)).reshape(self.shape)

    def __getstate__(self):
        return (self.A, self.shape)

    def __setstate__(self, st):
        self.A, self.shape = st


class Src:
    def __init__(self, loc):
        self.loc = loc

    def __call__(self, size):
        return self.loc + np.random.standard_normal((size,) + self.loc.shape)


@op("UMC_generic", rng=True, pool=True)
def _(S, O, V):
    ni, no = S.randint(1, 4), S.randint(1, 4)
    shape = (no,) if O.rand() < 0.6 else (1, no)
    a = dict(draw_samples=Src(vec(V, ni)), evaluate=Lin(vec(V, (no, ni)), shape), runs=int(O.randint(1, 24)),
             blocksize=int(O.randint(1, 8)), runs_init=int(O.randint(1, 6)),
             nbins=int(O.randint(1, 9)) if O.rand() < 0.5 else [2, 5], n_cpu=pick(O, [1, 1, 2, 3]))
    if O.rand() < 0.4:
        a["return_samples"] = True
    return get(MCM + "UMC_generic"), a


def zero_corr_ops(loc, scale, sizes):
    d = get(MCM + "Normal_ZeroCorr")(loc=loc, scale=scale)
    return [d.rvs(size=k) for k in sizes] + [d.rvs()]


@op("Normal_ZeroCorr", rng=True)
def _(S, O, V):
    n = S.randint(1, 8)
    k = O.randint(4)
    loc = float(vec(V, 1)[0]) if k == 1 else form(O, vec(V, n))
    scale = float(pos(V, 1)[0]) if k == 2 else form(O, pos(V, n))
    return zero_corr_ops, dict(loc=loc, scale=scale, sizes=[int(x) for x in O.randint(1, 5, 2)])


# ----------------------------------------------------------- noise and signals


@op("ARMA", rng=True)
def _(S, O, V):
    a = dict(length=big(S, 1, 25, 1500))
    if O.rand() < 0.8:
        a["phi"] = pick(O, [0.3, None, None])
        if a["phi"] is None:
            a["phi"] = coeffs(O, V, O.randint(1, 5))
    if O.rand() < 0.8:
        a["theta"] = pick(O, [0.3, None, None])
        if a["theta"] is None:
            a["theta"] = coeffs(O, V, O.randint(1, 5))
    if O.rand() < 0.5:
        a["std"] = float(pos(V, 1)[0])
    return get("misc.noise.ARMA"), a


COLORS = ["violet", "blue", "white", "pink", "red", "brown", 0.5, -1, 2]


@op("power_law_noise", rng=True)
def _(S, O, V):
    n = big(S, 3, 30)
    a = dict(N=n) if O.rand() < 0.5 else dict(w=form(O, vec(V, n)))
    a["color_value"] = pick(O, COLORS)
    if O.rand() < 0.5:
        a["mean"], a["std"] = float(vec(V, 1)[0]), float(pos(V, 1)[0])
    return get("misc.noise.power_law_noise"), a


@op("power_law_acf")
def _(S, O, V):
    return get("misc.noise.power_law_acf"), dict(N=int(S.randint(2, 30)), color_value=pick(O, COLORS),
                                                std=float(pos(V, 1)[0]))


@op("white_gaussian", rng=True)
def _(S, O, V):
    return get("misc.noise.white_gaussian"), dict(N=big(S, 1, 30), mean=float(vec(V, 1)[0]), std=float(pos(V, 1)[0]))


@op("get_alpha")
def _(S, O, V):
    return get("misc.noise.get_alpha"), dict(color_value=pick(O, COLORS + ["magenta"]))


def _noise(O, V):
    return dict(noise=float(pos(V, 1)[0])) if O.rand() < 0.6 else {}


@op("shocklikeGaussian", rng=True)
def _(S, O, V):
    t = times(O, V, big(S, 3, 25))
    return get(SIG + "shocklikeGaussian"), dict(time=form(O, t), t0=t[1], m0=float(V.rand() + 1), sigma=float(t[-1] - t[0]) / 5, **_noise(O, V))


@op("GaussianPulse", rng=True)
def _(S, O, V):
    t = times(O, V, big(S, 3, 25))
    return get(SIG + "GaussianPulse"), dict(time=form(O, t), t0=t[1], m0=float(V.rand() + 1), sigma=float(t[-1] - t[0]) / 5, **_noise(O, V))


@op("rect", rng=True)
def _(S, O, V):
    t = times(O, V, big(S, 4, 25))
    a = dict(time=form(O, t), t0=t[1], t1=t[-2], height=float(V.rand() + 1))
    if O.rand() < 0.3:
        a["noise"] = vec(V, len(t))
    else:
        a.update(_noise(O, V))
    return get(SIG + "rect"), a


@op("squarepulse", rng=True)
def _(S, O, V):
    t = times(O, V, big(S, 4, 25))
    return get(SIG + "squarepulse"), dict(time=form(O, t), height=float(V.rand() + 1), numpulse=int(O.randint(1, 5)), **_noise(O, V))


@op("sine", rng=True)
def _(S, O, V):
    t = times(O, V, big(S, 4, 25))
    a = dict(time=form(O, t), **_noise(O, V))
    if O.rand() < 0.6:
        a.update(amp=float(V.rand() + 1), freq=float(V.rand() + 1))
    return get(SIG + "sine"), a


@op("multi_sine", rng=True)
def _(S, O, V):
    t = times(O, V, big(S, 4, 25))
    k = S.randint(1, 4)
    am, fr = pos(V, k), pos(V, k, 1, 5)
    if O.rand() < 0.5:
        am, fr = list(am), list(fr)
    return get(SIG + "multi_sine"), dict(time=form(O, t), amps=am, freqs=fr, **_noise(O, V))


def corr_noise_ops(w, sigma, seed, N, steps):
    c = get(SIG + "corr_noise")(w, sigma, seed=seed)
    out = []
    for s in steps:
        if s in ("calc_noise", "calc_noise2"):
            out.append(getattr(c, s)(N))
        elif s == "calc_psd":
            out.append(c.calc_psd(Fs=2.0))
        elif s == "calc_autocorr":
            out.append(c.calc_autocorr(3))
        else:
            out.append(c.calc_cov())
    return out, c.noise, c.Cw, c


@op("corr_noise")
def _(S, O, V):
    steps = [pick(O, ["calc_noise", "calc_noise2"])]
    for _ in range(O.randint(0, 3)):
        steps.append(pick(O, ["calc_noise", "calc_noise2", "calc_psd", "calc_autocorr", "calc_cov"]))
    return corr_noise_ops, dict(w=float(V.uniform(-0.8, 0.8)), sigma=float(pos(V, 1)[0]), seed=int(V.randint(2 ** 30)),
                                N=int(S.randint(6, 30)) if "calc_cov" in steps else big(S, 6, 30), steps=steps)


# -------------------------------------------------------------- second order


def sosp(V):
    return dict(S=float(1 + V.rand()), d=float(0.1 + V.rand()), f0=float(10 + 10 * V.rand()))


@op("sos_FreqResp")
def _(S, O, V):
    n = S.randint(1, 10)
    if O.rand() < 0.5:
        k = S.randint(1, 5)
        a = dict(S=pos(V, k) + 1, d=pos(V, k), f0=pos(V, k) + 10)
    else:
        a = sosp(V)
    return get("misc.SecondOrderSystem.sos_FreqResp"), dict(a, freqs=form(O, pos(V, n, 1, 30)))


@op("sos_phys2filter")
def _(S, O, V):
    k = S.randint(1, 5)
    a = dict(S=pos(V, k), d=pos(V, k), f0=pos(V, k)) if O.rand() < 0.5 else sosp(V)
    return get("misc.SecondOrderSystem.sos_phys2filter"), a


def _sosmc(S, O, V):
    return dict(sosp(V), uS=0.01, ud=float(0.01 + 0.02 * V.rand()), uf0=0.1, f=form(O, pos(V, S.randint(2, 8), 1, 30)),
                runs=pick(O, [2, 20, 50.0, 1200]))


@op("sos_realimag", rng=True)
def _(S, O, V):
    return get("misc.SecondOrderSystem.sos_realimag"), _sosmc(S, O, V)


@op("sos_absphase", rng=True)
def _(S, O, V):
    return get("misc.SecondOrderSystem.sos_absphase"), _sosmc(S, O, V)


def freqresp(V, n):
    f = np.linspace(1.0, 40.0, n)
    p = sosp(V)
    H = get("misc.SecondOrderSystem.sos_FreqResp")(p["S"], 0.3 + p["d"], 30.0 + p["f0"], f)
    return f, H


@op("fit_som", rng=True)
def _(S, O, V):
    n = S.randint(4, 9)
    f, H = freqresp(V, n)
    a = dict(f=f, H=np.r_[H.real, H.imag])
    if O.rand() < 0.8:
        a["UH"] = pos(V, 2 * n) * 1e-3 if O.rand() < 0.5 else cov(V, 2 * n, 1e-3)
        if O.rand() < 0.6:
            a["MCruns"] = pick(O, [40, 60.0])
        w = O.randint(4)
        if w == 1:
            a["weighting"] = "diag"
        if w == 2:
            a["weighting"] = pos(V, 2 * n) + 0.5
        if w == 3 and "MCruns" not in a:
            a["weighting"] = "cov"
    if O.rand() < 0.3:
        a["scaling"] = 1e-2
    return get(pick(O, ["model_estimation.fit_transfer.fit_som", "identification.fit_transfer.fit_sos"])), a


# ----------------------------------------------------------------- filter fits


def _fitargs(S, O, V):
    n = S.randint(8, 14)
    f, H = freqresp(V, n)
    return n, f, H


@op("LSFIR")
def _(S, O, V):
    n, f, H = _fitargs(S, O, V)
    a = dict(H=H, N=int(S.randint(2, 6)), tau=int(O.randint(0, 4)), f=f, Fs=100.0)
    if O.rand() < 0.4:
        a["Wt"] = pos(V, n) if O.rand() < 0.5 else np.diag(pos(V, n))
    return get(pick(O, [FIT + "LSFIR", FIT + "invLSFIR", "deconvolution.fit_filter.LSFIR", "identification.fit_filter.LSFIR"])), a


@op("LSIIR")
def _(S, O, V):
    n, f, H = _fitargs(S, O, V)
    a = dict(Hvals=H, Nb=int(S.randint(1, 4)), Na=int(S.randint(1, 4)), f=f, Fs=100.0, tau=int(O.randint(0, 4)))
    if O.rand() < 0.3:
        a["justFit"] = True
    return get(pick(O, [FIT + "LSIIR", FIT + "invLSIIR", "deconvolution.fit_filter.LSIIR"])), a


def _uncargs(S, O, V):
    n, f, H = _fitargs(S, O, V)
    return n, dict(H=H, UH=cov(V, 2 * n, 1e-3), N=int(S.randint(2, 6)), tau=int(O.randint(0, 4)), f=f, Fs=100.0)


@op("invLSFIR_unc", rng=True, cost=3)
def _(S, O, V):
    n, a = _uncargs(S, O, V)
    if O.rand() < 0.4:
        a["wt"] = pos(V, 2 * n)
    if O.rand() < 0.4:
        a["trunc_svd_tol"] = 1e-3
    if O.rand() < 0.3:
        a["H"] = np.r_[a["H"].real, a["H"].imag]
        a["verbose"] = False
    if O.rand() < 0.4:
        a["verbose"] = False
    return get(pick(O, [FIT + "invLSFIR_unc", "deconvolution.fit_filter.LSFIR_unc"])), a


@op("invLSFIR_uncMC", rng=True, cost=50)
def _(S, O, V):
    n, a = _uncargs(S, O, V)
    if O.rand() < 0.5:
        a["verbose"] = False
    return get(pick(O, [FIT + "invLSFIR_uncMC", "deconvolution.fit_filter.LSFIR_uncMC"])), a


@op("invLSIIR_unc", rng=True, cost=50)
def _(S, O, V):
    n, a = _uncargs(S, O, V)
    del a["N"]
    a.update(Nb=int(S.randint(1, 3)), Na=int(S.randint(1, 3)))
    return get(pick(O, [FIT + "invLSIIR_unc", "deconvolution.fit_filter.LSIIR_unc"])), a


# ----------------------------------------------------------------------- misc


@op("db")
def _(S, O, V):
    return get(FST + "db"), dict(vals=form(O, vec(V, S.randint(1, 12)) + 1j * V.rand()))


@op("ua")
def _(S, O, V):
    n = S.randint(1, 12)
    return get(FST + "ua"), dict(vals=form(O, vec(V, n) + 1j * vec(V, n)))


@op("grpdelay")
def _(S, O, V):
    return get(FST + "grpdelay"), dict(b=form(O, vec(V, S.randint(1, 5))), a=form(O, stable(V, S.randint(1, 4))), Fs=10.0,
                                       nfft=pick(O, [16, 64]))


@op("mapinside")
def _(S, O, V):
    return get(FST + "mapinside"), dict(a=form(O, np.r_[1.0, vec(V, S.randint(1, 5), 2.0)]))


@op("isstable")
def _(S, O, V):
    return get(FST + "isstable"), dict(b=form(O, vec(V, 2)), a=form(O, np.r_[1.0, vec(V, S.randint(1, 5))]),
                                       ftype=pick(O, ["digital", "analog"]))


@op("kaiser_lowpass")
def _(S, O, V):
    return get(FST + "kaiser_lowpass"), dict(L=int(S.randint(2, 20)), fcut=float(1 + V.rand()), Fs=10.0,
                                             **(dict(beta=4.0) if O.rand() < 0.5 else {}))


@op("savitzky_golay")
def _(S, O, V):
    w = 2 * S.randint(1, 4) + 1
    return get(FST + "savitzky_golay"), dict(y=whole(O, form(O, vec(V, S.randint(w + 1, 20)))), window_size=int(w), order=int(O.randint(0, w - 1)),
                                             deriv=int(O.randint(0, 1)), delta=pick(O, [1.0, 0.5]))


@op("impinvar")
def _(S, O, V):
    n = S.randint(2, 5)
    p = -pos(V, n) * np.arange(1, n + 1)
    return get("misc.impinvar." + pick(O, ["impinvar", "impinvar_causal"])), dict(
        b_in=form(O, vec(V, n - 1)), a_in=form(O, np.real(np.poly(p))), fs=pick(O, [1, 10.0]))


@op("shift_uncertainty")
def _(S, O, V):
    n = S.randint(1, 12)
    k = O.randint(3)
    return get(TLS + "shift_uncertainty"), dict(x=whole(O, form(O, vec(V, n))), ux=0.3 if k == 0 else (form(O, pos(V, n)) if k == 1 else form(O, cov(V, n))),
                                                shift=int(O.randint(-5, 6)))


@op("trimOrPad")
def _(S, O, V):
    a = dict(array=form(O, vec(V, S.randint(1, 12))), length=int(S.randint(0, 15)))
    if O.rand() < 0.3:
        a["mode"] = "edge"
    if O.rand() < 0.3:
        a["array"] = a["array"].tolist()
    return get(TLS + "trimOrPad"), a


@op("print_vec")
def _(S, O, V):
    return get(TLS + "print_vec"), dict(vector=vec(V, S.randint(1, 6)), prec=int(O.randint(1, 8)), vertical=bool(O.randint(2)),
                                        retS=bool(O.rand() < 0.7))


@op("print_mat")
def _(S, O, V):
    return get(TLS + "print_mat"), dict(matrix=vec(V, (S.randint(1, 4), S.randint(1, 4))), prec=int(O.randint(1, 8)),
                                        vertical=bool(O.randint(2)), retS=bool(O.rand() < 0.7))


@op("make_semiposdef")
def _(S, O, V):
    n = S.randint(4, 8)
    M = cov(V, n) - 0.3 * np.eye(n) + 0.1 * vec(V, (n, n))
    if O.rand() < 0.3:
        n += 5
        M = cov(V, n) + 0.5 * np.eye(n)
        M = pick(O, [sparse.csr_matrix, sparse.csc_matrix])(M)
    a = dict(matrix=form(O, M) if isinstance(M, np.ndarray) else M)
    if O.rand() < 0.3:
        a["tol"] = 1e-6
    if O.rand() < 0.3:
        a["verbose"] = True
    return get(TLS + "make_semiposdef"), a


@op("FreqResp2RealImag", rng=True)
def _(S, O, V):
    n = S.randint(1, 6)
    return get(TLS + "FreqResp2RealImag"), dict(Abs=form(O, pos(V, n)), Phase=form(O, vec(V, n)), Unc=form(O, ucov(O, V, 2 * n, 0.1)),
                                                MCruns=pick(O, [10, 30, 50.0, 1200]))


def progress_ops(count, count_max, width, prefix):
    import io
    out = io.StringIO()
    get(TLS + "progress_bar")(count, count_max, width=width, prefix=prefix, fout=out)
    return out.getvalue()


@op("progress_bar")
def _(S, O, V):
    m = int(S.randint(1, 30))
    return progress_ops, dict(count=int(V.randint(0, m)), count_max=m, width=int(O.randint(1, 40)), prefix=pick(O, ["", "abc "]))


# --------------------------------------------------------------------- Signal


def signal_ops(time, values, uncertainty, Ts, labels, b, a, Uab, runs):
    s = get("signals.Signal")(time, values, Ts=Ts, uncertainty=uncertainty)
    if labels:
        s.set_labels(*labels)
    if b is not None:
        s.apply_filter(b, a, filter_uncertainty=Uab, MonteCarloRuns=runs)
    return s.time, s.values, s.uncertainty, s.Ts, s.Fs, s.name, s.unit_time, s.unit_values, s


@op("Signal", rng=True)
def _(S, O, V):
    n, nb = S.randint(3, 12), S.randint(1, 4)
    t = np.arange(n) * 0.5
    k = O.randint(4)
    d = dict(time=form(O, t), values=form(O, vec(V, n)),
             uncertainty=[None, 0.2, pos(V, n), cov(V, n)][k], Ts=0.5 if O.rand() < 0.5 else None,
             labels=("ms", "V", "chan") if O.rand() < 0.3 else None, b=None, a=1, Uab=None, runs=None)
    if O.rand() < 0.8:
        d["b"] = form(O, vec(V, nb))
        if O.rand() < 0.3:
            d["a"] = stable(V, 1)
            d["Uab"] = cov(V, nb + 1, 0.05)
            d["runs"] = int(O.randint(3, 15))
        else:
            if O.rand() < 0.5:
                d["Uab"] = cov(V, nb, 0.05)
            if k == 3 or O.rand() < 0.4:
                d["runs"] = int(O.randint(3, 15))
    return signal_ops, d


# ------------------------------------------------------------ using the catalogue


class Case:
    """one generated call"""

    def __init__(self, name, s, o, v, mix=None, edits=()):
        self.name = name
        self.op = OPS[name]
        with np.errstate(all="ignore"):
            fn, args = self.op.build(*(RealRandomState([k, i]) for i, k in enumerate((s, o, v))))
            if mix is not None:
                o2, v2, mask = mix
                fn2, args2 = self.op.build(*(RealRandomState([k, i]) for i, k in enumerate((s, o2, v2))))
                for i, k in enumerate(sorted(args2)):
                    if mask >> i & 1:
                        args[k] = args2[k]
        self.fn, self.args = fn, args
        for e in edits:
            self.edit(*e)
        self.desc = name + "(" + ", ".join("%s=%s" % (k, short(v)) for k, v in args.items()) + ")"

    def call(self):
        return self.fn(**self.args)

    def edit(self, i, kind):
        """what a user may do between two calls: change an argument, in place if it is
        an array, or pass something unusable"""
        keys = sorted(self.args)
        k = keys[i % len(keys)]
        v = self.args[k]
        if kind == "scale":
            if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.size:
                v *= 1.5
            elif isinstance(v, list) and v and all(isinstance(x, float) for x in v):
                v[-1] *= 1.5
            elif isinstance(v, float):
                self.args[k] = v * 1.5
        elif kind == "element":
            if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.size:
                v.flat[v.size // 2] += 0.25
        elif kind == "none" and k not in ("seed", "random_state"):   # there, None is meaningful
            self.args[k] = None
        elif kind == "text":
            self.args[k] = "unusable"
        elif kind == "short":
            if isinstance(v, (np.ndarray, list)) and len(v) > 1:
                self.args[k] = v[:-1]
        elif kind == "nan":
            if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.size:
                v.flat[0] = np.nan
            elif isinstance(v, float):
                self.args[k] = np.nan


def short(v):
    if isinstance(v, np.ndarray):
        if v.size <= 2:
            return repr(v.tolist())
        return "%s%s" % (v.dtype.kind, list(v.shape))
    if sparse.issparse(v):
        return "sparse%s" % list(v.shape)
    if isinstance(v, list) and len(v) > 4:
        return "list[%d]" % len(v)
    s = repr(v)
    return s if len(s) < 30 and " at 0x" not in s else type(v).__name__


def freeze(v, depth=0):
    """canonical, comparable copy of a value"""
    if sparse.issparse(v):
        c = v.tocoo()
        return ("sparse", v.format, v.shape, freeze(v.toarray()))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", v.shape, [freeze(x, depth + 1) for x in v.ravel().tolist()])
        return ("array", v.dtype.str, np.array(v, copy=True, order="C"))
    if isinstance(v, (np.generic,)):
        return ("scalar", v.dtype.str, np.array(v))
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return ("const", repr(v))
    if isinstance(v, (int, float, complex)):
        return ("number", type(v).__name__, np.array(v) if not isinstance(v, int) or abs(v) < 2 ** 62 else repr(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", [(repr(k), freeze(x, depth + 1)) for k, x in sorted(v.items(), key=lambda t: repr(t[0]))])
    if isinstance(v, RealRandomState):
        s = v.get_state()
        return ("rng", s[0], np.array(s[1]), s[2])
    if depth < 6 and hasattr(v, "__dict__"):
        return ("object", type(v).__name__, freeze(dict(vars(v)), depth + 1))
    return ("other", type(v).__name__)


def same(a, b, exact=False, path="result"):
    """None or a description of the first difference"""
    if type(a) is not type(b):
        return "%s: %r instead of %r" % (path, short(a), short(b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s: %s%s instead of %s%s" % (path, a.dtype, a.shape, b.dtype, b.shape)
        if exact:
            return None if a.tobytes() == b.tobytes() else path + ": different content"
        if a.dtype.kind in "fc":
            na, nb = np.isnan(a), np.isnan(b)
            if not np.array_equal(na, nb):
                return path + ": NaN at other places"
            with np.errstate(all="ignore"):
                fin = np.isfinite(a) & np.isfinite(b)
                if not np.array_equal(a[~fin & ~na], b[~fin & ~na]):
                    return path + ": other infinities"
                d = np.abs(a - b)[fin]
                scale = np.max(np.abs(b[fin])) if np.any(fin) else 0.0
                if d.size and np.max(d) > 1e-8 * scale:
                    return "%s: deviates by %.3g of %.3g" % (path, np.max(d), scale)
            return None
        return None if np.array_equal(a, b) else path + ": different content"
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return "%s: %d instead of %d elements" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, exact, path + "[%d]" % i if isinstance(a, list) else path)
            if d:
                return d
        return None
    return None if a == b else "%s: %r instead of %r" % (path, a, b)


NORMAL = dict(divide="warn", over="warn", under="ignore", invalid="warn")
LEFT = []       # floating point error handling that calls have left behind


def outcome(fn):
    """frozen result or exception of a call, and the raw result"""
    old = np.seterr(**NORMAL)
    try:
        raw = fn()
    except Exception as e:
        return ("raised", type(e).__name__), None
    finally:
        if np.geterr() != NORMAL:
            LEFT.append(np.geterr())
        np.seterr(**old)
    return ("returned", freeze(raw)), raw


def args_state(args):
    """byte-exact state of the arguments, including memory they are views of"""
    out = []
    for k in sorted(args):
        v = args[k]
        out.append((k, freeze(v)))
        while isinstance(v, np.ndarray) and isinstance(v.base, np.ndarray):
            v = v.base
            out.append((k + ".base", freeze(v)))
    return out


GLOBALS = ("numpy error handling", "numpy print options", "warning filters", "recursion limit", "hash of environment")


def global_state():
    """settings of the interpreter and of NumPy that a library must not change"""
    import os
    import sys
    import warnings
    return (tuple(sorted(np.geterr().items())) + (len(LEFT),), repr(sorted(np.get_printoptions().items(), key=str)),
            repr([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters]),
            (sys.getrecursionlimit(), sys.gettrace() is None, id(sys.stdout), id(sys.stderr), id(warnings.showwarning)),
            repr(sorted(os.environ.items())))


def global_diff(a, b):
    for name, x, y in zip(GLOBALS, a, b):
        if x != y:
            return name
    return None


def names(rng=None, max_cost=3, pool=None):
    return [n for n, o in OPS.items() if (rng is None or o.rng == rng) and o.cost <= max_cost
            and (pool is None or o.pool == pool)]
