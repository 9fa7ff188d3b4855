"""DFT propagation against Monte Carlo by the library's own engine with moment-exact draws"""
import numpy as np

from .. import filters as F
from .. import umc_common as U
from ..confirm import agree, propagate
from ..core import Violation
from ..seams import RealRandomState

BATCH = 15


def ri(c):
    return np.r_[np.real(c), np.imag(c)]


def cplx(v):
    m = len(v) // 2
    return v[:m] + 1j * v[m:]


class Dft:
    def __init__(self, n, N=None, window=None, mask=None):
        self.N, self.w, self.mask = N or n, np.ones(n) if window is None else window, mask

    def __call__(self, x):
        # the definition, independent of the FFT
        z = np.zeros(self.N)
        z[:len(x)] = x * self.w
        k = np.arange(self.N // 2 + 1)
        f = np.exp(-2j * np.pi * np.outer(k, np.arange(self.N)) / self.N).dot(z)
        return ri(f if self.mask is None else f[self.mask])


class Idft:
    def __init__(self, Nx):
        self.Nx = Nx

    def __call__(self, v):
        f = cplx(v)
        N = 2 * (len(f) - 1)
        t = np.arange(self.Nx)
        x = np.full(self.Nx, f[0].real)
        for k in range(1, len(f) - 1):
            x = x + 2 * np.real(f[k] * np.exp(2j * np.pi * k * t / N))
        return (x + f[-1].real * np.cos(np.pi * t)) / N


class Polar:
    """amplitude and phase; phases next to those of the estimate"""

    def __init__(self, f0):
        self.P0 = np.angle(f0)
        if np.any(np.imag(f0) == 0):
            self.P0 = np.arctan2(np.imag(f0), np.real(f0))

    def __call__(self, v):
        f = cplx(v)
        return np.r_[np.abs(f), np.angle(f * np.exp(-1j * self.P0)) + self.P0]


class Cartesian:
    def __call__(self, v):
        m = len(v) // 2
        return ri(v[:m] * np.exp(1j * v[m:]))


class Chain:
    def __init__(self, *models):
        self.models = models

    def __call__(self, v):
        for m in self.models:
            v = m(v)
        return v


class Quotient:
    """first half numerator, second half denominator"""

    def __call__(self, v):
        m = len(v) // 2
        return ri(cplx(v[:m]) / cplx(v[m:]))


class Product:
    def __call__(self, v):
        m = len(v) // 2
        return ri(cplx(v[:m]) * cplx(v[m:]))


def gen_u(ch, r, n, s, forms=("matrix", "vector")):
    """the uncertainty in one of the documented forms, and the matrix it means"""
    form = ch.pick(list(forms))
    if form == "float":
        v = float(s ** 2)
        return v, v * np.eye(n), form
    if ch.bool(0.12):
        # whole numbers are uncertainties like any other
        B = r.randint(-3, 4, (n, n))
        M = B.dot(B.T) + np.eye(n, dtype=int)
        if form == "vector":
            return np.diag(M).copy(), np.diag(np.diag(M)).astype(float), "vector/int"
        return M, M.astype(float), "matrix/int"
    if form == "vector":
        v = s ** 2 * r.uniform(0, 1, n)
        if ch.bool(0.2):
            v[ch.int(0, n - 1)] = 0.0
        return v, np.diag(v), form
    M, k = F.gen_cov(ch, r, n, s)
    if ch.bool(0.15):
        M = np.asfortranarray(M)
    return M, M, "matrix/" + k


def gen_c(ch, r, m, lo=0.5):
    """complex values away from zero"""
    f = (lo + r.uniform(0, 2, m)) * np.exp(1j * r.uniform(-3.1, 3.1, m))
    return f * ch.pick([1.0, 30.0])


def block(*Us):
    n = sum(len(u) for u in Us)
    out, k = np.zeros((n, n)), 0
    for u in Us:
        out[k:k + len(u), k:k + len(u)] = u
        k += len(u)
    return out


def dense(C):
    return C.toarray() if hasattr(C, "toarray") else np.asarray(C)


def eps_for(x, cov, low):
    sd = np.sqrt(np.max(np.diag(cov))) * np.sqrt(len(x))
    return 1.0 if sd == 0 else 1e-5 * low / sd


def sparse_u(r, m, s):
    """correlation only between amplitude and phase of the same frequency"""
    from scipy import sparse
    A, P = s ** 2 * r.uniform(0.1, 1, m), s ** 2 * r.uniform(0.1, 1, m)
    X = r.uniform(-0.9, 0.9, m) * np.sqrt(A * P)
    S = sparse.diags([np.r_[A, P], X, X], [0, m, -m])
    return S, S.toarray()


def op_dft(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import GUM_DFT
    n = ch.size(2, 11, 70)
    x = r.normal(size=n) * ch.pick([1.0, 50.0])
    Ux, M, form = gen_u(ch, r, n, ch.pick([0.1, 2.0]), ("matrix", "vector", "float"))
    kw, w, mask = {}, None, None
    N = n
    if ch.bool(0.3):
        w = r.uniform(0.1, 1, n)
        kw["window"] = w
    if ch.bool(0.4):
        N = n + ch.int(0, 7)
        kw["N"] = N
    if ch.bool(0.3):
        mask = r.uniform(size=N // 2 + 1) < 0.6
        mask[ch.int(0, N // 2)] = True
        kw["mask"] = mask
    what = "GUM_DFT n=%d %s U=%s" % (n, sorted(kw.items(), key=lambda t: t[0])[0:0] or sorted(kw), form)
    ret = ch.bool(0.4)
    out = GUM_DFT(x, Ux, returnC=ret, **kw)
    my, mC = propagate(ch, ctx, Dft(n, N, w, mask), x, M)
    agree(what, out[0], out[1], my, mC)
    if ret and out[2]["CxCos"] is not None:
        Cm = np.vstack((out[2]["CxCos"], out[2]["CxSin"]))
        xw = x if w is None else x * w
        if not np.allclose(Cm.dot(xw), my, rtol=1e-9, atol=1e-9 * np.max(np.abs(my))):
            raise Violation("GUM_DFT", "%s: sensitivities do not map the signal to its DFT" % what)
        again = GUM_DFT(x, Ux, CxCos=out[2]["CxCos"], CxSin=out[2]["CxSin"], **kw)
        agree(what + " with given sensitivities", again[0], again[1], my, mC)
    return what


def op_idft(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import GUM_iDFT
    m = ch.size(2, 6, 40)
    f = r.normal(size=m) + 1j * r.normal(size=m)
    if ch.bool(0.7):
        f[0], f[-1] = f[0].real, f[-1].real
    v = ri(f)
    UF, M, form = gen_u(ch, r, 2 * m, ch.pick([0.1, 2.0]))
    kw = {}
    Nx = N = 2 * m - 2
    if ch.bool(0.3):
        Nx = ch.int(1, N)
        kw["Nx"] = Nx
    ret = ch.bool(0.4)
    what = "GUM_iDFT m=%d %s U=%s" % (m, kw, form)
    out = GUM_iDFT(v, UF, returnC=ret, **kw)
    my, mC = propagate(ch, ctx, Idft(Nx), v, M)
    agree(what, out[0], out[1], my, mC)
    if ret:
        again = GUM_iDFT(v, UF, Cc=out[2]["Cc"], Cs=out[2]["Cs"], **kw)
        agree(what + " with given sensitivities", again[0], again[1], my, mC)
    return what


def op_round(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import GUM_DFT, GUM_iDFT, Time2AmpPhase, AmpPhase2Time
    n = 2 * ch.size(1, 5, 35)
    x = r.normal(size=n)
    Ux, M, form = gen_u(ch, r, n, 0.2)
    polar = ch.bool()
    what = "%s n=%d U=%s" % ("AmpPhase2Time(Time2AmpPhase)" if polar else "GUM_iDFT(GUM_DFT)", n, form)
    if polar:
        f = np.fft.rfft(x)
        if np.min(np.abs(f)) < 0.05:
            return what
        y, C = AmpPhase2Time(*Time2AmpPhase(x, Ux))
    else:
        y, C = GUM_iDFT(*GUM_DFT(x, Ux))
    agree(what, y, C, x, M, kind="round-trip")
    return what


def op_toap(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import DFT2AmpPhase
    m = ch.size(2, 6, 40)
    f = gen_c(ch, r, m)
    if ch.bool():
        f[0], f[-1] = f[0].real, f[-1].real
    v = ri(f)
    UF, M, form = gen_u(ch, r, 2 * m, ch.pick([0.01, 2.0]))
    if np.any(np.diag(M) == 0):
        UF, M, form = M + 0.01 * np.eye(2 * m), M + 0.01 * np.eye(2 * m), form + "+diag"
    low = np.min(np.abs(f))
    ks, sep = ch.bool(0.3), ch.bool(0.7)
    what = "DFT2AmpPhase m=%d U=%s" % (m, form)
    out = DFT2AmpPhase(v, UF, keep_sparse=ks, return_type="separate" if sep else "list")
    my, mC = propagate(ch, ctx, Polar(f), v, M, eps_for(v, M, low))
    y = np.r_[out[0], out[1]] if sep else out[0]
    agree(what, y, dense(out[-1]), my, mC)
    return what


def gen_ap(ch, r, m):
    A, P = r.uniform(0.3, 3, m), r.uniform(-3.1, 3.1, m)
    s = ch.pick([0.01, 0.5])
    if ch.bool(0.3):
        UAP, M = sparse_u(r, m, s)
        form = "sparse"
    else:
        UAP, M, form = gen_u(ch, r, 2 * m, s)
    return A, P, UAP, M, form


def op_tori(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import AmpPhase2DFT
    m = ch.size(1, 6, 40)
    A, P, UAP, M, form = gen_ap(ch, r, m)
    what = "AmpPhase2DFT m=%d U=%s" % (m, form)
    y, C = AmpPhase2DFT(A, P, UAP, keep_sparse=ch.bool(0.3))
    v = np.r_[A, P]
    my, mC = propagate(ch, ctx, Cartesian(), v, M, eps_for(v, M, 0.3))
    agree(what, y, dense(C), my, mC)
    return what


def op_totime(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import AmpPhase2Time
    m = ch.size(2, 6, 40)
    A, P, UAP, M, form = gen_ap(ch, r, m)
    what = "AmpPhase2Time m=%d U=%s" % (m, form)
    y, C = AmpPhase2Time(A, P, UAP)
    v = np.r_[A, P]
    my, mC = propagate(ch, ctx, Chain(Cartesian(), Idft(2 * m - 2)), v, M, eps_for(v, M, 0.3))
    agree(what, y, C, my, mC)
    return what


def op_time2ap(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import Time2AmpPhase
    n = 2 * ch.size(1, 5, 35) if ch.bool(0.7) else 2 * ch.int(1, 4) + 1
    x = r.normal(size=n)
    f = np.fft.rfft(x)
    Ux, M, form = gen_u(ch, r, n, 0.3, ("matrix", "vector", "float"))
    M = M + 0.0
    what = "Time2AmpPhase n=%d U=%s" % (n, form)
    low = np.min(np.abs(f))
    if low < 0.05 or np.any(np.diag(M) == 0):
        return what
    out = Time2AmpPhase(x, Ux)
    # phases of the real-valued components do not vary
    my, mC = propagate(ch, ctx, Chain(Dft(n), Polar(f)), x, M, eps_for(x, M, low))
    P0 = np.angle(f)
    my = np.r_[my[:len(f)], np.where(np.abs(np.abs(P0) - np.pi) < 1e-9, np.abs(my[len(f):]), my[len(f):])]
    y = np.r_[out[0], np.where(np.abs(np.abs(P0) - np.pi) < 1e-9, np.abs(out[1]), out[1])]
    agree(what, y, dense(out[2]), my, mC)
    return what


def op_multi(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import Time2AmpPhase_multi
    n, m = ch.size(3, 9, 60), ch.size(1, 3, 8)
    x = r.normal(size=(m, n))
    Ux = r.uniform(0.01, 0.3, m)
    F_ = np.fft.rfft(x, axis=1)
    nf = n // 2 + 1
    sel = None
    kw = {}
    if ch.bool(0.5):
        sel = np.flatnonzero(r.uniform(size=nf) < 0.7)
        sel = np.r_[sel, ch.int(0, nf - 1)] if len(sel) == 0 else sel
        kw["selector"] = sel
    what = "Time2AmpPhase_multi %dx%d selector=%s" % (m, n, sel is not None)
    if np.min(np.abs(F_)) < 0.05:
        return what
    A, P, UAP = Time2AmpPhase_multi(x, Ux, **kw)
    sel = np.arange(nf) if sel is None else sel
    for k in range(m):
        M = Ux[k] * np.eye(n)
        my, mC = propagate(ch, ctx, Chain(Dft(n), Polar(F_[k])), x[k], M, eps_for(x[k], M, np.min(np.abs(F_[k]))))
        d = np.r_[np.diag(mC)[:nf][sel], np.diag(mC[:nf, nf:])[sel], np.diag(mC)[nf:][sel]]
        flip = np.abs(np.abs(P[k]) - np.pi) < 1e-9
        y = np.r_[A[k], np.where(flip, np.abs(P[k]), P[k])]
        w = np.r_[my[:nf][sel], np.where(flip, np.abs(my[nf:][sel]), my[nf:][sel])]
        if not np.allclose(y, w, rtol=1e-7, atol=1e-9):
            raise Violation("Time2AmpPhase_multi", "%s: values of signal %d deviate" % (what, k))
        if UAP[k].shape != d.shape or not np.allclose(UAP[k], d, rtol=1e-5, atol=1e-7 * np.max(d)):
            raise Violation("Time2AmpPhase_multi", "%s: (co)variances of signal %d deviate" % (what, k))
    return what


def op_deconv(ch, ctx, r):
    from PyDynamic.uncertainty import propagate_DFT as D
    m = ch.size(2, 6, 40)
    H, Y = gen_c(ch, r, m), gen_c(ch, r, m, 0.0)
    UH, MH, fh = gen_u(ch, r, 2 * m, ch.pick([0.01, 0.3]))
    UY, MY, fy = gen_u(ch, r, 2 * m, ch.pick([0.01, 0.3]))
    fn = ch.pick([D.DFT_deconv, D.DFT_transferfunction])
    what = "%s m=%d UH=%s UY=%s" % (fn.__name__, m, fh, fy)
    y, C = fn(ri(H), ri(Y), UH, UY)
    v, M = np.r_[ri(Y), ri(H)], block(MY, MH)
    my, mC = propagate(ch, ctx, Quotient(), v, M, eps_for(v, M, 0.5))
    agree(what, y, C, my, mC)
    return what


def op_multiply(ch, ctx, r):
    from PyDynamic.uncertainty.propagate_DFT import DFT_multiply
    m = ch.size(1, 6, 40)
    Y, G = gen_c(ch, r, m, 0.0), gen_c(ch, r, m, 0.0)
    UY, MY, fy = gen_u(ch, r, 2 * m, ch.pick([0.01, 0.3]), ("matrix", "matrix", "vector", "vector", "float"))
    if ch.bool(0.4):
        args, MG, fg = (), np.zeros((2 * m, 2 * m)), "none"
    else:
        UG, MG, fg = gen_u(ch, r, 2 * m, ch.pick([0.01, 0.3]), ("matrix",))
        args = (UG,)
    what = "DFT_multiply m=%d UY=%s UF=%s" % (m, fy, fg)
    y, C = DFT_multiply(ri(Y), ri(G), UY, *args)
    v, M = np.r_[ri(Y), ri(G)], block(MY, MG)
    my, mC = propagate(ch, ctx, Product(), v, M, eps_for(v, M, 0.5))
    agree(what, y, C, my, mC)
    return what


OPS = [op_dft, op_idft, op_round, op_toap, op_tori, op_totime, op_time2ap, op_multi, op_deconv, op_multiply]


def run(ch, ctx):
    r = RealRandomState(ch.subseed())
    U.schedule(ch, ctx, fork_p=0.02)
    op = ch.pick(OPS)
    ctx.desc = op(ch, ctx, r)
    ctx.cover(ctx.desc)
    ctx.nontrivial = True
    ctx.event("ok", ctx.desc)
