"""noise generators and noisy test signals against their definition"""
import numpy as np
from scipy.special import comb

from .. import filters as F
from ..core import Violation
from ..seams import HUB, RealRandomState

BATCH = 25


class Normals:
    """records the standard normal values behind whatever was drawn"""

    def __init__(self):
        self.z = []
        self.other = 0

    def __call__(self, name, args, kwargs, value):
        v = np.asarray(value, float).ravel()
        if name in ("randn", "standard_normal"):
            self.z.append(v)
        elif name == "normal":
            loc = kwargs.get("loc", args[0] if args else 0.0)
            scale = kwargs.get("scale", args[1] if len(args) > 1 else 1.0)
            if np.size(loc) == 1 and np.size(scale) == 1 and float(scale) > 0:
                self.z.append((v - loc) / scale)
            elif np.size(scale) == 1 and float(scale) == 0:
                self.z.append(np.zeros_like(v))
            else:
                self.other += 1
        else:
            self.other += 1

    def take(self, n):
        z = np.concatenate(self.z) if self.z else np.zeros(0)
        return z if len(z) == n and not self.other else None


def recorded(fn):
    rec = Normals()
    HUB.recorder = rec
    try:
        return fn(), rec
    finally:
        HUB.recorder = None


def equal(what, got, want, ctx, rtol=1e-9):
    if not F.close(got, want, rtol=rtol, atol=1e-12):
        raise Violation(what, "%s: %s (%s)" % (what, F.dev(got, want), ctx.desc))


def distribution(what, fn, ref, ctx, count=400):
    """another use of the random stream than foreseen: compare repeated calls with
    repeated executions of the definition"""
    ctx.probe("unmatched stream")
    HUB.override.clear()
    A = np.array([fn() for _ in range(count)])
    B = np.array([ref() for _ in range(count)])
    d = F.differ(A, B, nsig=8.0)
    if d:
        raise Violation(what, "%s: %s differs from that of the definition (%s)" % (what, d, ctx.desc))


def arma(ch, ctx, r):
    from PyDynamic.misc.noise import ARMA
    n = ch.size(1, 30, 2500)
    phi = r.uniform(-0.45, 0.45, ch.int(1, 4))
    theta = r.uniform(-1, 1, ch.int(1, 4))
    form = ch.pick(["array", "list", "scalar", "default"])
    std = ch.pick([1.0, 0.1, 5])
    kw = dict(std=std)
    if form == "array":
        kw.update(phi=phi, theta=theta)
    elif form == "list":
        kw.update(phi=list(phi), theta=list(theta))
    elif form == "scalar":
        phi, theta = phi[:1], theta[:1]
        kw.update(phi=float(phi[0]), theta=float(theta[0]))
    else:
        phi = theta = np.zeros(1)
        if ch.bool(0.3):
            del kw["std"]
            std = 1.0
    ctx.desc = "ARMA length=%d phi=%d theta=%d (%s) std=%g" % (n, len(phi), len(theta), form, std)
    e, rec = recorded(lambda: ARMA(n, **kw))
    z = rec.take(n)
    if np.shape(e) != (n,):
        raise Violation("arma-length", "%s for length %d" % (np.shape(e), n))

    def recursion(w):
        ref = np.zeros(n)
        for i in range(n):
            ref[i] = w[i]
            for k in range(len(phi)):
                if i - 1 - k >= 0:
                    ref[i] += phi[k] * ref[i - 1 - k]
            for k in range(len(theta)):
                if i - 1 - k >= 0:
                    ref[i] += theta[k] * w[i - 1 - k]
        return ref
    if z is None or not F.close(e, recursion(z * std), rtol=1e-9, atol=1e-12):
        distribution("arma", lambda: ARMA(n, **kw), lambda: recursion(std * r.normal(size=n)), ctx)


COLORS = {"violet": 2, "blue": 1, "white": 0, "pink": -1, "red": -2, "brown": -2}


def power_law(ch, ctx, r):
    from PyDynamic.misc.noise import power_law_noise, get_alpha
    n = ch.size(3, 41, 5000)
    color = ch.pick(sorted(COLORS) + [0.5, -1.7, 3, 0])
    alpha = COLORS[color] if isinstance(color, str) else float(color)
    mean, std = ch.pick([0.0, 3.0, -2.5]), ch.pick([1.0, 0.2, 7.0])
    own = ch.bool(0.4)
    kw = dict(color_value=color, mean=mean, std=std)
    ctx.desc = "power_law_noise N=%d color=%s mean=%g std=%g own=%s" % (n, color, mean, std, own)
    if get_alpha(color) != alpha:
        raise Violation("alpha", "%r is translated to %r" % (color, get_alpha(color)))
    if own:
        w = r.normal(size=n) * ch.pick([1.0, 100.0])
        w0 = w.copy()
        calls = HUB.rng_calls
        x = power_law_noise(w=w, **kw)
        if HUB.rng_calls != calls or not np.array_equal(w, w0):
            raise Violation("power-law-own-noise", "own white noise given, but random numbers drawn or input changed")
    else:
        x, rec = recorded(lambda: power_law_noise(N=n, **kw))
        w = rec.take(n)
        if np.shape(x) != (n,):
            raise Violation("power-law-length", "%s for N=%d" % (np.shape(x), n))
    if abs(np.mean(x) - mean) > 1e-9 * (abs(mean) + std) or abs(np.std(x) - std) > 1e-9 * std:
        raise Violation("power-law-moments", "mean %g std %g, requested %g and %g" % (np.mean(x), np.std(x), mean, std))

    def shaped(w):
        # direct evaluation of the shaped spectrum
        K = n // 2 + 1
        k = np.linspace(0, K, K) + 1
        W = np.exp(-2j * np.pi * np.outer(np.arange(K), np.arange(n)) / n).dot(w) * k ** (alpha / 2.0)
        y = np.zeros(n)
        t = np.arange(n)
        for j in range(K):
            c = 1.0 if j == 0 or (n % 2 == 0 and j == n // 2) else 2.0
            ph = 2 * np.pi * j * t / n
            y += c * ((W[j].real * np.cos(ph) - W[j].imag * np.sin(ph)) if c == 2.0 else W[j].real * np.cos(ph)) / n
        return mean + std * (y - y.mean()) / y.std()
    if own:
        equal("power-law-shape", x, shaped(w), ctx, rtol=1e-7)
    elif w is None or not F.close(x, shaped(w), rtol=1e-7, atol=1e-12):
        distribution("power-law-shape", lambda: power_law_noise(N=n, **kw), lambda: shaped(r.normal(size=n)), ctx)


def rejected(ch, ctx, r):
    from PyDynamic.misc.noise import get_alpha, power_law_noise
    ctx.desc = "rejected arguments"
    bad = ch.pick(["color", "both", "type"])
    try:
        if bad == "color":
            power_law_noise(N=10, color_value="ultraviolet")
        elif bad == "both":
            power_law_noise(N=10, w=np.ones(10))
        else:
            get_alpha(None)
    except (NotImplementedError, UserWarning, IOError):
        return
    raise Violation("accepted", "unusable arguments (%s) are accepted" % bad)


def white(ch, ctx, r):
    from PyDynamic.misc.noise import white_gaussian
    n = ch.size(1, 30, 5000)
    mean, std = ch.pick([0, 2.5]), ch.pick([1, 0.3])
    ctx.desc = "white_gaussian N=%d mean=%g std=%g" % (n, mean, std)
    x, rec = recorded(lambda: white_gaussian(n, mean=mean, std=std))
    z = rec.take(n)
    if np.shape(x) != (n,):
        raise Violation("white-length", "%s for N=%d" % (np.shape(x), n))
    if z is None or not F.close(x, mean + std * z, rtol=1e-9, atol=1e-12):
        distribution("white", lambda: white_gaussian(n, mean=mean, std=std),
                     lambda: mean + std * r.normal(size=n), ctx)


def test_signals(ch, ctx, r):
    from PyDynamic.misc import testsignals as T
    n = ch.size(2, 40, 3000)
    t = np.linspace(0, ch.pick([1.0, 5.0]), n)
    amp = r.uniform(0.5, 3)
    t0 = r.uniform(0, 1)
    kind = ch.pick(["shock", "gauss", "rect", "square", "sine", "multi"])
    pulses = ch.int(1, 5)
    amps, freqs = list(r.uniform(0.5, 2, 3)), list(r.uniform(1, 20, 3))
    if ch.bool(0.3):
        amps, freqs = np.array(amps), np.array(freqs)
    noise_arg = True

    def arg(nz):
        return dict(noise=nz) if noise_arg else {}
    fun = {
        "shock": lambda nz: T.shocklikeGaussian(t, t0, amp, 0.2, **arg(nz)),
        "gauss": lambda nz: T.GaussianPulse(t, t0, amp, 0.2, **arg(nz)),
        "rect": lambda nz: T.rect(t, t0, t0 + 0.4, height=amp, **arg(nz)),
        "square": lambda nz: T.squarepulse(t, amp, numpulse=pulses, **arg(nz)),
        "sine": lambda nz: T.sine(t, amp=amp, freq=r0, **arg(nz)),
        "multi": lambda nz: T.multi_sine(t, amps, freqs, **arg(nz)),
    }[kind]
    r0 = r.uniform(0.5, 5)
    noise = ch.pick([0.1, 2.0])
    ctx.desc = "%s n=%d noise=%g" % (kind, n, noise)
    clean = np.array(fun(0.0))
    noise_arg = False
    again = np.array(fun(0.0))
    noise_arg = True
    if not np.array_equal(clean, again):
        raise Violation("signal-not-clean", "%s without noise is not reproducible" % kind)
    width = (t[-1] - t[0]) / (2 * pulses + 1)
    squares = sum(amp * ((t > (2 * k + 1) * width) & (t <= (2 * k + 2) * width)) for k in range(pulses))
    pure = {
        "shock": -amp * (t - t0) / 0.2 * np.exp(0.5) * np.exp(-(t - t0) ** 2 / (2 * 0.2 ** 2)),
        "gauss": amp * np.exp(-(t - t0) ** 2 / (2 * 0.2 ** 2)),
        "rect": amp * ((t > t0) & (t <= t0 + 0.4)),
        "square": squares,
        "multi": sum(a_ * np.sin(f_ * t) for a_, f_ in zip(amps, freqs)),
        "sine": amp * np.sin(2 * np.pi * r0 * t),
    }[kind]
    if kind == "sine" and not F.close(clean, pure, rtol=1e-9, atol=1e-12):
        pure = amp * np.sin(2 * np.pi / r0 * t)      # the other reading of the argument freq
    if kind == "square":    # leave out the instants at which the steps are, up to rounding
        inner = np.abs(t / width - np.round(t / width)) > 1e-9
        equal("signal-" + kind, clean[inner], pure[inner], ctx)
    else:
        equal("signal-" + kind, clean, pure, ctx)
    x, rec = recorded(lambda: np.array(fun(noise)))
    z = rec.take(n)
    if x.shape != (n,):
        raise Violation("signal-length", "%s has shape %s for %d instants" % (kind, x.shape, n))
    if z is None or not F.close(x - clean, noise * z, rtol=1e-7, atol=1e-12):
        if np.array_equal(x, clean):
            raise Violation("signal-noise", "%s: no noise added" % kind)
        distribution("signal-noise", lambda: np.array(fun(noise)), lambda: clean + noise * r.normal(size=n), ctx)
    if kind == "rect":
        own = r.normal(size=n)
        equal("rect-own-noise", fun(own), clean + own, ctx)


def corr(ch, ctx, r):
    """several objects, interleaved use; each keeps its own random state"""
    from PyDynamic.misc.testsignals import corr_noise
    k = ch.int(1, 3)
    objs, states, pars = [], [], []
    for i in range(k):
        w, sigma, seed = r.uniform(0.1, 1), r.uniform(0.5, 3), ch.int(0, 5)
        objs.append(corr_noise(w, sigma, seed=seed))
        states.append(RealRandomState(seed))
        pars.append((w, sigma))
    last = [None] * k
    ctx.desc = "corr_noise with %d objects" % k
    for _ in range(ch.int(1, 8)):
        i = ch.int(0, k - 1)
        w, sigma = pars[i]
        cw = np.sqrt(sum(comb(4, l) ** 2 * w ** (2 * l) for l in range(5)))
        op = ch.wpick([("noise", 3), ("noise2", 2), ("cov", 2), ("acf", 1), ("global", 1)])
        if op == "cov" and (last[i] is None or last[i][0] != "noise"):
            op = "noise"
        if op == "acf" and (last[i] is None or len(last[i][1]) < 15):
            op = "noise2"
        ctx.event(op, i)
        g0 = HUB.cur().get_state()
        if op == "noise":
            n = ch.int(1, 20)
            x = objs[i].calc_noise(n)
            z = states[i].randn(n + 4)
            ref = np.array([sum(comb(4, l) * w ** l * z[j + 4 - l] for l in range(5)) for j in range(n)])
            equal("corr-noise", x, ref * sigma / cw, ctx)
            last[i] = ("noise", np.array(x))
        elif op == "noise2":
            n = ch.int(2, 20)
            x = objs[i].calc_noise2(n)
            z = states[i].randn(int(np.ceil(1.5 * n)))
            P = len(z)
            y = z * sigma
            K = np.zeros((P, P))
            for j in range(P):
                K[j, j] += 1
                K[j, j + 1 if j + 1 < P else P - 1] += w
                K[j, j - 1 if j > 0 else P - 1] += w
            taps = np.array([1.0])
            for _ in range(5):
                y = K.dot(y)
                taps = np.convolve(taps, [w, 1.0, w])
            equal("corr-noise2", x, (y / np.linalg.norm(taps))[:n], ctx)
            last[i] = ("noise2", np.array(x))
        elif op == "cov":
            n = len(last[i][1])
            S = objs[i].calc_cov()
            h = np.array([comb(4, l) * w ** l for l in range(5)]) * sigma / cw
            A = np.zeros((n, n + 4))
            for j in range(n):
                A[j, j:j + 5] = h[::-1]
            equal("corr-cov", S, A.dot(A.T), ctx)
        elif op == "acf":
            v = last[i][1]
            a_ = objs[i].calc_autocorr(lag=5)
            ref = [1.0] + [np.corrcoef(v[:-q], v[q:])[0, 1] for q in range(1, 5)]
            equal("corr-acf", a_, ref, ctx)
        else:
            np.random.randn(ch.int(1, 5))
            g0 = HUB.cur().get_state()
        g1 = HUB.cur().get_state()
        if not (np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:]):
            raise Violation("corr-global", "a seeded corr_noise object moves the global generator")


def run(ch, ctx):
    r = RealRandomState(ch.subseed())
    np.random.seed(ch.subseed())
    kind = ch.wpick([("arma", 5), ("power", 5), ("signals", 5), ("corr", 3), ("white", 1), ("rejected", 1)])
    ctx.nontrivial = kind != "rejected"
    if ch.bool(0.1):
        # fault: improbable random numbers
        HUB.override["randn"] = lambda *a: 6.0 * HUB.cur().randn(*a)
        HUB.override["normal"] = lambda loc=0.0, scale=1.0, size=None: loc + 6.0 * scale * HUB.cur().standard_normal(size)
        ctx.fault("extreme-draws")
    {"arma": arma, "power": power_law, "signals": test_signals, "corr": corr, "white": white,
     "rejected": rejected}[kind](ch, ctx, r)
    ctx.cover(ctx.desc, ctx.loghash.hexdigest() if kind == "corr" else "")
    ctx.event("ok", ctx.desc)
