"""Workload generator for the update Monte Carlo engine (UMC_generic)."""
import numpy as np

from . import simpool
from .core import Violation
from .seams import HUB, RealRandomState, STDOUT
from .simpool import POLICY


class Evaluate:
    """picklable stand-in for a measurement model; logs every evaluation"""

    def __init__(self, seed, in_shape, out_shape, kind, noise=0.0, fail=None, log=True):
        r = RealRandomState(seed)
        self.out_shape = out_shape
        self.kind = kind
        n_in = int(np.prod(in_shape)) if in_shape else 1
        n_out = int(np.prod(out_shape))
        self.A = r.uniform(-1, 1, (n_out, n_in))
        self.c = r.uniform(-2, 2, n_out)
        if "offset" in kind:
            self.c += 1e7 if "far" in kind else 1e3
        self.noise = noise
        self.fail = fail          # (key bytes, exception) -> raise for that sample
        self.log = log

    def pure(self, sample):
        v = np.asarray(sample, dtype=float).ravel()
        y = self.A.dot(v) + self.c
        if "cubic" in self.kind:
            y = y + 0.2 * y ** 3 / (1 + np.abs(y))
        if "const" in self.kind:
            y[0] = 1.25
        if "round" in self.kind:
            y = np.round(y, 1)
        y = y.reshape(self.out_shape)
        if "mixed" in self.kind and v[0] > -0.5:
            y = np.round(y).astype(int)     # whole numbers for most samples only
        if "int" in self.kind:
            y = np.round(10 * y).astype(int)
        return y

    def __call__(self, sample):
        key = np.ascontiguousarray(sample, dtype=float).tobytes()
        if self.fail is not None and self.fail[0] == key:
            what = self.fail[1]
            if self.log:
                simpool.SIDE.append((key, "failed"))
            if what == "crash":
                raise simpool.WorkerCrash()
            raise what
        y = self.pure(sample)
        if self.noise:
            y = y + self.noise * np.random.standard_normal(y.shape)
        if self.log:
            simpool.SIDE.append((key, y))
        return y


class Draw:
    """draw_samples; records sizes and samples; heavy tails beyond the start"""

    def __init__(self, seed, shape, tails, aslist, use_global):
        self.rs = RealRandomState(seed)
        self.shape, self.tails, self.aslist, self.use_global = shape, tails, aslist, use_global
        self.sizes = []
        self.samples = []
        self.fail = None          # nth call raises

    def __call__(self, size):
        if self.fail is not None and len(self.sizes) == self.fail[0]:
            self.sizes.append(0)
            raise self.fail[1]
        self.sizes.append(int(size))
        if self.use_global:
            x = np.random.normal(0, 1, (size,) + self.shape)
        else:
            x = self.rs.normal(0, 1, (size,) + self.shape)
        if self.tails:
            x = x * np.exp(self.tails * np.abs(x))
        for s in x:
            self.samples.append(np.array(s, dtype=float))
        return list(x) if self.aslist else x


class Setup:
    pass


def generate(ch, ctx, stochastic=False, max_runs=60):
    s = Setup()
    s.runs = ch.wpick([(None, 6), (1, 1), (2, 1), (3, 1)]) or ch.size(1, max_runs, 6 * max_runs, 0.03)
    s.blocksize = ch.wpick([(None, 5), (1, 1), (s.runs, 1), (s.runs + 3, 1)]) or ch.size(1, 16, 150, 0.03)
    s.runs_init = ch.size(1, 12, 150, 0.03)
    nb = ch.wpick([(0, 3), (1, 2), (2, 2)])
    if nb == 0:
        s.nbins = ch.int(1, 12)
    elif nb == 1:
        s.nbins = [ch.int(1, 40)]
    else:
        k = ch.int(2, 3)
        s.nbins = []
        while len(s.nbins) < k:
            v = ch.int(1, 30)
            while v in s.nbins:
                v += 1
            s.nbins.append(v)
    s.return_samples = ch.bool(0.5)
    s.n_cpu = ch.wpick([(1, 2), (2, 3), (3, 2), (5, 1), (None, 3)])
    s.in_shape = ch.pick([(2,), (1,), (3,), (2, 3), (4,)])
    s.out_shape = ch.pick([(2,), (1,), (3,), (2, 2), (5,), (1, 3), (2, 1, 2)])
    s.kind = ch.wpick([("lin", 3), ("cubic", 3), ("const", 1), ("round", 1), ("int", 1),
                       ("cubic-offset", 1), ("mixed", 1), ("lin-offset-far", 1)])
    s.tails = ch.pick([0.0, 0.3, 1.0])
    s.aslist = ch.bool(0.3)
    s.use_global = ch.bool(0.5)
    s.eval_seed, s.draw_seed = ch.subseed(), ch.subseed()
    s.noise = 0.0
    if stochastic:
        s.noise = ch.pick([0.5, 2.0])
    return s


class Many:
    """draws of a call with a large number of cheap evaluations"""

    def __init__(self, seed, n):
        self.rs, self.n, self.X = RealRandomState(seed), n, []

    def __call__(self, size):
        self.X.append(self.rs.normal(0.3, 1, (size, self.n)))
        return self.X[-1]


def many(ch, ctx, most=70000):
    """a call with more runs than the other cases: s, initial and main results, returned values"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import UMC_generic
    s = Setup()
    s.runs = min(most, ch.wpick([(300, 8), (1100, 4), (4200, 2), (20000, 1), (70000, 1)])) + ch.int(0, 9)
    s.blocksize = max(1, s.runs // ch.pick([1, 2, 7, 30]) - ch.int(0, 5))
    s.runs_init, s.nbins, s.return_samples = ch.int(1, 9), ch.pick([1, 2, 5]), ch.bool(0.3)
    n = ch.int(1, 2)
    f = ch.pick([np.sign, np.square, np.round])
    dr = Many(ch.subseed(), n)
    s.in_shape = s.out_shape = (n,)
    s.n_cpu = 1
    ctx.desc = "UMC_generic runs=%d blocksize=%d runs_init=%d nbins=%d n=%d model=%s" % (
        s.runs, s.blocksize, s.runs_init, s.nbins, n, f.__name__)
    res = UMC_generic(dr, f, runs=s.runs, blocksize=s.blocksize, runs_init=s.runs_init, nbins=s.nbins,
                      n_cpu=1, return_samples=s.return_samples)
    X = np.vstack(dr.X)
    if len(X) != s.runs_init + s.runs:
        raise Violation("samples-drawn", "%d samples drawn for runs_init=%d and runs=%d" % (len(X), s.runs_init, s.runs))
    Y = f(X)
    ctx.cover("many", s.runs, s.blocksize, f.__name__)
    ctx.probe("more than 32767 evaluations", int(s.runs > 32767))
    ctx.nontrivial = True
    return s, X[s.runs_init:], Y[:s.runs_init], Y[s.runs_init:], res


def schedule(ch, ctx, fork_p=0.1):
    """random durations decide the completion order"""
    POLICY.mode = "fork" if ch.bool(fork_p) else "inproc"
    style = ch.wpick([("random", 5), ("equal", 1), ("decreasing", 1), ("slow-one", 2)])
    state = {"n": 0}
    slow_at = ch.int(0, 12) if style == "slow-one" else None

    def durations():
        state["n"] += 1
        if style == "equal":
            return 1.0
        if style == "decreasing":
            return 1.0 + 50.0 / state["n"]
        if style == "slow-one" and state["n"] - 1 == slow_at:
            ctx.fault("stalled-worker")
            return 5000.0
        return 0.1 + ch.int(0, 63) / 8.0

    POLICY.durations = durations
    return style


def call(s, ev, dr, **over):
    from PyDynamic.uncertainty.propagate_MonteCarlo import UMC_generic
    kw = dict(runs=s.runs, blocksize=s.blocksize, runs_init=s.runs_init, nbins=s.nbins,
              return_samples=s.return_samples)
    if s.n_cpu is not None:
        kw["n_cpu"] = s.n_cpu
    kw.update(over)
    if isinstance(kw["nbins"], list):
        kw["nbins"] = list(kw["nbins"])
    return UMC_generic(dr, ev, **kw)


def evaluations():
    """(key, result) of every evaluation so far, drained"""
    got = list(simpool.SIDE)
    del simpool.SIDE[:]
    return got


def key(sample):
    return np.ascontiguousarray(sample, dtype=float).tobytes()


def completion_signature(ctx):
    ctx.cover([l for l in ctx.log if "done" in l or "dies" in l or "pool" in l])


def describe(s, style):
    return ("UMC_generic runs=%d blocksize=%d runs_init=%d nbins=%s n_cpu=%s return_samples=%s "
            "in=%s out=%s model=%s tails=%s draws=%s%s schedule=%s workers=%s" % (
                s.runs, s.blocksize, s.runs_init, s.nbins, s.n_cpu, s.return_samples,
                s.in_shape, s.out_shape, s.kind, s.tails, "list" if s.aslist else "array",
                ",global rng" if s.use_global else "", style, POLICY.mode))


def main_results(s, dr, evs):
    """results belonging to the samples of the main phase, in the order of drawing"""
    by_key = {}
    for k, r in evs:
        by_key.setdefault(k, []).append(r)
    out = []
    for smp in dr.samples[s.runs_init:]:
        lst = by_key.get(key(smp))
        if not lst:
            return None
        out.append(np.asarray(lst[0], dtype=float).ravel())
    return np.array(out)


def no_deadlock(fn):
    try:
        return fn()
    except simpool.SimDeadlock as e:
        raise Violation("hang", "the call waits forever: %s" % e)
