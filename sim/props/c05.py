"""random numbers inside parallel evaluations: never shared, reproducible by seed"""
import numpy as np

from .. import simpool
from .. import umc_common as U
from ..core import Violation
from ..seams import HUB
from ..simpool import POLICY

BATCH = 10


def floats(value, name="", args=(), kwargs=None):
    """random values of a draw; those of a distribution without any spread do not count"""
    if isinstance(value, (float, np.ndarray, np.floating)):
        v = np.asarray(value)
        if v.dtype.kind == "f":
            first = {"normal": "loc", "uniform": "low", "multivariate_normal": "mean"}.get(name)
            if first:
                fixed = args[0] if args else (kwargs or {}).get(first, 0.0)
                v = v[v != np.asarray(fixed, float)]
            return [float(x) for x in v.ravel()]
    return []


class NoisyModel(U.Evaluate):
    """uses several distributions of the global generator"""

    def __init__(self, seed, in_shape, out_shape, kind, dist):
        super().__init__(seed, in_shape, out_shape, kind)
        self.dist = dist

    def __call__(self, sample):
        y = self.pure(sample)
        if self.dist == "normal":
            e = np.random.standard_normal(y.shape)
        elif self.dist == "uniform":
            e = np.random.random_sample(y.shape)
        elif self.dist == "multivariate":
            e = np.random.multivariate_normal(np.zeros(y.size), np.eye(y.size)).reshape(y.shape)
        else:
            e = np.random.normal(0, 1) + np.random.uniform(size=y.shape)
        y = y + e
        simpool.SIDE.append((U.key(sample), y))
        return y


class Few(U.Draw):
    """most samples occur repeatedly"""

    def __call__(self, size):
        x = [np.round(v) for v in super().__call__(size)]
        return x if self.aslist else np.array(x)


def collect():
    """task log -> list of lists of floats drawn within an evaluation"""
    out = []
    for t in POLICY.task_log:
        out.append([x for (name, args, kwargs, v) in t["draws"] for x in floats(v, name, args, kwargs)])
    POLICY.task_log = []
    return out


def check_disjoint(groups, names):
    seen = {}
    for g, name in zip(groups, names):
        for v in g:
            if v in seen:
                raise Violation("shared-random-numbers", "%s and %s received the same random number %r" % (
                    seen[v], name, v))
        for v in g:
            seen[v] = name


def run(ch, ctx):
    umc = ch.bool(0.2)
    s = U.generate(ch, ctx, max_runs=24)
    s.n_cpu = ch.pick([2, 3, 4, 7])
    s.blocksize = max(s.blocksize, 2)
    s.kind = s.kind.replace("int", "lin").replace("round", "lin")
    dist = ch.pick(["normal", "uniform", "multivariate", "mixed"])
    seed = ch.int(0, 2 ** 31)
    fork_p = 0.3
    calls = []
    n_calls = ch.int(2, 3)
    ctx.desc = "umc=%s %s" % (umc, U.describe(s, "several"))
    if umc:
        from PyDynamic.uncertainty.propagate_MonteCarlo import UMC
        x = np.cos(np.arange(ch.int(2, 6)))
        b, a = np.array([0.4, 0.2, 0.1]), np.array([1.0, -0.3])
        Uab = np.diag([1e-4, 2e-4, 3e-4, 1e-4]) * ch.pick([1, 1, 0])    # 0: all evaluations have equal samples
        Delta = ch.pick([0.0, 0.1])
    few = ch.bool(0.2)
    par = False
    first = None
    for k in range(n_calls + 1):
        style = U.schedule(ch, ctx, fork_p=fork_p)
        POLICY.task_log = []
        POLICY.record_rng = True
        mine = []
        HUB.recorder = lambda name, a_, k_, v: mine.append(floats(v, name, a_, k_))
        if k < n_calls:
            np.random.seed(seed)
        if umc:
            res = U.no_deadlock(lambda: UMC(x, b, a, Uab, runs=s.runs, blocksize=s.blocksize,
                                            runs_init=s.runs_init, nbins=10, Delta=Delta))
            stats = [res[0], res[1], res[4][10]["bin-edges"], res[4][10]["bin-counts"]]
        else:
            s.n_cpu = ch.pick([2, 3, 4, 7])
            dr = (Few if few else U.Draw)(0, s.in_shape, s.tails, s.aslist, True)
            ev = NoisyModel(s.eval_seed, s.in_shape, s.out_shape, s.kind, dist)
            res = U.no_deadlock(lambda: U.call(s, ev, dr))
            stats = [res[0], res[1]]
            for nb in sorted(res[2]):
                stats += [res[2][nb]["bin-edges"], res[2][nb]["bin-counts"]]
            if s.return_samples:
                stats += [res[4]["samples"], res[4]["results"]]
        HUB.recorder = None
        state = HUB.cur().get_state()
        groups = collect()
        U.evaluations()
        if groups:
            par = True
        mine = [x for g in mine for x in g]
        names = ["evaluation %d of call %d" % (i, k) for i in range(len(groups))]
        if k < n_calls:
            check_disjoint(groups + [mine], names + ["the drawing of samples"])
            allv = groups + [mine]
        else:
            # continues without seeding: everything is fresh
            check_disjoint(prev + groups + [mine], ["the previous call"] * len(prev) + names + ["drawing"])
            break
        prev = allv
        prev = [sorted({x for g in prev for x in g})]
        now = [np.asarray(v, float) for v in stats]
        if first is None:
            first, first_state = now, state
        else:
            for v, w in zip(first, now):
                if v.shape != w.shape or not np.allclose(v, w, rtol=1e-9, atol=1e-12):
                    raise Violation("not-reproducible", "same seed, other schedule or number of workers "
                                    "(call %d, n_cpu %s): other result" % (k, s.n_cpu))
            if not (np.array_equal(first_state[1], state[1]) and first_state[2] == state[2]):
                raise Violation("generator-state", "same seed, other schedule: the generator of the caller "
                                "is left in another state")
        ctx.cover(style, s.n_cpu)
    U.completion_signature(ctx)
    ctx.cover(s.runs, s.blocksize, dist, umc)
    ctx.nontrivial = par and s.runs > 1
    ctx.probe("parallel", int(par))
    ctx.probe("forked workers", int(POLICY.mode == "fork"))
    ctx.probe("UMC", int(umc))
    ctx.event("ok")
