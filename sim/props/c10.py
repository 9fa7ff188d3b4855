"""seeding NumPy's generator reproduces every stochastic call; nothing rewinds it"""
import multiprocessing

import numpy as np

from .. import catalog as C
from .. import oracle
from .. import umc_common as U
from ..core import Violation
from ..seams import HUB, STDOUT

BATCH = 10
PRISTINE = OTHER = None


def prepare():
    global PRISTINE, OTHER
    PRISTINE = oracle.Zygote()
    OTHER = oracle.Zygote(hashseed=4711, cpu=multiprocessing.cpu_count())


def state():
    s = HUB.cur().get_state()
    return (np.array(s[1]), s[2])


def ahead(a, b, limit=6000):
    """number of random words between two states of the generator, None if b is
    not reached by drawing from a"""
    rs = np.random.mtrand.RandomState(0)
    key, pos = a
    rs.set_state(("MT19937", key, pos))
    words = 0
    if np.array_equal(key, b[0]) and b[1] >= pos:
        return b[1] - pos
    rs.bytes(4 * (624 - pos))       # exhaust the block
    words = 624 - pos
    for _ in range(limit):
        rs.bytes(4)                 # first word of the next block regenerates the key
        s = rs.get_state()
        if np.array_equal(s[1], b[0]):
            return words + b[1] if b[1] >= 1 else None
        rs.bytes(4 * 623)
        words += 624
    return None


def stochastic(name, a):
    """does a call with these arguments have to depend on random numbers?"""
    if name in ("shocklikeGaussian", "GaussianPulse", "squarepulse", "sine", "multi_sine", "rect"):
        return isinstance(a.get("noise"), float) and a["noise"] > 0
    if name == "power_law_noise":
        return "N" in a
    if name in ("MC", "SMC", "UMC", "UMC_generic", "ARMA", "white_gaussian", "sos_realimag", "sos_absphase",
                "FreqResp2RealImag", "invLSIIR_unc", "invLSFIR_uncMC", "invLSFIR_unc"):
        return True
    if name == "fit_som":
        return a.get("MCruns") is not None and a.get("UH") is not None
    return False


def run(ch, ctx):
    rngs = C.names(rng=True, max_cost=3) * 4 + C.names(rng=False, max_cost=3)
    if ch.bool(0.01):
        rngs = ["invLSIIR_unc", "invLSFIR_uncMC"]
    name = ch.pick(rngs)
    spec = (name, ch.subseed(), ch.subseed(), ch.subseed())
    seed = ch.int(0, 2 ** 31)
    is_rng = C.OPS[name].rng
    pool = C.OPS[name].pool
    case = C.Case(*spec)
    ctx.desc = "seed %d: %s" % (seed, case.desc)
    sched = (lambda: U.schedule(ch, ctx, fork_p=0.0)) if pool else (lambda: None)

    def call(seed=None):
        c = C.Case(*spec)
        if seed is not None:
            np.random.seed(seed)
        sched()
        entropy, before = HUB.entropy_count, state()
        out, _ = C.outcome(c.call)
        after = state()
        if HUB.entropy_count != entropy:
            raise Violation("entropy", "the call reads the entropy of the operating system")
        d = ahead(before, after)
        if d is None:
            raise Violation("rewound", "the caller's generator is not ahead of its state before the call (re-seeded, "
                            "rewound or replaced)")
        if d and not is_rng:
            raise Violation("generator-used", "a function without random draws moves the caller's generator by %d words" % d)
        return out, after, d

    def compare(what, a, b):
        d = C.same(a[0], b[0])
        if d:
            raise Violation("not-reproducible", "%s: %s" % (what, d))
        if not (np.array_equal(a[1][0], b[1][0]) and a[1][1] == b[1][1]):
            raise Violation("generator-state", "%s: the caller's generator ends in another state" % what)

    first = call(seed)
    ctx.event(name, first[0][0], first[2])
    sto = stochastic(name, case.args) and first[0][0] == "returned"
    if first[2] == 0 and sto:
        raise Violation("own-generator", "a function with random draws does not use NumPy's global generator")
    # what happens in between must not matter
    for _ in range(ch.geom(0, 3)):
        kind = ch.pick(["other call", "time", "draw", "call again"])
        ctx.event(kind)
        if kind == "other call":
            other = C.Case(ch.pick(C.names(max_cost=3)), ch.subseed(), ch.subseed(), ch.subseed())
            C.outcome(other.call)
        elif kind == "time":
            HUB.clock += ch.pick([0.5, 3600.0, -1e6])
            ctx.fault("clock-jump")
        elif kind == "draw":
            np.random.standard_normal(ch.int(1, 5))
        else:
            again = call()
            if sto and not C.same(again[0], first[0]):
                raise Violation("not-fresh", "a call without seeding again repeats the result of an earlier one")
    second = call(seed)
    compare("same seed again", second, first)
    if sto:
        third = call()
        if not C.same(third[0], second[0]):
            raise Violation("not-fresh", "consecutive calls return the same result, random numbers are not fresh")
        fourth = call((seed + 1) % 2 ** 31)
        if not C.same(fourth[0], second[0]):
            raise Violation("seed-ignored", "another seed gives the same result")
    for what, z in (("in a new process", PRISTINE), ("in a new interpreter with another hash seed", OTHER)):
        if C.OPS[name].cost <= 3:
            out, st = z.ask(spec, seed)
            compare(what, first, (out, (np.array(st[1]), st[2])))
            ctx.probe(what)
    ctx.nontrivial = sto
    ctx.probe("stochastic", int(bool(sto)))
    ctx.probe("with simulated workers", int(bool(HUB.pools)))
    ctx.cover(spec, seed)
    ctx.event("ok")
