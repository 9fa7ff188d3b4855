"""failures during UMC_generic / UMC surface, nothing hangs, workers are released"""
import numpy as np

from .. import simpool
from .. import umc_common as U
from ..core import Violation
from ..seams import HUB, STDOUT
from ..simpool import POLICY
from .c02 import check_accounting

BATCH = 10


class ModelError(Exception):
    pass


EXC = [ModelError, ValueError, MemoryError, ZeroDivisionError, OSError, RuntimeError, StopIteration]


def released(ctx, when):
    for p in HUB.pools:
        if p.alive:
            raise Violation("workers-left", "%d worker(s) of a %s pool of size %d are alive after the call %s" % (
                p.alive, p.kind, p.size, when))


def plan_fault(ch, ctx, s, dr, ev, kinds):
    """arms one fault; returns (kind, state) where state['fired'] tells whether it hit"""
    kind = ch.wpick(kinds)
    st = {"fired": False, "exc": None}
    total = s.runs_init + s.runs
    if kind == "draw":
        exc = ch.pick(EXC)("draw failed", 17)
        n = 0 if ch.bool(0.3) else ch.int(0, 1 + -(-s.runs // s.blocksize))
        dr.fail = (n, exc)
        st["exc"] = exc
        st["where"] = "draw %d" % n
    elif kind == "evaluate":
        # the sample at this position of the stream makes the model raise
        n = ch.int(0, total - 1)
        exc = ch.pick(EXC)("model failed", 4711)
        st["exc"] = exc
        st["n"] = n
        st["where"] = "evaluation of sample %d" % n
    elif kind == "crash":
        n = ch.int(0, total - 1)
        how = ch.pick(["before", "after"])
        st["where"] = "worker dies %s evaluation %d" % (how, n)

        def crash(no):
            if no - st.get("base", 0) == n and not st["fired"]:
                st["fired"] = True
                ctx.fault("worker-crash-" + how)
                return how
            return None
        POLICY.crash = crash
    elif kind == "interrupt":
        n = ch.int(0, total - 1) if ch.bool(0.5) else ch.int(0, 3)
        st["exc"] = KeyboardInterrupt()
        st["where"] = "interrupt at wait %d" % n

        def interrupt(no):
            if no - st.get("waits", 0) == n and not st["fired"]:
                st["fired"] = True
                ctx.fault("interrupt-while-waiting")
                return True
            return False
        POLICY.interrupt = interrupt
    elif kind == "stdout":
        n = ch.int(1, 6) if ch.bool(0.5) else ch.int(1, 3 * total)
        exc = ch.pick([BrokenPipeError, OSError, ValueError])
        st["where"] = "write %d to stdout fails" % n

        def make():
            st["fired"] = True
            ctx.fault("stdout-write-error")
            return exc("stdout is gone")
        STDOUT.fail_at = (n, make)
    return kind, st


class FailAt:
    """draw_samples wrapper that marks one sample of the stream as poisonous"""

    def __init__(self, dr, ev, n, exc):
        self.dr, self.ev, self.n, self.exc = dr, ev, n, exc

    def __call__(self, size):
        before = len(self.dr.samples)
        x = self.dr(size)
        if before <= self.n < len(self.dr.samples):
            self.ev.fail = (U.key(self.dr.samples[self.n]), self.exc)
        return x


def faulty_call(ctx, kind, st, fn):
    """returns ('returned', value) or ('raised', exception)"""
    try:
        try:
            return "returned", fn()
        except simpool.SimDeadlock as e:
            raise Violation("hang", "after a fault (%s) the call waits forever: %s" % (st.get("where"), e))
    except Violation:
        raise
    except BaseException as e:
        return "raised", e


def judge(ctx, kind, st, how, val):
    if kind in ("draw", "evaluate"):
        if st["fired"]:
            if how != "raised":
                raise Violation("swallowed", "%s raised, but the call returned" % st["where"])
            if isinstance(st["exc"], StopIteration) and isinstance(val, RuntimeError):
                val = val.__cause__      # what generators make of it (PEP 479)
            if type(val) is not type(st["exc"]) or val.args != st["exc"].args:
                raise Violation("other-exception", "%s raised %r, the call raised %r" % (
                    st["where"], st["exc"], val))
    elif kind == "interrupt" and st["fired"]:
        if how != "raised" or not isinstance(val, KeyboardInterrupt):
            raise Violation("interrupt-lost", "%s: %s %r" % (st["where"], how, val if how == "raised" else ""))
    elif kind == "crash" and st["fired"]:
        if how != "raised":
            raise Violation("crash-swallowed", "%s, but the call returned a result" % st["where"])
    if how == "raised" and not st["fired"]:
        raise val
    ctx.event("outcome", kind, st.get("where"), how, type(val).__name__ if how == "raised" else "")


def run_generic(ch, ctx):
    s = U.generate(ch, ctx, max_runs=40)
    style = U.schedule(ch, ctx, fork_p=0.12)
    ev = U.Evaluate(s.eval_seed, s.in_shape, s.out_shape, s.kind)
    dr = U.Draw(s.draw_seed, s.in_shape, s.tails, s.aslist, s.use_global)
    par = s.n_cpu != 1 and not (s.n_cpu is None and simpool.multiprocessing.cpu_count() == 1)
    kinds = [("evaluate", 4), ("draw", 2), ("stdout", 1)]
    if par:
        kinds += [("crash", 4), ("interrupt", 3)]
    kinds += [("none", 1)]
    kind, st = plan_fault(ch, ctx, s, dr, ev, kinds)
    draw = dr
    if kind == "evaluate":
        draw = FailAt(dr, ev, st["n"], st["exc"])
    ctx.desc = U.describe(s, style) + " fault=%s" % st.get("where", "none")
    how, val = faulty_call(ctx, kind, st, lambda: U.call(s, ev, draw))
    POLICY.crash = lambda no: None
    POLICY.interrupt = lambda no: False
    STDOUT.fail_at = None
    if kind == "evaluate" and ev.fail is not None:
        st["fired"] = True
        ctx.fault("model-raises")
    if kind == "draw" and len(dr.sizes) > dr.fail[0]:
        st["fired"] = True
        ctx.fault("draw-raises")
    judge(ctx, kind, st, how, val)
    released(ctx, "ended with %s" % (type(val).__name__ if how == "raised" else "a result"))
    U.completion_signature(ctx)
    ctx.cover(s.runs, s.blocksize, s.n_cpu, kind, st.get("where"))
    ctx.nontrivial = st["fired"]
    evs = U.evaluations()
    if how == "returned":
        check_accounting(s, dr, evs, val)
    # the same call without a fault
    dr2 = U.Draw(s.draw_seed, s.in_shape, s.tails, s.aslist, False)
    ev2 = U.Evaluate(s.eval_seed, s.in_shape, s.out_shape, s.kind)
    res = U.no_deadlock(lambda: U.call(s, ev2, dr2))
    check_accounting(s, dr2, U.evaluations(), res)
    released(ctx, "without a fault")


def run_umc(ch, ctx):
    from PyDynamic.uncertainty.propagate_MonteCarlo import UMC

    class S:
        pass
    s = S()
    s.runs, s.blocksize, s.runs_init = ch.int(1, 30), ch.int(2, 9), ch.int(2, 6)
    U.schedule(ch, ctx, fork_p=0.1)
    x = np.sin(np.arange(ch.int(3, 8)))
    b, a = np.array([0.4, 0.2]), np.array([1.0, -0.3])
    Uab = np.diag([1e-4, 2e-4, 3e-4])

    def call():
        np.random.seed(77)
        return UMC(x, b, a, Uab, runs=s.runs, blocksize=s.blocksize, runs_init=s.runs_init, nbins=20)
    base = U.no_deadlock(call)
    released(ctx, "UMC without a fault")
    par = any(p.submitted for p in HUB.pools)
    kinds = [("stdout", 1)] + ([("crash", 3), ("interrupt", 3)] if par else [])
    kind, st = plan_fault(ch, ctx, s, None, None, kinds)
    st["base"], st["waits"] = POLICY.tasks, POLICY.waits
    ctx.desc = "UMC runs=%d blocksize=%d runs_init=%d fault=%s" % (s.runs, s.blocksize, s.runs_init, st.get("where"))
    how, val = faulty_call(ctx, kind, st, call)
    POLICY.crash = lambda no: None
    POLICY.interrupt = lambda no: False
    STDOUT.fail_at = None
    judge(ctx, kind, st, how, val)
    released(ctx, "of UMC ended with %s" % (type(val).__name__ if how == "raised" else "a result"))
    ctx.cover("umc", s.runs, s.blocksize, kind, st.get("where"))
    U.completion_signature(ctx)
    ctx.nontrivial = st["fired"]
    again = U.no_deadlock(call)
    for r, what in ((val, "faulted"), (again, "repeated")):
        if r is val and how != "returned":
            continue
        for i in range(4):
            if not np.allclose(r[i], base[i], rtol=1e-9, atol=1e-12):
                raise Violation("umc-result", "%s call of UMC gives another result" % what)


def run(ch, ctx):
    if ch.bool(0.15):
        run_umc(ch, ctx)
    else:
        run_generic(ch, ctx)
    ctx.event("ok")
