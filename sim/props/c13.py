"""an exception, an interrupt or a failing allocation at any point of a call"""
import numpy as np

from .. import catalog as C
from .. import faults, oracle
from ..core import Violation
from ..seams import HUB, STDOUT

BATCH = 6
PRISTINE = ALLOC = None


def prepare():
    global PRISTINE, ALLOC
    PRISTINE = oracle.Zygote()
    ALLOC = faults.Alloc()


def guarded(fn):
    """outcome of a call, including exceptions that are not Exceptions"""
    try:
        return C.outcome(fn)[0]
    except BaseException as e:
        return ("raised", type(e).__name__)


def check(what, out, want, case, before, g0, memory):
    if out[0] == "returned":
        d = C.same(faults.join_blocks(out, want) if memory else out, want)
        if d:
            return ("wrong-result", "%s, but the call returned something else than without fault: %s" % (what, d))
    d = C.same(C.args_state(case.args), before, exact=True)
    if d:
        return ("argument-modified", "%s: afterwards argument %s" % (what, d))
    d = C.global_diff(C.global_state(), g0)
    if d:
        return ("left-behind", "%s: afterwards %s differ" % (what, d))
    return None


def retry(what, case, spec, seed, want):
    np.random.seed(seed)
    out = guarded(case.call)
    d = C.same(out, want)
    if d:
        return ("not-repeatable", "%s: the same call without fault afterwards: %s" % (what, d))
    return None


def run(ch, ctx):
    kind = ch.wpick([("interrupt", 4), ("memory", 3), ("alloc", 3), ("alloc-persistent", 2), ("stdout", 2)])
    pool = C.names(max_cost=3)
    if kind == "stdout":
        pool = ["MC", "UMC", "UMC_generic", "make_semiposdef", "invLSFIR_unc", "print_vec", "print_mat", "LSFIR", "LSIIR",
                "GUM_DFT", "fit_som", "FreqResp2RealImag", "Signal"]
    name = ch.pick(pool)
    spec = (name, ch.subseed(), ch.subseed(), ch.subseed())
    seed = ch.int(0, 2 ** 31)
    want, _ = PRISTINE.ask(spec, seed)
    case = C.Case(*spec)
    before = C.args_state(case.args)
    g0 = C.global_state()
    ctx.desc = "%s in %s" % (kind, case.desc)
    hit = False

    def seeded():
        np.random.seed(seed)
        return C.Case(*spec).call()

    bad = None
    if kind in ("interrupt", "memory"):
        probe = faults.Lines()
        guarded(lambda: probe.run(seeded))
        if not probe.order:
            return
        where = {}
        for k in probe.order:
            where.setdefault(probe.function[k], []).append(k)
        desc = ctx.desc
        for _ in range(ch.int(1, 8)):
            lines = where[ch.pick(sorted(where))] if ch.bool(0.5) else probe.order
            line = lines[ch.int(0, len(lines) - 1)]
            n = probe.seen[line]
            nth = ch.wpick([(1, 3), (n, 2), (None, 2)]) or ch.int(1, n)
            exc = KeyboardInterrupt() if kind == "interrupt" else MemoryError("simulated")
            what = "%s before line %s:%d, execution %d of %d" % (type(exc).__name__, line[0].rsplit("/", 1)[-1], line[1], nth, n)
            inj = faults.Lines((line, nth), exc)
            np.random.seed(seed)
            out = guarded(lambda: inj.run(case.call))
            ctx.event(what, out[0], out[1] if out[0] == "raised" else "")
            if inj.hit:
                hit = True
                ctx.fault(kind)
            bad = check(what, out, want, case, before, g0, kind == "memory")
            if bad is None:
                bad = retry(what, case, spec, seed, want)
            ctx.cover(line[0].rsplit("/", 1)[-1], line[1], nth, name)
            ctx.desc = desc + "; " + what
            if bad is not None:
                break
    elif kind.startswith("alloc"):
        sticky = int(kind == "alloc-persistent")

        def first():
            np.random.seed(seed)
            guarded(lambda: ALLOC.count(C.Case(*spec).call))
            return ALLOC.lib.shim_seen()
        n = faults.in_fork(first)
        if not n:
            return
        nth = ch.int(0, n - 1)
        what = "allocation %d of %d fails%s" % (nth + 1, n, " and all later ones" if sticky else "")

        def second():
            np.random.seed(seed)

            def armed():
                ALLOC.arm(nth, sticky)
                try:
                    return case.call()
                finally:
                    ALLOC.disarm()
            out = guarded(armed)
            hits = ALLOC.disarm()
            bad = check(what, out, want, case, before, g0, True)
            if bad is None:
                bad = retry(what, case, spec, seed, want)
            return hits, out[0], out[1] if out[0] == "raised" else "", bad
        res = faults.in_fork(second)
        if res is None:
            ctx.probe("runtime did not survive the failed allocation")
            ctx.event("died")
            return
        hit = res[0] > 0
        ctx.event(what, *res[:3])
        bad = res[3]
        ctx.cover(name, nth, n, sticky)
        ctx.desc += "; " + what
    else:
        STDOUT.chunks = []
        guarded(seeded)
        n = len(STDOUT.chunks)
        STDOUT.chunks = None
        if not n:
            return
        nth = ch.int(1, n)
        what = "write %d of %d to stdout fails" % (nth, n)
        STDOUT.fail_at = (nth, lambda: OSError(28, "No space left on device"))
        np.random.seed(seed)
        out = guarded(case.call)
        hit = STDOUT.fail_at is None
        STDOUT.fail_at = None
        ctx.event(what, out[0], out[1] if out[0] == "raised" else "")
        bad = check(what, out, want, case, before, g0, False)
        if bad is None:
            bad = retry(what, case, spec, seed, want)
        ctx.cover(name, nth, n)
        ctx.desc += "; " + what
    if bad is not None:
        raise Violation(bad[0], "%s: %s" % (name, bad[1]))
    if any(p.alive for p in HUB.pools):
        raise Violation("left-behind", "%s: %s: workers stay alive" % (name, what))
    if hit and kind not in ("interrupt", "memory"):
        ctx.fault(kind)
    ctx.nontrivial = hit
    ctx.event("ok")
