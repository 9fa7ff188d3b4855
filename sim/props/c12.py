"""results depend on the arguments only, arguments and earlier results stay as they are"""
import numpy as np

from .. import catalog as C
from .. import oracle
from .. import umc_common as U
from ..core import Violation
from ..seams import HUB

BATCH = 2
PRISTINE = None
BROKEN = ("none", "text", "short", "nan")


def prepare():
    global PRISTINE
    PRISTINE = oracle.Zygote()


def arrays(v, depth=0):
    """writable arrays inside a result"""
    if isinstance(v, np.ndarray):
        return [v] if v.flags.writeable and v.dtype.kind in "fc" else []
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)) and depth < 4:
        return [x for e in v for x in arrays(e, depth + 1)]
    return []


def run(ch, ctx):
    pool = C.names(max_cost=3)
    live = []        # (spec, case, number of calls)
    kept = []        # (step, frozen outcome, raw result)
    focus = ch.pick(pool) if ch.bool(0.6) else None
    steps = ch.size(2, 9, 30)
    g0 = C.global_state()
    names = []
    for step in range(steps):
        kind = ch.wpick([("new", 4), ("repeat", 2), ("edited", 3), ("sibling", 5), ("broken", 2)])
        if not live:
            kind = "new"
        if kind == "new":
            name = focus if focus and ch.bool(0.7) else ch.pick(pool)
            spec = [name, ch.subseed(), ch.subseed(), ch.subseed(), None, []]
            case = C.Case(*spec)
            live.append((spec, case))
        else:
            spec, case = live[ch.int(0, len(live) - 1)]
            if kind == "edited":          # the same objects with other content
                e = (ch.int(0, 11), ch.pick(["scale", "element"]))
                kept = [k for k in kept if k[3] is not case]
                case.edit(*e)
                spec[5].append(e)
            elif kind == "sibling":       # some arguments equal, some not
                spec = [spec[0], spec[1], spec[2], ch.subseed() if ch.bool(0.6) else spec[3],
                        (spec[2] if ch.bool(0.5) else ch.subseed(), ch.subseed(), ch.int(0, 4095)), []]
                case = C.Case(*spec)
                live.append((spec, case))
            elif kind == "broken":
                spec = spec[:4] + [spec[4], spec[5] + [(ch.int(0, 11), ch.pick(BROKEN))]]
                case = C.Case(*spec)
                ctx.fault("unusable-argument")
        name = spec[0]
        seed = ch.int(0, 2 ** 31)
        before = C.args_state(case.args)
        np.random.seed(seed)
        if case.op.pool:
            U.schedule(ch, ctx, fork_p=0.0)
        out, raw = C.outcome(case.call)
        names.append(name)
        ctx.desc = "step %d (%s) after %s: %s" % (step, kind, names[:-1], case.desc)
        ctx.event(kind, name, out[0], out[1] if out[0] == "raised" else "")
        d = C.same(C.args_state(case.args), before, exact=True)
        if d:
            raise Violation("argument-modified", "%s modifies its argument %s" % (name, d))
        d = C.global_diff(C.global_state(), g0)
        if d:
            raise Violation("left-behind", "%s changes %s" % (name, d))
        want, st = PRISTINE.ask(tuple(spec), seed)
        d = C.same(out, want)
        if d:
            raise Violation("history-dependent", "%s returns something else than in a new process: %s" % (name, d))
        now = HUB.cur().get_state()
        if not (np.array_equal(now[1], st[1]) and now[2] == st[2]):
            raise Violation("history-generator", "%s uses other random numbers than in a new process" % name)
        for k in kept:
            d = C.same(C.freeze(k[2]), k[1][1], exact=True)
            if d:
                raise Violation("result-changed", "the result of step %d changed during step %d (%s): %s" % (
                    k[0], step, name, d))
        if out[0] == "returned":
            if ch.bool(0.3):
                # the user works with what was returned
                own = [a for a in arrays(raw) if not any(
                    isinstance(x, np.ndarray) and np.may_share_memory(a, x)
                    for _, c in live + [(0, case)] for x in list(c.args.values()) + [k[2] for k in kept])]
                hit = [k for k in kept if any(np.may_share_memory(a, x) for a in own for x in arrays(k[2]))]
                if hit:
                    raise Violation("shared-result", "%s returns memory that belongs to the result of step %d" % (name, hit[0][0]))
                for a in own:
                    a[...] = -77.0
            else:
                kept.append((step, out, raw, case))
        ctx.cover(kind, name, tuple(map(str, spec)))
    ctx.nontrivial = steps > 1
    ctx.event("ok")
