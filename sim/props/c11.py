"""concurrent calls in several threads return what they return one after another"""
from .. import catalog as C
from .. import oracle, threads
from ..core import Violation
from ..seams import HUB, RealRandomState

BATCH = 5
PRISTINE = None
STYLES = ["dense", "dense", "sparse", "sparse", "wide", "meet", "meet", "meet"]
SWITCHES = [8, 2, 30, 120]


def prepare():
    global PRISTINE
    PRISTINE = oracle.Zygote()


def run(ch, ctx):
    n = ch.wpick([(2, 3), (3, 1)])
    pool = C.names(max_cost=1, pool=False)
    style = ch.pick(STYLES)
    specs = []
    first = ch.pick(pool)
    s = ch.subseed()
    o, v = ch.subseed(), ch.subseed()
    specs.append((first, s, o, v))
    shared = False
    for _ in range(n - 1):
        rel = ch.wpick([("sibling values", 3), ("sibling", 3), ("same object", 2), ("same function", 2), ("other", 3)])
        if rel == "sibling values":
            specs.append((first, s, o, ch.subseed()))
        elif rel == "sibling":
            specs.append((first, s, ch.subseed(), ch.subseed()))
        elif rel == "same object":
            specs.append(specs[0])
            shared = True
        elif rel == "same function":
            specs.append((first, ch.subseed(), ch.subseed(), ch.subseed()))
        else:
            specs.append((ch.pick(pool), ch.subseed(), ch.subseed(), ch.subseed()))
    seeds = [ch.int(0, 2 ** 31) for _ in specs]
    switches = ch.pick(SWITCHES)
    cases, by = [], {}
    for sp in specs:
        if sp in by:
            cases.append(by[sp])       # the same argument objects in two threads
        else:
            by[sp] = C.Case(*sp)
            cases.append(by[sp])
    before = [C.args_state(c.args) for c in cases]
    g0 = C.global_state()
    ctx.desc = " || ".join(c.desc for c in cases)
    wanted = [PRISTINE.ask(sp, k) for sp, k in zip(specs, seeds)]
    nontrivial, known = 0, None
    for turn in range(ch.pick([10, 10, 1])):
        if turn:
            style, switches = ch.pick(STYLES), ch.pick(SWITCHES)
        states = [RealRandomState(k) for k in seeds]
        outs, sched = threads.interleave([lambda c=c: C.outcome(c.call) for c in cases], states, ch, ctx, style, switches,
                                         known)
        known = sched.places
        for i, (c, (want, st)) in enumerate(zip(cases, wanted)):
            ctx.event(i, c.name, outs[i][0][0])
            d = C.same(outs[i][0], want)
            if d:
                raise Violation("thread-interference", "thread %d, %s: %s" % (i, c.name, d))
            now = states[i].get_state()
            if not ((now[1] == st[1]).all() and now[2] == st[2]):
                raise Violation("thread-generator", "thread %d, %s: other random numbers used" % (i, c.name))
            d = C.same(C.args_state(c.args), before[i], exact=True)
            if d:
                raise Violation("shared-argument", "thread %d, %s: argument %s" % (i, c.name, d))
        d = C.global_diff(C.global_state(), g0)
        if d:
            raise Violation("left-behind", "%s differ after the calls" % d)
        ctx.steps += sum(sched.events)
        ctx.fault("preemption", len(sched.trace))
        ctx.cover([c.name for c in cases], sched.trace)
        nontrivial += len(sched.trace) >= 1
        ctx.probe("rendezvous", int(style == "meet"))
    ctx.probe("argument objects shared by threads", int(shared))
    ctx.nontrivial = nontrivial > 0
    ctx.event("ok")
