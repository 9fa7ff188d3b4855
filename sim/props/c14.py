"""DFT propagation when the memory for parts of the result is missing"""
import numpy as np

from .. import catalog as C
from .. import faults
from ..core import Violation
from ..seams import RealRandomState

BATCH = 8
ALLOC = None
DOCUMENTED = ("GUM_DFT", "DFT_deconv", "DFT_transferfunction")


def prepare():
    global ALLOC
    ALLOC = faults.Alloc()


def build(ch, r, lo):
    """a call with matrices large enough to be hit, if lo is 6"""
    name = ch.wpick([("GUM_DFT", 4), ("DFT_deconv", 4), ("DFT_transferfunction", 3), ("GUM_iDFT", 1), ("DFT_multiply", 1),
                     ("DFT2AmpPhase", 1), ("AmpPhase2DFT", 1), ("Time2AmpPhase", 1)])
    fn = C.get(C.DFT + name)
    kw = {}
    if name in ("GUM_DFT", "Time2AmpPhase"):
        n = ch.int(2 * lo, 40)
        kw.update(x=r.normal(size=n), Ux=C.cov(r, n))
        if name == "GUM_DFT":
            if ch.bool(0.3):
                kw["N"] = n + ch.int(0, 9)
            if ch.bool(0.3):
                kw["window"] = r.uniform(0.5, 1, n)
            if ch.bool(0.2):
                kw["Ux"] = r.uniform(0.1, 1, n)
            if ch.bool(0.3):
                m = r.uniform(size=kw.get("N", n) // 2 + 1) < 0.8
                kw["mask"] = m
            if ch.bool(0.3):
                kw["returnC"] = True
        else:
            kw["x"], kw["Ux"] = kw["x"][:n - n % 2], kw["Ux"][:n - n % 2, :n - n % 2]
    elif name == "GUM_iDFT":
        n = 2 * ch.int(lo, 20)
        kw.update(F=r.normal(size=n + 2), UF=C.cov(r, n + 2))
    elif name in ("DFT_deconv", "DFT_transferfunction", "DFT_multiply"):
        n = 2 * ch.int(lo, 20)
        a, b = (2 + r.normal(size=n), r.normal(size=n))
        Ua, Ub = C.cov(r, n, 0.1), C.cov(r, n, 0.1)
        f = ch.int(0, 3)
        Ua = r.uniform(0.1, 1, n) if f & 1 else Ua
        Ub = r.uniform(0.1, 1, n) if f & 2 else Ub
        names = {"DFT_deconv": ("H", "Y", "UH", "UY"), "DFT_transferfunction": ("X", "Y", "UX", "UY"),
                 "DFT_multiply": ("Y", "F", "UY", "UF")}[name]
        kw.update(zip(names, (a, b, Ua, Ub)))
    elif name == "DFT2AmpPhase":
        n = 2 * ch.int(lo, 20)
        kw.update(F=r.normal(size=n) + 3, UF=C.cov(r, n, 0.1))
    else:
        n = ch.int(lo, 20)
        kw.update(A=r.uniform(1, 2, n), P=r.normal(size=n), UAP=C.cov(r, 2 * n, 0.1))
    return name, fn, kw


def run(ch, ctx):
    r = RealRandomState(ch.subseed())
    style = ch.wpick([("once", 4), ("persistent", 2), ("size limit", 4), ("statement", 3)])
    name, fn, kw = build(ch, r, 2 if style == "statement" else 6)
    ref, _ = C.outcome(lambda: fn(**kw))
    if ref[0] != "returned":
        raise Violation("raised", "%s raises %s without any fault" % (name, ref[1]))
    before = C.args_state(kw)
    documented = name in DOCUMENTED
    if style == "statement":
        return statement(ch, ctx, name, fn, kw, ref, before)

    def count():
        C.outcome(lambda: ALLOC.count(lambda: fn(**kw)))
        return ALLOC.lib.shim_seen()
    total = faults.in_fork(count) or 0
    sizes = sorted({x[2].nbytes for x in flat(ref[1]) if x[2].nbytes >= 1024})
    lo, nth, sticky = 1024, 0, 0
    if style == "size limit":
        base = ch.pick(sizes or [2048])
        lo = max(1024, int(base * ch.pick([1.0, 0.5, 0.25, 1.01])))
        sticky = 1
    else:
        if not total:
            return
        nth, sticky = ch.int(0, total - 1), int(style == "persistent")
    what = "%s: %s" % (name, "no memory for more than %d bytes" % lo if style == "size limit" else
                       "allocation %d of %d fails %s" % (nth + 1, total, style))
    ctx.desc = "%s (%s)" % (what, ", ".join("%s=%s" % (k, C.short(v)) for k, v in kw.items()))

    def armed():
        ALLOC.arm(nth, sticky, lo)
        try:
            return fn(**kw)
        finally:
            ALLOC.disarm()

    def body():
        out, _ = C.outcome(armed)
        hits = ALLOC.disarm()
        blocks = False
        if out[0] == "returned":
            o = faults.join_blocks(out, ref) if documented else out
            blocks = o is not out
            d = C.same(o, ref)
            if d:
                return hits, "returned", ("wrong-fallback", "%s: %s" % (what, d)), blocks
        elif not out[1].endswith("MemoryError") and documented:
            return hits, out[1], ("other-exception", "%s: raises %s instead of MemoryError" % (what, out[1])), blocks
        d = C.same(C.args_state(kw), before, exact=True)
        if d:
            return hits, out[0], ("argument-modified", "%s: afterwards argument %s" % (what, d)), blocks
        again, _ = C.outcome(lambda: fn(**kw))
        d = C.same(again, ref)
        if d:
            return hits, out[0], ("not-repeatable", "%s: the call afterwards: %s" % (what, d)), blocks
        return hits, out[1] if out[0] == "raised" else "returned", None, blocks

    res = faults.in_fork(body)
    if res is None:
        ctx.probe("runtime did not survive the failed allocation")
        return
    hits, outcome, bad, blocks = res
    ctx.event(what, hits, outcome, "blocks" if blocks else "")
    if bad:
        raise Violation(*bad)
    if hits:
        ctx.fault("allocation " + style)
    ctx.probe("blocks returned", int(blocks))
    ctx.probe("MemoryError", int(outcome == "MemoryError"))
    ctx.nontrivial = hits > 0
    ctx.cover(name, style, nth, lo, sorted(kw), blocks)
    ctx.event("ok")


def statement(ch, ctx, name, fn, kw, ref, before):
    """the memory is missing in a statement for which the code has a handler; such a
    failure must be answered by the blocks, for results of any size"""
    probe = faults.Lines()
    C.outcome(lambda: probe.run(lambda: fn(**kw)))
    lines = [k for k in probe.order if k[1] in faults.handled_lines(k[0])]
    if not lines:
        return
    line = lines[ch.int(0, len(lines) - 1)]
    nth = ch.int(1, probe.seen[line])
    what = "%s: no memory at %s:%d" % (name, line[0].rsplit("/", 1)[-1], line[1])
    ctx.desc = "%s (%s)" % (what, ", ".join("%s=%s" % (k, C.short(v)) for k, v in kw.items()))
    inj = faults.Lines((line, nth), MemoryError("simulated"))
    out, _ = C.outcome(lambda: inj.run(lambda: fn(**kw)))
    ctx.event(what, inj.hit, out[0], out[1] if out[0] == "raised" else "")
    if out[0] == "raised":
        if out[1] != "MemoryError" and name in DOCUMENTED:
            raise Violation("other-exception", "%s: raises %s instead of MemoryError" % (what, out[1]))
    else:
        o = faults.join_blocks(out, ref)
        ctx.probe("blocks returned", int(o is not out))
        d = C.same(o, ref)
        if d:
            raise Violation("wrong-fallback", "%s: %s" % (what, d))
    d = C.same(C.args_state(kw), before, exact=True)
    if d:
        raise Violation("argument-modified", "%s: afterwards argument %s" % (what, d))
    again, _ = C.outcome(lambda: fn(**kw))
    d = C.same(again, ref)
    if d:
        raise Violation("not-repeatable", "%s: the call afterwards: %s" % (what, d))
    if inj.hit:
        ctx.fault("statement")
    ctx.nontrivial = inj.hit
    ctx.cover(name, "statement", line[1], nth, sorted(kw))
    ctx.event("ok")


def flat(v):
    if isinstance(v, tuple) and v and v[0] == "array":
        return [v]
    if isinstance(v, (tuple, list)):
        return [x for e in v for x in flat(e)]
    return []
