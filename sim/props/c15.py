"""histories of operations on Signal objects against a small reference model"""
import numpy as np

from .. import faults, filters as F
from ..core import Violation
from ..seams import HUB, RealRandomState
from .c06 import mc_runs

BATCH = 10


class Ref:
    """the reference model: what a Signal has to look like"""

    def __init__(self, time, values, Ts, Fs, u):
        self.time, self.values = np.array(time, float), np.array(values, float)
        self.Ts, self.Fs = Ts, Fs
        self.u = np.array(u, float)
        self.labels = ("s", "a.u.", "signal")


FIELDS = ("time", "values", "uncertainty", "Ts", "Fs", "unit_time", "unit_values", "name")


def snapshot(sig):
    return tuple(np.array(getattr(sig, f)) for f in FIELDS)


def unchanged(a, b):
    return all(np.array_equal(x, y) and x.dtype == y.dtype for x, y in zip(a, b))


def fir(x, u, b, Ut):
    """linear propagation for point-wise uncertainties; constant before the start"""
    p = len(b)
    xe = np.r_[np.full(p - 1, x[0]), x]
    ue = np.r_[np.full(p - 1, u[0]), u] ** 2
    y, v = np.zeros(len(x)), np.zeros(len(x))
    for i in range(len(x)):
        w, q = xe[i:i + p][::-1], ue[i:i + p][::-1]
        y[i] = np.dot(b, w)
        v[i] = np.dot(b * b, q) + w.dot(Ut).dot(w) + np.dot(np.diag(Ut), q)
    return y, np.sqrt(v)


def agree(sig, ref, what):
    got = (("time", sig.time, ref.time), ("values", sig.values, ref.values), ("uncertainty", sig.uncertainty, ref.u),
           ("Ts", sig.Ts, ref.Ts), ("Fs", sig.Fs, ref.Fs))
    for name, g, w in got:
        if not F.close(g, w, rtol=1e-8, atol=1e-13 * (np.max(np.abs(ref.values)) + 1e-300) if name == "uncertainty" else 0.0):
            raise Violation("signal-" + name, "%s: %s of the signal: %s" % (what, name, F.dev(g, w)))
    lab = (sig.unit_time, sig.unit_values, sig.name)
    if lab != ref.labels:
        raise Violation("signal-labels", "%s: labels %s instead of %s" % (what, lab, ref.labels))


def make(ch, r):
    """arguments of the constructor and the reference, or None if they are to be rejected"""
    n = ch.size(2, 10, 80)
    Ts = ch.pick([1.0, 0.5, 1e-3, 2, 3.7e-6])
    t0 = ch.pick([0, 5, -1.0])
    time = t0 * Ts + Ts * np.arange(n)
    values = r.normal(size=n) * ch.pick([1.0, 100.0])
    if ch.bool(0.2):
        values = np.round(10 * values).astype(int)
    if ch.bool(0.15):
        values = np.abs(values) * 0 if ch.bool(0.2) else values
    kw, bad = {}, False
    how = ch.pick(["time", "Ts", "Fs", "both"])
    if how in ("Ts", "both"):
        kw["Ts"] = Ts
    if how in ("Fs", "both"):
        kw["Fs"] = 1 / Ts if not ch.bool(0.1) else np.float64(1 / Ts)
    if how == "both" and ch.bool(0.15):
        kw["Fs"] = 1.01 / Ts
        bad = True
    ku = ch.wpick([("none", 1), ("float", 2), ("int", 1), ("point", 3), ("matrix", 1), ("column", 1)])
    u = np.zeros(n)
    if ku == "float":
        kw["uncertainty"] = ch.pick([0.1, 0.0, 2.5])
        u = np.full(n, kw["uncertainty"])
    elif ku == "int":
        kw["uncertainty"] = ch.int(0, 2)
        u = np.full(n, float(kw["uncertainty"]))
    elif ku == "point":
        u = r.uniform(0, 1, n)
        kw["uncertainty"] = u.copy()
    elif ku == "column":
        u = r.uniform(0, 1, n)
        kw["uncertainty"] = u.copy().reshape(-1, 1) if ch.bool() else u.copy().reshape(1, -1)
    elif ku == "matrix":
        u, _ = F.gen_cov(ch, r, n, 0.5)
        kw["uncertainty"] = u.copy()
    reject = ch.wpick([(None, 14), ("2d", 1), ("time", 1), ("u", 1), ("rect", 1)])
    if reject == "2d":
        values = np.column_stack((values, values))
        bad = True
    elif reject == "time":
        time = time[:-1] if ch.bool() else np.append(time, time[-1] + Ts)
        bad = True
    elif reject == "u":
        kw["uncertainty"] = r.uniform(0, 1, n + 1)
        bad = True
    elif reject == "rect":
        kw["uncertainty"] = r.uniform(0, 1, (n, n + 2))
        bad = True
    return (time, values), kw, None if bad else Ref(time, values, Ts, 1.0 / Ts, u), ku


def interrupted(ch, ctx, call, sig, what):
    """executes call with an exception before a random line; whether it came through"""
    probe = faults.Lines()
    before = snapshot(sig)
    state = np.random.get_state()
    # a dry run on a copy tells which lines there are
    import copy
    twin = copy.copy(sig)
    try:
        probe.run(lambda: call(twin))
    except Exception:
        return
    np.random.set_state(state)
    if not probe.order:
        return
    line = probe.order[ch.int(0, len(probe.order) - 1)]
    nth = ch.int(1, min(probe.seen[line], 20))
    exc = ch.pick([KeyboardInterrupt(), MemoryError("simulated")])
    inj = faults.Lines((line, nth), exc)
    try:
        inj.run(lambda: call(sig))
        raised = False
    except BaseException as e:
        if e is not exc:
            raise
        raised = True
    if inj.hit:
        ctx.fault(type(exc).__name__)
        where = "%s at %s:%d" % (type(exc).__name__, line[0].rsplit("/", 1)[-1], line[1])
        ctx.cover(where)
        if raised:
            if not unchanged(before, snapshot(sig)):
                raise Violation("half-applied", "%s, %s: the signal was changed although the operation failed" % (what, where))
        np.random.set_state(state)
        return raised
    return False


def filter_args(ch, r, ref):
    """b, a, keyword arguments, description, whether the call has to be rejected"""
    kind = ch.wpick([("fir", 4), ("iir", 2), ("iir-list", 1), ("fir-array", 1)])
    p = ch.int(1, 4)
    b = r.uniform(-1, 1, p)
    b[0] += 0.6
    a = 1
    if kind.startswith("iir"):
        b, a, _ = F.gen_filter(ch, fir_ok=False, max_order=2)
        a = np.r_[1.0, 0.8 * a[1:]]
    if kind == "fir-array":
        a = np.array([1.0])
    na = 1 if not isinstance(a, np.ndarray) else len(a)
    q = na + len(b) - 1
    kw, bad = {}, False
    heavy = ref.u.ndim == 2 or kind != "fir"
    runs = None
    if heavy or ch.bool(0.4):
        if not heavy or not ch.bool(0.03):
            runs = ch.int(2, 40)
            kw["MonteCarloRuns"] = runs
        else:
            runs = 10000
    mc = runs is not None
    ku = ch.pick(["none", "matrix", "1d"])
    Uab = np.zeros((q, q))
    if ku == "matrix":
        Uab, _ = F.gen_cov(ch, r, q, 0.05)
        kw["filter_uncertainty"] = Uab.copy()
    elif ku == "1d":
        if mc and not ch.bool(0.2):
            ku = "none"
        else:
            sd = r.uniform(0, 0.3, q)
            kw["filter_uncertainty"] = sd
            Uab = np.diag(sd ** 2)
            bad = mc
    if ch.bool(0.08):
        kw["filter_uncertainty"] = np.eye(q + 1)
        bad = True
    aa = a.copy() if isinstance(a, np.ndarray) else np.array([1.0])
    if kind == "iir-list":
        a = list(a)
    return b, a, aa, Uab, kw, runs if mc else None, bad, "%s filter of %d+%d coefficients, filter uncertainty %s, runs %s" % (
        kind, len(b), na, ku, runs)


def apply(ch, ctx, r, sig, ref, others):
    from PyDynamic.uncertainty.propagate_MonteCarlo import MC
    b, a, aa, Uab, kw, runs, bad, what = filter_args(ch, r, ref)
    args = [np.array(v) for v in (b, aa)] + [np.array(v) for v in kw.values()]
    before = snapshot(sig)
    old = (ref.values.copy(), ref.u.copy())
    seed = ch.subseed()
    extra = ([a] if ch.bool() or np.ndim(a) else [])

    def call(s):
        return s.apply_filter(b, *extra, **kw)
    if bad:
        try:
            np.random.seed(seed)
            call(sig)
        except Exception as e:
            if not unchanged(before, snapshot(sig)):
                raise Violation("half-applied", "%s: raised %s but changed the signal" % (what, type(e).__name__))
            ctx.probe("rejected operations")
            ctx.event("rejected", what)
            return True
        raise Violation("not-rejected", "%s with a filter uncertainty of wrong form was accepted" % what)
    want = None
    if runs is not None:
        np.random.seed(seed)
        Y, ok = mc_runs(old[0], old[1], b, aa, Uab, runs, None, None, 0)
        if len(ok) < 2:
            return True
        want = Y[ok].mean(axis=0), np.cov(Y[ok], rowvar=False)
    else:
        want = fir(old[0], old[1], b, Uab)
    np.random.seed(seed)
    if ch.bool(0.25) and runs != 10000:
        np.random.seed(seed)
        done = interrupted(ch, ctx, call, sig, what)
        np.random.seed(seed)
        if done is False:          # the operation was completed in spite of the fault
            done = True
        else:
            call(sig)
    else:
        out = call(sig)
        if out is not None:
            raise Violation("return", "apply_filter returned something")
    if not all(np.array_equal(x, y) for x, y in zip(args, [np.array(v) for v in (b, aa)] + [np.array(v) for v in kw.values()])):
        raise Violation("argument-modified", "%s: an argument was modified" % what)
    if runs is not None and not (F.close(sig.values, want[0], rtol=1e-8) and F.close(sig.uncertainty, want[1], rtol=1e-8)):
        # other use of the random stream: the same as the Monte Carlo method itself
        np.random.seed(seed)
        want = MC(old[0], old[1], b, aa, Uab, runs=runs, verbose=False)
        ctx.probe("by delegation")
    elif runs is not None:
        ctx.probe("run by run")
    else:
        ctx.probe("closed form")
    ref.values, ref.u = np.asarray(want[0]), np.asarray(want[1])
    agree(sig, ref, what)
    # rounding must not add up: sampling from (nearly) singular matrices amplifies it
    ref.values, ref.u = np.array(sig.values), np.array(sig.uncertainty)
    ctx.event("apply", what)
    ctx.cover(what)
    return True


def run(ch, ctx):
    from PyDynamic.signals import Signal
    r = RealRandomState(ch.subseed())
    world, given = [], []
    ctx.desc = "history:"
    steps = ch.size(2, 9, 30)
    for _ in range(steps):
        op = ch.wpick([("create", 1), ("apply", 4), ("labels", 1), ("plot", 1)]) if world else "create"
        if op == "create":
            if world and ch.bool(0.4):          # a second signal on the very same arrays
                args, kw, ref, ku = given[-1]
                ref = Ref(args[0], args[1], ref.Ts, ref.Fs, ref.u0)
            else:
                args, kw, ref, ku = make(ch, r)
            ctx.desc += " create(n=%d, %s, u=%s, %s)" % (len(args[0]), sorted(kw), ku, "valid" if ref else "invalid")
            ctx.cover(ctx.desc)
            if ref is None:
                try:
                    Signal(*args, **kw)
                except (AssertionError, NotImplementedError, ValueError, TypeError, IndexError):
                    ctx.probe("rejected operations")
                    continue
                raise Violation("not-rejected", "%s: accepted" % ctx.desc)
            sig = Signal(*args, **kw)
            ref.u0 = ref.u.copy()
            agree(sig, ref, "create")
            given.append((args, kw, ref, ku))
            world.append((sig, ref))
            frozen = [np.array(v) for v in list(args) + list(kw.values())]
            world[-1] += (list(args) + list(kw.values()), frozen)
        else:
            i = ch.int(0, len(world) - 1)
            sig, ref = world[i][:2]
            ctx.desc += " %s(%d)" % (op, i)
            if op == "labels":
                kw = {}
                for k, d in (("unit_time", "ms"), ("unit_values", "V"), ("name_values", "x")):
                    if ch.bool(0.6):
                        kw[k] = d + str(ch.int(0, 9))
                sig.set_labels(**kw)
                ref.labels = (kw.get("unit_time", "s"), kw.get("unit_values", "a.u."), kw.get("name_values", "signal"))
            elif op == "plot":
                if ref.u.ndim == 1:
                    before = snapshot(sig)
                    sig.plot()
                    sig.plot_uncertainty()
                    if not unchanged(before, snapshot(sig)):
                        raise Violation("plot", "plotting changed the signal")
            else:
                apply(ch, ctx, r, sig, ref, world)
        for j, (s, q, arr, frozen) in enumerate(world):
            agree(s, q, "signal %d after %s" % (j, ctx.desc[-60:]))
            for v, f in zip(arr, frozen):
                if not np.array_equal(np.array(v), f):
                    raise Violation("argument-modified", "an array the signal was created from was changed by %s" % op)
    ctx.nontrivial = len(world) > 0
    ctx.event("ok", ctx.desc)
