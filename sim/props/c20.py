"""interpolation with uncertainties against Monte Carlo with moment-exact draws"""
import numpy as np

from .. import umc_common as U
from ..confirm import agree, propagate
from ..core import Violation
from ..seams import RealRandomState

BATCH = 15


class Interp:
    """interpolation of sorted values, constant beyond the ends"""

    def __init__(self, t_new, t, kind, order=None):
        self.t_new, self.t, self.kind, self.order = t_new, t, kind, order

    def __call__(self, y):
        if self.order is not None:
            y = y[self.order]
        t = self.t
        out = np.zeros(len(self.t_new))
        for i, s in enumerate(self.t_new):
            if s <= t[0]:
                out[i] = y[0]
                continue
            if s >= t[-1]:
                out[i] = y[-1]
                continue
            k = int(np.searchsorted(t, s, side="right")) - 1
            w = (s - t[k]) / (t[k + 1] - t[k])
            if self.kind == "previous":
                w = 0.0
            elif self.kind == "next":
                w = 1.0 if w > 0 else 0.0
            elif self.kind == "nearest":
                w = 1.0 if w > 0.5 else 0.0     # ties: the lower one
            out[i] = (1 - w) * y[k] + w * y[k + 1]
        return out


def delicate(tn, t, kind):
    """rounding decides which knot is looked up"""
    if kind == "linear":
        return False
    d = np.abs(np.subtract.outer(np.asarray(tn), t if kind != "nearest" else 0.5 * (t[1:] + t[:-1])))
    return bool(np.any((d < 1e-9 * (t[-1] - t[0] + abs(t[-1]))) & ((d > 0) | (kind == "nearest"))))


def compare(what, got, want, tol=1e-9, size=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("shape", "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if not np.array_equal(np.isnan(got), np.isnan(want)):
        raise Violation("fill", "%s: %s instead of %s" % (what, got, want))
    ok = ~np.isnan(want)
    if np.any(np.abs(got - want)[ok] > tol * (np.max(np.abs(want[ok])) if np.any(ok) else 0) + 1e-13 * size):
        raise Violation("value", "%s: %s instead of %s" % (what, got, want))


def knots(ch, r):
    n = ch.size(2, 9, 120)
    if ch.bool(0.3):
        t = ch.pick([0.0, -3.0]) + ch.pick([1.0, 0.25]) * np.arange(n)
    else:
        t = np.cumsum(r.uniform(0.05, 2, n)) + ch.pick([0.0, -4.0, 100.0])
    y = r.normal(size=n) * ch.pick([1.0, 100.0])
    uy = r.uniform(0, 1, n) * ch.pick([0.1, 10.0])
    if ch.bool(0.3):
        uy[ch.int(0, n - 1)] = 0.0
    if ch.bool(0.15):
        y = np.round(5 * y)
        y = y.astype(int) if ch.bool() else y
    if ch.bool(0.1):
        uy = np.round(5 * uy).astype(int)
    if ch.bool(0.3) and np.all(t == np.round(t)):
        t = t.astype(int)
    return t, y, uy


def points(ch, r, t, outside):
    m = ch.size(1, 8, 150)
    out = r.uniform(t[0], t[-1], m)
    for i in range(m):
        c = ch.wpick([("any", 4), ("knot", 2), ("out", 2 if outside else 0)])
        if c == "knot":
            out[i] = t[ch.int(0, len(t) - 1)]
        elif c == "out":
            d = r.uniform(0.01, 3)
            out[i] = t[0] - d if ch.bool() else t[-1] + d
    return np.sort(out) if ch.bool() else out


def op_interp(ch, ctx, r):
    from PyDynamic import interp1d_unc
    t, y, uy = knots(ch, r)
    n = len(t)
    kind = ch.wpick([("linear", 4), ("previous", 1), ("next", 1), ("nearest", 1)])
    outside = ch.bool()
    tn = points(ch, r, t, outside)
    below, above = tn < t[0], tn > t[-1]
    beyond = bool(np.any(below | above))
    kw, order = {}, None
    if kind != "linear" or ch.bool(0.3):
        kw["kind"] = kind
    retC = kind == "linear" and ch.bool(0.4)
    if retC:
        kw["returnC"] = True
    args = [t, y, uy]
    if ch.bool(0.3):
        p = np.array(ch.shuffle(list(range(n))))
        args = [v[p] for v in args]
        kw["assume_sorted"] = False
        order = np.argsort(p)
    fv, fu = (np.nan, np.nan), (np.nan, np.nan)
    if outside:
        def fill(edge):
            c = ch.pick(["extrapolate", "number", "pair", "default"])
            if c == "extrapolate":
                return c, (edge[0], edge[-1])
            if c == "number":
                v = ch.pick([2.5, -1.0, 3])
                return v, (v, v)
            if c == "pair":
                return (7.0, -8.5), (7.0, -8.5)
            return None, (np.nan, np.nan)
        c, fv = fill(y)
        if c is not None:
            kw["fill_value"] = c
        c2, fu = fill(uy)
        if retC:
            c2, fu = "extrapolate", (uy[0], uy[-1])
        if c2 is not None:
            kw["fill_unc"] = c2
        if not (c == "extrapolate" and ch.bool()):
            kw["bounds_error"] = False
    elif ch.bool(0.3):
        kw["bounds_error"] = ch.bool()
        if retC:
            kw["fill_unc"] = "extrapolate"
    if ch.bool(0.3) and np.all(tn == np.round(tn)):
        tn = tn.astype(int)
    what = "interp1d_unc n=%d m=%d %s" % (n, len(tn), sorted((k, str(v)[:12]) for k, v in kw.items()))
    if ch.bool(0.1):
        args = [list(v) for v in args]
    out = interp1d_unc(list(tn) if ch.bool(0.1) else tn, *args, **kw)
    if len(out) != (4 if retC else 3):
        raise Violation("shape", "%s: %d values returned" % (what, len(out)))
    if delicate(tn, t, kind):
        return what
    model = Interp(tn, t, kind, order)
    my, mC = propagate(ch, ctx, model, np.asarray(args[1], float), np.diag(np.asarray(args[2], float) ** 2))
    su = np.sqrt(np.diag(mC))
    my, su = my.copy(), su.copy()
    my[below], my[above] = fv[0], fv[1]
    full = mC
    su[below], su[above] = fu[0], fu[1]
    compare(what + ": t", out[0], tn, 0)
    size = np.max(np.abs(y)) + np.max(uy)       # of the values of which Monte Carlo takes the mean
    compare(what + ": values", out[1], my, size=size)
    compare(what + ": uncertainties", out[2], su, size=size)
    if retC:
        C = np.asarray(out[3], float)
        if C.shape != (len(tn), n):
            raise Violation("shape", "%s: C has shape %s" % (what, C.shape))
        G = C.dot(np.diag(np.asarray(args[2], float) ** 2)).dot(C.T)
        agree("sensitivities " + what, np.zeros(len(my)), G, np.zeros(len(my)), full, size=size)
        # the last fill values are not covered by C
        inside = ~(below | above)
        compare(what + ": C y", C.dot(np.asarray(args[1], float))[inside], my[inside], size=size)
    ctx.probe("beyond the knots", int(beyond))
    # beyond the range an error unless agreed otherwise
    if ch.bool(0.2):
        bad = np.r_[tn, t[-1] + 1.0]
        kk = dict(kind=kind)
        if ch.bool():
            kk["bounds_error"] = True
            if ch.bool():
                kk["fill_value"] = "extrapolate"
        try:
            interp1d_unc(bad, t, y, uy, **kk)
        except ValueError:
            pass
        else:
            raise Violation("bounds", "%s: extrapolated although not allowed" % what)
    return what


def op_equi(ch, ctx, r):
    from PyDynamic import make_equidistant
    t, y, uy = knots(ch, r)
    span = t[-1] - t[0]
    kw = {}
    dt = 5e-2
    if span > 2 or ch.bool(0.8):
        dt = float(span * ch.pick([0.07, 0.31, 0.5, 0.99, 1.0]))
        kw["dt"] = dt
    kind = ch.pick(["linear", "linear", "previous", "next", "nearest"])
    if kind != "linear":
        kw["kind"] = kind
    what = "make_equidistant n=%d %s" % (len(t), kw)
    tn, yn, un = make_equidistant(t, y, uy, **kw)
    tn = np.asarray(tn)
    if len(tn) < 1 or tn[0] != t[0] or tn[-1] > t[-1] * (1 + 1e-12) + 1e-12:
        raise Violation("grid", "%s: grid from %r to %r for knots from %r to %r" % (what, tn[0], tn[-1], t[0], t[-1]))
    if not np.allclose(tn, t[0] + dt * np.arange(len(tn)), rtol=1e-9, atol=1e-9 * dt):
        raise Violation("grid", "%s: grid is not equidistant with dt" % what)
    if tn[-1] + dt < t[-1] - 1e-9 * (span + abs(t[-1])):
        raise Violation("grid", "%s: grid ends %r before the last knot" % (what, t[-1] - tn[-1]))
    if delicate(tn, t, kind):
        return what
    my, mC = propagate(ch, ctx, Interp(tn, t, kind), np.asarray(y, float), np.diag(uy ** 2))
    compare(what + ": values", yn, my, size=np.max(np.abs(y)) + np.max(uy))
    compare(what + ": uncertainties", un, np.sqrt(np.diag(mC)), size=np.max(np.abs(y)) + np.max(uy))
    return what


def run(ch, ctx):
    r = RealRandomState(ch.subseed())
    U.schedule(ch, ctx, fork_p=0.02)
    op = op_equi if ch.bool(0.25) else op_interp
    ctx.desc = op(ch, ctx, r)
    ctx.cover(ctx.desc)
    ctx.nontrivial = True
    ctx.event("ok", ctx.desc)
