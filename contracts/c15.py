"""C15: averaging of radar measurements to the product time grid."""
import numpy as np

from pyvc.spec import C

from .common import *
from .c12 import ca

U = "cloudnetpy.utils:"
R = "cloudnetpy.categorize.radar:Radar."


def edges(c, x):
    """edges of the evenly spaced bins around the centres x"""
    n = S.of(x.shape[0])
    e1 = x[0] - (x[1] - x[0]) / 2
    e2 = x[n - 1] + (x[n - 1] - x[n - 2]) / 2
    e = c.linspace(e1, e2, n + 1)
    return lambda k: e[k]


def member(c, a):
    """sample i belongs to bin j"""
    e = edges(c, a.x_new)
    return lambda i, j: c.and_(a.x_in[i] >= e(j), a.x_in[i] < e(j + 1))


def stat(c, n, use, val):
    """(count, mean, std, 'v is the largest') over the i<n with use(i)"""
    one, zero = S.of(1.0), S.of(0.0)
    cnt = c.sum(n, lambda i: c.ite(use(i), one, zero))
    mean = c.sum(n, lambda i: c.ite(use(i), val(i), zero)) / cnt
    std = lambda: c.sqrt(c.sum(n, lambda i: c.ite(use(i), (val(i) - mean) * (val(i) - mean), zero)) / cnt)
    ismax = lambda v: c.and_(c.exists(n, lambda i: c.and_(use(i), c.eq(val(i), v, 1e-6, 1e-6))), c.forall(n, lambda i: c.implies(use(i), lambda: val(i) <= v + abs(v) * 1e-6)))
    return cnt, mean, std, ismax


def opt(a, k, d):
    return getattr(a, k) if k in a else d


def cells(c, x, out, inb, which, zeros, nb):
    """row k of `out` holds in gate h the statistic of the samples of bin j"""
    n = x.shape[0]
    top = c.largest((n, nb, x.shape[1]), lambda i, j, h: c.and_(inb(i, j), ~c.masked(x[i, h])), lambda i, j, h: c.data(x[i, h])) if which == "max" else None

    def cell(j, h, k):
        use = lambda i: c.and_(inb(i, j), ~c.masked(x[i, h]))
        cnt, mean, std, ismax = stat(c, n, use, lambda i: c.data(x[i, h]))
        some = c.exists(n, use)
        v = c.data(out[k, h])
        val = {"mean": lambda: c.eq(v, mean, 1e-5, 1e-5), "std": lambda: c.eq(v, std(), 1e-3, 1e-3), "max": lambda: c.eq(v, c.data(top[j, h]), 1e-5, 1e-5)}[which]
        miss = c.or_(~some, c.eq(v, 0, 0, 0)) if zeros else ~some
        return c.and_(c.iff(c.masked(out[k, h]), miss), c.implies(some, val))
    return cell


def keep_inv(c, L, P, k):
    x, out, b = P.array, L.result, P.binn
    cell = cells(c, x, out, lambda i, j: c.eq(b[i], j), P.statistic, False, P.x_new.shape[0])
    yield "bins so far", c.forall((x.shape[0], x.shape[1]), lambda i, h: c.implies(c.and_(b[i] >= 0, b[i] < k), lambda: cell(b[i], h, i)))
    yield "other bins", c.forall((x.shape[0], x.shape[1]), lambda i, h: c.implies(c.or_(b[i] < 0, b[i] >= k), lambda: c.masked(out[i, h])))


def binned(c, a, r, p):
    out, empty = r
    x = a.array
    n, nb = x.shape[0], a.x_new.shape[0]
    inb = member(c, a)
    which, zeros, keep = opt(a, "statistic", "mean"), opt(a, "mask_zeros", False), opt(a, "keepdim", False)
    yield "grid", c.shape_is(out, n if keep else nb, x.shape[1])

    cell = cells(c, x, out, inb, which, zeros, nb)
    if keep:
        yield "every sample has the statistic of its bin", c.forall((n, nb, x.shape[1]), lambda i, j, h: c.implies(inb(i, j), lambda: cell(j, h, i)))
        yield "samples outside the bins", c.forall((n, x.shape[1]), lambda i, h: c.implies(~c.exists(nb, lambda j: inb(i, j)), lambda: c.masked(out[i, h])))
    else:
        yield "statistic of the samples of the bin", c.forall((nb, x.shape[1]), lambda j, h: cell(j, h, j))
    if empty is not None:
        yield "bins without samples", c.forall(nb, lambda j: c.iff(c.exists(empty.shape[0], lambda k: c.eq(empty[k], j)), ~c.exists(n, lambda i: inb(i, j))))


def rebin_result(c, a):
    n = a.x_new.shape[0]
    shape = a.array.shape if opt(a, "keepdim", False) else (n, a.array.shape[1])
    return (c.ctx.fresh_arr("rebinned", "f", shape, masked=True), c.ctx.fresh_arr("empty", "i", (c.ctx.fresh("nempty", "i").v,)))


def binned1(c, a, r, p):
    x, e = a.array, edges(c, a.x_new)
    n, nb = x.shape[0], a.x_new.shape[0]
    ok = lambda i: c.and_(~c.masked(x[i]), ~c.nan(x[i]))
    inb = lambda i, j: c.and_(a.x_in[i] >= e(j), c.or_(a.x_in[i] < e(j + 1), c.and_(c.eq(j, nb - 1), c.eq(a.x_in[i], e(j + 1), 0, 0))))
    yield "grid", c.shape_is(r, nb)

    def cell(j):
        use = lambda i: c.and_(inb(i, j), ok(i))
        cnt, mean, std, ismax = stat(c, n, use, lambda i: c.data(x[i]))
        some = c.exists(n, use)
        v = c.data(r[j])
        return c.and_(c.iff(c.masked(r[j]), ~some), c.implies(some, c.eq(v, mean, 1e-5, 1e-5)))
    yield "mean of the samples of the bin, missing without samples", c.forall(nb, cell)


X = TArr("f", "n", lo=0, hi=5, vals=[0, 1, 2, 3], order="<=")
GRID = TArr("f", "m", lo=0, hi=5, vals=[0.5, 1.5, 2.5, 3.5], order="<")
M2 = TArr("f", ("n", "h"), masked=True, lo=-50, hi=50, vals=[0])
D = {"n": 1, "m": 2, "h": 1}
def same_bins(a, x):
    return NS({"x_in": a.self.time, "x_new": a.time_new, "array": x})


def fold(a, V):
    """(t, h) -> folding velocity"""
    ds = a.self.dataset.variables
    if "nyquist_velocity" in ds:
        v = ds["nyquist_velocity"].data
        one = v.get(()) if isinstance(v, Arr) and v.ndim == 0 else v
        return (lambda i, h: v[i, h]) if isinstance(v, Arr) and v.ndim == 2 else (lambda i, h: one)
    prf = ds["prf"].data
    return lambda i, h: prf[0] * 299792458.0 / (4 * a.self.radar_frequency * 1e9)


def velocity(c, a, out, data):
    """circular mean of the samples of a bin on its largest folding velocity"""
    x, V = data, fold(a, None)
    n, H, nb = x.shape[0], x.shape[1], a.time_new.shape[0]
    inb = member(c, same_bins(a, x))
    yield "velocity grid", c.shape_is(out, nb, H)

    def cell(j, h):
        use = lambda i: c.and_(inb(i, j), ~c.masked(x[i, h]))
        some = c.exists(n, use)
        vm = c.data(nyq[j, h])
        ang = lambda i: c.data(x[i, h]) * (np.pi / vm)
        cnt, cm, _, _ = stat(c, n, use, lambda i: c.cos(ang(i)))
        _, sm, _, _ = stat(c, n, use, lambda i: c.sin(ang(i)))
        return c.and_(c.iff(c.masked(out[j, h]), ~some), c.implies(some, c.eq(c.data(out[j, h]), c.arctan2(sm, cm) / (np.pi / vm), 1e-3, 1e-3)))
    nyq = a.nyq
    yield "largest folding velocity of the bin", c.forall((nb, H), lambda j, h: c.implies(c.exists(n, lambda i: inb(i, j)), lambda: c.and_(
        ~c.masked(nyq[j, h]), stat(c, n, lambda i: inb(i, j), lambda i: V(i, h))[3](c.data(nyq[j, h])))))
    yield "circular mean of velocity", c.forall((nb, H), cell)


def rebinned_velocity(c, a, r, p):
    yield from velocity(c, NS({**a._d, "nyq": p.self.data["nyquist_velocity"].data}), r, a.data)


def radar(ds, freq=TReal(lo=10, hi=95), **data):
    return TObj("cloudnetpy.categorize.radar:Radar", time=X, height=TArr("f", "h", lo=0, hi=10000), radar_frequency=freq, dataset=dataset(time=var(X), **ds), data=TDict(**data))


def averaged(c, a, r, p):
    old, new = a.self.data, p.self.data
    n, nb = a.self.time.shape[0], a.time_new.shape[0]
    inb = member(c, NS({"x_in": a.self.time, "x_new": a.time_new}))

    def mean_of(key, f, g):
        """g of the mean of f of the samples; missing without samples"""
        x, y = old[key].data, new[key].data
        yield f"{key}: grid", c.shape_is(y, nb, x.shape[1])

        def cell(j, h):
            use = lambda i: c.and_(inb(i, j), ~c.masked(x[i, h]))
            some = c.exists(n, use)
            mean = stat(c, n, use, lambda i: f(c.data(x[i, h])))[1]
            return c.and_(c.iff(c.masked(y[j, h]), ~some), c.implies(some, c.eq(c.data(y[j, h]), g(mean), 1e-3, 1e-3)))
        yield f"{key}: mean", c.forall((nb, x.shape[1]), cell)
    for key in ("Z", "ldr", "sldr"):
        if key in old:
            yield from mean_of(key, lambda v: c.pow10(v / 10), lambda m: 10 * c.log10(m))
    if "width" in old:
        yield from mean_of("width", lambda v: v, lambda m: m)
    if "v_sigma" in old:
        x = old["v_sigma"].data
        for nm, t in binned(c, NS({"x_in": a.self.time, "x_new": a.time_new, "array": x, "statistic": "std", "mask_zeros": True}), (new["v_sigma"].data, None), None):
            yield f"v_sigma: {nm}", t
    if "v" in old:
        yield from velocity(c, NS({**a._d, "nyq": new["nyquist_velocity"].data}), new["v"].data, old["v"].data)
    if "rainfall_rate" in old:
        for nm, t in binned1(c, NS({"x_in": a.self.time, "x_new": a.time_new, "array": old["rainfall_rate"].data}), new["rainfall_rate"].data, None):
            yield f"rainfall_rate: {nm}", t
    el, m = (r.arr, r.arr.shape[0]) if hasattr(r, "arr") else (r, c.len(r))
    if any(k in old for k in ("Z", "ldr", "sldr")):
        yield "profiles without data", c.forall(nb, lambda j: c.iff(c.exists(m, lambda k: c.eq(el[k] if isinstance(el, Arr) else el[int(S.of(k).v)], j)), ~c.exists(n, lambda i: inb(i, j))))


def field(t, units=""):
    return TObj("cloudnetpy.cloudnetarray:CloudnetArray", data=t, units=units)


NYQ = TOne(scalar_var(TArr("f", (), lo=1, hi=20)), var(TArr("f", ("n", "h"), lo=1, hi=20)))
NYQ1V = TArr("f", ("n", "h"), lo=1, hi=20)
NYQ1 = var(NYQ1V)
V2 = TArr("f", ("n", "h"), masked=True, lo=-5, hi=5, vals=[0])


def rebin(stats, keep, zeros, **kw):
    return Contract(U + "rebin_2d", {"x_in": X, "array": M2, "x_new": GRID, "statistic": TOne(*stats), "n_min": 1, "keepdim": TOne(*keep), "mask_zeros": TOne(*zeros)}, binned, dims=D, **kw)


CONTRACTS = [
    rebin(("mean", "max"), (False,), (False, True), modular=rebin_result),
    rebin(("max",), (True,), (False,), loops={("rebin_2d", 0): LoopSpec(keep_inv)}, name="rebin_2d of every sample"),
    rebin(("std",), (False,), (False, True), bounded_only=True, name="rebin_2d std"),
    Contract(U + "rebin_1d", {"x_in": X, "array": TArr("f", "n", masked=True, nan=True, lo=-5, hi=5, vals=[0]), "x_new": GRID}, binned1, dims={"n": 1, "m": 2}),
    Contract(R + "_rebin_velocity", {"self": radar({"nyquist_velocity": NYQ}), "data": V2, "time_new": GRID}, rebinned_velocity, dims=D, modifies={"self"}, rel=1e-4),
    Contract(R + "rebin_to_grid", {"self": TOne(radar({"nyquist_velocity": NYQ1}, Z=field(V2, "dBZ"), width=field(V2), v=field(V2), nyquist_velocity=field(NYQ1V)),
                                                radar({"prf": var(TArr("f", "one", lo=1000, hi=9000))}, TOne(35.0), ldr=field(V2, "dB"), v=field(V2)),
                                                radar({}, v_sigma=field(V2), sldr=field(V2, "dB"), rainfall_rate=field(TArr("f", "n", masked=True, lo=0, hi=5, vals=[0])))), "time_new": GRID},
             averaged, dims={**D, "one": 1}, requires=lambda c, a: [c.n("one") == 1], modifies={"self"}, rel=1e-4),
]
