"""C18: interpolation of instrument data to the time and height grid of a product."""
import numpy as np
import z3
from numpy import ma
from scipy.interpolate import RegularGridInterpolator, interp1d

from cloudnetpy import utils

from pyvc import npm
from pyvc.core import Arr, b_and, s_ite, to_bool, to_int, to_real
from pyvc.ctx import quant
from pyvc.npfuncs import BoundMethod
from pyvc.spec import *

from .c12 import ca
from .common import *
from .c07 import fresh
from .stubs import _nat as nat, ghost

U = "cloudnetpy.utils:"
K = "cloudnetpy.categorize."


class Callable(BoundMethod):
    """an interpolator object"""

    def __init__(self, f):
        self.f = f

    def __call__(self, ctx, *args, **kw):
        return self.f(ctx, *args, **kw)


# ------------------------------------------------------------------ scipy.interpolate.interp1d (assumed contract)
def linear(x0, x1, y0, y1, x):
    return y0 + (y1 - y0) / (x1 - x0) * (x - x0)


def interp1d_h(it, x, y, kind="linear", fill_value=None, bounds_error=None, **kw):
    ctx = it.ctx
    if not ctx.symbolic:
        f = interp1d(nat(x), nat(y), kind=kind, fill_value=nat(fill_value), bounds_error=bounds_error, **{k: nat(v) for k, v in kw.items()})
        return Callable(lambda ctx, v: lift(f(nat(v))))
    if kw or bounds_error is not False or not isinstance(fill_value, tuple) or kind not in ("linear", "nearest") or not isinstance(x, Arr) or x.masked and not x.nomask:
        raise Unsupported("interp1d arguments")
    fx, fy, n = x.snapshot().fn(), y.snapshot().fn(), to_int(x.shape[0])
    X = lambda i: fx((i,)).cast("f").v
    Y = lambda i: fy((i,)).cast("f").v
    i, j = z3.Int("ipi"), z3.Int("ipj")
    ctx.oblige("interp1d: coordinates and values agree in length", z3.And(n >= 1, to_int(y.shape[0]) == n))
    ctx.oblige("interp1d: coordinates increase", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), to_real(X(i)) < to_real(X(j)))))
    lo, hi = [S.of(v).cast("f") for v in fill_value]

    def at(ctx, v):
        v = npm.as_arr(ctx, v).snapshot()
        fv = v.fn()
        pos = ctx.fresh_arr("ip_pos", "i", v.shape)
        q = tuple(z3.Int(f"ipq{d}") for d in range(v.ndim))
        p = pos.get(q).v
        w = to_real(fv(q).cast("f").v)
        # the last coordinate at or below the target
        rng = z3.And(*[z3.And(k >= 0, k < to_int(d)) for k, d in zip(q, v.shape)])
        ctx.fact(z3.ForAll(list(q), z3.Implies(rng, z3.And(p >= 0, p < n, z3.Implies(w >= to_real(X(0)), to_real(X(p)) <= w), z3.Implies(p + 1 < n, w < to_real(X(p + 1))))), patterns=[p]))

        def val(idx):
            w = fv(idx).cast("f")
            p = pos.get(idx).v
            xs, ys = (lambda k: S("f", X(k))), (lambda k: S("f", Y(k)))
            last = p + 1 >= n
            p1 = z3.If(last, p, p + 1)
            if kind == "linear":
                mid = s_ite(last, ys(p), linear(xs(p), xs(p1), ys(p), ys(p1), w))
            else:
                mid = s_ite(z3.And(p + 1 < n, to_bool((w - xs(p) > xs(p1) - w).v)), ys(p1), ys(p))
            return s_ite((w < xs(0)).v, lo, s_ite((w > xs(n - 1)).v, hi, mid))
        return Arr(v.shape, "f", val)
    return Callable(at)


def grid_h(it, points, values, method="linear", bounds_error=True, **kw):
    """scipy.interpolate.RegularGridInterpolator (assumed contract): nearest grid point, nan outside the grid"""
    ctx = it.ctx
    if not ctx.symbolic:
        f = RegularGridInterpolator(nat(points), nat(values), method=method, bounds_error=bounds_error, **{k: nat(v) for k, v in kw.items()})
        return Callable(lambda ctx, v: lift(f(nat(v))))
    if kw or bounds_error is not False or method != "nearest" or any(p.masked and not p.nomask for p in points):
        raise Unsupported("RegularGridInterpolator arguments")
    pts = [p.snapshot() for p in points]
    values = values.snapshot()
    X = [lambda i, f=p.fn(): f((i,)).cast("f") for p in pts]
    i, j = z3.Int("gri"), z3.Int("grj")
    for d, p in enumerate(pts):
        n = to_int(p.shape[0])
        ctx.oblige("grid interpolation: at least one grid point, as many as values", z3.And(n >= 1, to_int(values.shape[d]) == n))
        ctx.oblige("grid interpolation: coordinates increase", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), to_real(X[d](i).v) < to_real(X[d](j).v))))

    def at(ctx, vs):
        vs = [npm.as_arr(ctx, v).snapshot() for v in vs]
        shape = vs[0].shape
        pos = []
        for d, v in enumerate(vs):
            fv, r, n = v.fn(), ctx.fresh_arr("gr_pos", "i", shape), to_int(pts[d].shape[0])
            q = tuple(z3.Int(f"grq{k}") for k in range(len(shape)))
            w, p = to_real(fv(q).cast("f").v), r.get(q).v
            x = lambda i: to_real(X[d](i).v)
            rng = z3.And(*[z3.And(k >= 0, k < to_int(m)) for k, m in zip(q, shape)])
            inside = z3.And(w >= x(z3.IntVal(0)), w <= x(n - 1))
            # the nearest grid point, of two equally near ones the lower
            ctx.fact(z3.ForAll(list(q), z3.Implies(rng, z3.And(p >= 0, p < n, z3.Implies(inside, z3.And(
                z3.Implies(w >= x(p), z3.Or(p + 1 >= n, w - x(p) <= x(p + 1) - w)), z3.Implies(w < x(p), z3.And(p >= 1, w - x(p - 1) > x(p) - w)))))), patterns=[p]))
            pos.append((fv, r, inside, q))
        ghost(ctx)["grid"] = [(r, X[d]) for d, (_, r, _, _) in enumerate(pos)]

        def val(idx):
            out = values.get(tuple(r.get(idx).v for _, r, _, _ in pos)).cast("f")
            ins = b_and(*[z3.substitute(c, *[(k, to_int(i)) for k, i in zip(q, idx)]) for _, _, c, q in pos])
            return s_ite(ins, out, S("f", 0.0, True))
        return Arr(shape, "f", val)
    return Callable(at)


# ------------------------------------------------------------------ specifications
def near(c, grid, x, threshold, ok=lambda i: True):
    return c.exists(grid.shape[0], lambda i: c.and_(ok(i), abs(x - grid[i]) <= threshold))


def gaps(c, a, r):
    yield from gap_list(c, a, r, lambda i: True)


def gap_list(c, a, r, ok):
    r = r.arr if isinstance(r, SymList) else r
    n = c.len(r)
    at = lambda k: r[k] if not isinstance(r, list) else S.of(r[int(k.v)])
    x = a.new_grid
    yield "indices of the new grid", c.forall(n, lambda k: c.and_(at(k) >= 0, at(k) < x.shape[0], ~near(c, a.grid, x[at(k)], a.threshold, ok)))
    yield "ascending", c.forall((n, n), lambda k, m: c.implies(k < m, lambda: at(k) < at(m)))
    yield "every point too far away", c.forall(x.shape[0], lambda i: c.implies(~near(c, a.grid, x[i], a.threshold, ok), lambda: c.exists(n, lambda k: at(k) == i)))


def series(c, r, time, y, new, minutes, method="linear"):
    n, m = time.shape[0], new.shape[0]
    ok = lambda i: ~c.masked(y[i])
    first = lambda i: c.and_(ok(i), ~c.exists(i, lambda k: c.and_(ok(k), c.eq(time[k], time[i], 0, 0))))
    t, d = (lambda i: time[i]), (lambda i: c.data(y[i]))
    x, v = (lambda q: new[q]), (lambda q: c.data(r[q]))
    yield "new grid", c.shape_is(r, m)
    yield "missing exactly when no valid sample is within the time limit", c.forall(m, lambda q: c.iff(c.masked(r[q]), ~near(c, time, x(q), minutes / S.of(60), ok)))
    use = lambda q: ~c.masked(r[q])
    yield "last value after the data", c.forall((m, n), lambda q, i: c.implies(c.and_(use(q), first(i), x(q) >= t(i), ~c.exists(n, lambda k: c.and_(ok(k), t(k) > t(i)))), lambda: c.eq(v(q), d(i))))
    yield "first value before the data", c.forall((m, n), lambda q, i: c.implies(c.and_(use(q), first(i), x(q) <= t(i), ~c.exists(n, lambda k: c.and_(ok(k), t(k) < t(i)))), lambda: c.eq(v(q), d(i))))

    def between(q, i, j):
        adj = c.and_(use(q), first(i), first(j), t(i) < t(j), t(i) <= x(q), x(q) <= t(j), ~c.exists(n, lambda k: c.and_(ok(k), t(i) < t(k), t(k) < t(j))))
        if method == "linear":
            return c.implies(adj, lambda: c.eq(v(q), linear(t(i), t(j), d(i), d(j), x(q)), 1e-7, 1e-7))
        mid = x(q) - t(i) - (t(j) - x(q))
        return c.implies(c.and_(adj, abs(mid) > (0 if c.symbolic else 1e-9)), lambda: c.eq(v(q), c.ite(mid > 0, d(j), d(i))))
    yield ("linear" if method == "linear" else "nearest value") + " between adjacent valid samples", c.forall((m, n, n), between)


def one_dim(c, a, r):
    yield from series(c, r, a.time, a.y, a.time_new, a.max_time, a.method if "method" in a else "linear")


def bad_time(c, a):
    n = a.time.shape[0]
    return c.exists(n, lambda i: c.or_(a.time[i] > 24, a.time[i] < 0))


def nearest(c, grid, x, ok=lambda i: True):
    """i is the sample nearest to x (the lower of two equally near ones), away from the middle between samples"""
    n = grid.shape[0]
    d = lambda k: abs(grid[k] - x)
    tol = 0 if c.symbolic else 1e-9
    return lambda i: c.and_(ok(i), ~c.exists(n, lambda k: c.and_(k != i, ok(k), d(k) - tol < d(i))), ~c.exists(i, lambda k: c.and_(ok(k), d(k) <= d(i))))


def within(c, grid, x, ok=lambda i: True):
    n = grid.shape[0]
    return c.and_(c.exists(n, lambda i: c.and_(ok(i), grid[i] <= x)), c.exists(n, lambda i: c.and_(ok(i), grid[i] >= x)))


def along_y(c, a, r):
    y, z, new = a.y, a.z, a.y_new
    n, m = z.shape[0], new.shape[0]
    yield "new grid", c.shape_is(r, n, m)
    yield "missing outside the data", c.forall((n, m), lambda i, q: c.implies(~within(c, y, new[q]), lambda: c.masked(r[i, q])))
    yield "value and mask of the nearest gate", c.forall((n, m, y.shape[0]), lambda i, q, g: c.implies(within(c, y, new[q]) & nearest(c, y, new[q])(g), lambda: c.same(r[i, q], z[i, g])))


HOURS = TArr("f", "n", lo=0, hi=24, vals=[0, 1, 2, 12, 24])
Y = TOne(TArr("f", "n", masked=True, lo=0, hi=5), TArr("f", "n", masked=True, nomask=True, lo=0, hi=5))
NEW = TArr("f", "m", lo=0, hi=24, vals=[0, 0.5, 1, 1.01, 1.99, 2, 12, 24])
IP = {interp1d: interp1d_h}

CONTRACTS = [
    Contract(U + "get_gap_ind", {"grid": TArr("f", "n", lo=0, hi=24, order="<="), "new_grid": TArr("f", "m", lo=0, hi=24), "threshold": TReal(0, 3)}, gaps, dims={"n": 0, "m": 0}),
    Contract(U + "interpolate_1d", {"time": HOURS, "y": Y, "time_new": NEW, "max_time": TReal(1, 300), "method": TOne(TConst("linear"), TConst("nearest"))}, one_dim, dims={"n": 1, "m": 0}, overrides=IP,
             modular=fresh("f", "time_new", masked=True), requires_at_call=lambda c, a: [("times within a day", c.and_(a.time.shape[0] >= 1, ~bad_time(c, a)))]),
    Contract(U + "interpolate_1d", {"time": TArr("f", "n", lo=-1, hi=25), "y": Y, "time_new": NEW, "max_time": TReal(1, 300)}, lambda c, a, r: [("in range", ~bad_time(c, a))], dims={"n": 1, "m": 0}, overrides=IP, raises=[(ValueError, bad_time)], name="interpolate_1d time check"),
]

CONTRACTS += [
    Contract(U + "interpolate_2D_along_y", {"y": TArr("f", "g", order="<"), "z": TOne(TArr("f", ("n", "g"), masked=True), TArr("f", ("n", "g")), TArr("i", ("n", "g"))), "y_new": TArr("f", "m", vals=[-100, 100, 0, 50])}, along_y, dims={"n": 0, "g": 1, "m": 0}),
]


# ------------------------------------------------------------------ instruments
def mwr(c, a, r, p):
    for k in ("lwp", "lwp_error"):
        for nm, t in series(c, p.self.data[k].data, a.self.time, a.self.data[k].data, a.time_grid, a.max_time):
            yield f"{k}: {nm}", t


def disdrometer(c, a, r, p):
    for k in a.self.data:
        for nm, t in series(c, p.self.data[k].data, a.self.time, a.self.data[k].data, a.time_grid, 1, "nearest" if k == "synop_WaWa" else "linear"):
            yield f"{k}: {nm}", t


def lidar(c, a, r, p):
    s = a.self
    be, t, h, out = s.data["beta"].data, s.time, s.height, p.self.data["beta"].data
    T, H = a.time_new.shape[0], a.height_new.shape[0]
    full = lambda i: c.exists(be.shape[1], lambda k: ~c.masked(be[i, k]))
    x, y = (lambda q: a.time_new[q]), (lambda q: a.height_new[q])
    yield "new grid", c.shape_is(out, T, H)
    okt = lambda q: c.and_(within(c, t, x(q), full), near(c, t, x(q), 1 / S.of(60), full))
    okh = lambda q: c.and_(within(c, h, y(q)), near(c, h, y(q), 100))
    yield "missing beyond the data", c.forall((T, H), lambda q, g: c.implies(~(okt(q) & okh(g)), lambda: c.masked(out[q, g])))
    if c.symbolic and "grid" in ghost(c.ctx):
        (pt, X), (ph, Y) = ghost(c.ctx)["grid"]
        sel = [s for s in c.ctx.sels.values() if len(s.shape) == 1 and to_int(s.shape[0]).eq(to_int(t.shape[0]))]
        rank = (lambda i: S("i", sel[0].rank((i.v,)))) if sel else (lambda i: i)
        place = (lambda k: S("i", sel[0].raw_coords(k.v)[0])) if sel else (lambda k: k)
        N = S("i", sel[0].n) if sel else t.shape[0]
        yield from c.have("profiles with signal", t.shape[0], lambda i: c.implies(full(i), lambda: c.and_(rank(i) >= 0, rank(i) < N, place(rank(i)) == i, c.eq(X(rank(i).v), t[i]))))
        yield from c.have("first and last", t.shape[0], lambda i: c.implies(c.and_(full(i), rank(i) >= 0), lambda: c.and_(N >= 1, X(z3.IntVal(0)) <= t[i], X((N - 1).v) >= t[i])))
        P = lambda q, g: S("i", pt.get((g.v, q.v)).v)
        D = lambda q, k: abs(X(k.v) - x(q))
        yield from c.have("between profiles with signal", (T, H), lambda q, g: c.implies(okt(q), lambda: c.and_(N >= 1, X(z3.IntVal(0)) <= x(q), X((N - 1).v) >= x(q), P(q, g) >= 0, P(q, g) < N)))
        yield from c.have("nearest of the profiles in use", (T, H, N), lambda q, g, k: c.implies(okt(q), lambda: c.and_(D(q, P(q, g)) <= D(q, k), c.implies(k < P(q, g), lambda: D(q, P(q, g)) < D(q, k)))))
        yield from c.have("nearest profile with signal", (T, H, t.shape[0]), lambda q, g, i: c.implies(c.and_(okt(q), nearest(c, t, x(q), full)(i)), lambda: P(q, g) == rank(i)))
        yield from c.have("its position", (T, H, t.shape[0]), lambda q, g, i: c.implies(c.and_(full(i), P(q, g) == rank(i)), lambda: place(P(q, g)) == i))
        yield from c.have("nearest gate", (T, H, h.shape[0]), lambda q, g, j: c.implies(c.and_(okh(g), nearest(c, h, y(g))(j)), lambda: c.and_(S("b", ph.get((g.v, q.v)).v == j.v), c.eq(Y(ph.get((g.v, q.v)).v), h[j]))))
    yield "value and mask of the nearest gate of the nearest profile with signal", c.forall((T, H, t.shape[0], h.shape[0]), lambda q, g, i, j: c.implies(
        c.and_(okt(q), okh(g), nearest(c, t, x(q), full)(i), nearest(c, h, y(g))(j)), lambda: c.same(out[q, g], be[i, j])))
    yield from gap_list(c, NS({"grid": t, "new_grid": a.time_new, "threshold": 1 / S.of(60)}), r, full)


BETA = TArr("f", ("n", "g"), masked=True, lo=0, hi=1)
CONTRACTS += [
    Contract(K + "mwr:Mwr.interpolate_to_grid", {"self": TObj(K + "mwr:Mwr", time=HOURS, data=TDict(lwp=ca(Y.ts[0]), lwp_error=ca(Y.ts[0]))), "time_grid": NEW, "max_time": TReal(1, 10)}, mwr, dims={"n": 1, "m": 0}, modifies={"self"}, overrides=IP),
    Contract(K + "disdrometer:Disdrometer.interpolate_to_grid", {"self": TObj(K + "disdrometer:Disdrometer", time=HOURS, data=TOne(
        TDict(rainfall_rate=ca(Y.ts[0]), n_particles=ca(Y.ts[0]), synop_WaWa=ca(Y.ts[0])), TDict(rainfall_rate=ca(Y.ts[0]), n_particles=ca(Y.ts[0])))), "time_grid": NEW}, disdrometer, dims={"n": 1, "m": 0}, modifies={"self"}, overrides=IP),
    Contract(K + "lidar:Lidar.interpolate_to_grid", {"self": TObj(K + "lidar:Lidar", time=TArr("f", "n", lo=0, hi=24, order="<"), height=TArr("f", "g", lo=0, hi=900, order="<"), data=TDict(beta=ca(BETA))),
                                                     "time_new": TArr("f", "m", lo=0, hi=24), "height_new": TArr("f", "k", lo=0, hi=900)}, lidar, dims={"n": 1, "g": 1, "m": 0, "k": 0}, modifies={"self"}, overrides={RegularGridInterpolator: grid_h}),
]
