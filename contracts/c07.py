"""C07: liquid water content."""
import atmoslib
import numpy as np

from pyvc import npm
from pyvc.core import Arr, S, to_real, ufun
from pyvc.spec import *

from .common import *
from .stubs import trusted
import z3


def grad_term(t, p):
    g = ufun("adiabatic_gradient", z3.RealSort(), z3.RealSort(), z3.RealSort())
    return S("f", g(to_real(t.v), to_real(p.v)))


def _grad_model(ctx, t, p):
    g = ufun("adiabatic_gradient", z3.RealSort(), z3.RealSort(), z3.RealSort())
    x, y = z3.Reals("gt gp")
    ctx.fact(z3.ForAll([x, y], g(x, y) > 0, patterns=[g(x, y)]))
    f, h = t.fn(), p.fn()
    return Arr(t.shape, "f", lambda i: grad_term(f(i), h(i)), sel=t.sel)


OV = {atmoslib.adiabatic_lwc_gradient: trusted(atmoslib.adiabatic_lwc_gradient, _grad_model)}


def ceq(c, x, y):
    return c.eq(x, y, 1e-8, 1e-20)


def grad(c, t, p):
    if c.symbolic:
        return grad_term(t, p)
    return S("f", float(atmoslib.adiabatic_lwc_gradient(np.array([t.v]), np.array([p.v]))[0]))


def dz(c, h, j):
    return h[j] - c.ite(j > 0, h[c.max(j - 1, 0)], 0)


def cumsumr(c, a, r):
    x = a.array
    yield "shape", c.like(r, x)
    n = x.shape[-1]
    at = (lambda i, j: x[i, j]) if x.ndim == 2 else (lambda i, j: x[j])
    rt = (lambda i, j: r[i, j]) if x.ndim == 2 else (lambda i, j: r[j])

    def cell(i, j):
        v = at(i, j)
        if x.kind == "b":
            v = c.ite(v, 1, 0)
        return ceq(c, rt(i, j), c.ite(c.eq(v, 0, 0, 0), 0, c.ite(j > 0, rt(i, c.max(j - 1, 0)), 0) + v))
    rows = x.shape[0] if x.ndim == 2 else 1
    yield "running sum restarts after every zero", c.forall((rows, n), cell)
    yield "sums of non-negative values are at least the value", c.forall((rows, n), lambda i, j: rt(i, j) >= (c.ite(at(i, j), 1, 0) if x.kind == "b" else at(i, j)) * (1 if c.symbolic else 1 - 1e-9))


def nonneg(c, a):
    x = a.array
    if x.kind != "b":
        yield "summands are not negative", c.forall(x.shape, lambda *i: x[i] >= 0)


def fresh(kind, arg, masked=False):
    def f(c, a):
        x = getattr(a, arg)
        # a pure function: equal arguments, same result
        key = ("pure", f, *[(k, npm._canon(c.ctx, v) if isinstance(v, Arr) else repr(v)) for k, v in sorted(a._d.items())])
        if key not in c.ctx.memo:
            c.ctx.memo[key] = c.ctx.fresh_arr("res", kind if isinstance(kind, str) else kind(x), x.shape, masked=masked)
        return c.ctx.memo[key]
    return f


def ffill(c, a, r):
    x = a.array
    yield "shape", c.like(r, x)
    at = (lambda y, i, j: y[i, j]) if x.ndim == 2 else (lambda y, i, j: y[j])

    def cell(i, j):
        v = at(x, i, j)
        zero = ~b(v) if x.kind == "b" else c.eq(v, 0)
        return c.and_(c.implies(~zero, lambda: c.eq(at(r, i, j), v)),
                      c.implies(c.and_(zero, j > 0), lambda: c.eq(at(r, i, j), at(r, i, c.max(j - 1, 0)))))
    yield "zeros take the value before them", c.forall((x.shape[0] if x.ndim == 2 else 1, x.shape[-1]), cell)


def base(c, liq, i, j):
    """cell starts a liquid layer"""
    return b(liq[i, j]) & ~(b(j > 0) & b(liq[i, c.max(j - 1, 0)]))


def adiabatic(c, liq, T, p, h, ad):
    """recurrence that determines the adiabatic profile"""
    def cell(i, j):
        prev = c.max(j - 1, 0)
        return c.implies(~b(liq[i, j]), lambda: c.eq(ad(i, j), 0)), c.implies(base(c, liq, i, j), lambda: c.close(ad(i, j), grad(c, T[i, j], p[i, j]) * dz(c, h, j)))
    return cell


def filled(c, a, r):
    liq, T, p = a.is_liquid, a.temperature, a.pressure
    yield "shape", c.like(r, liq)

    def cell(i, j):
        prev = c.max(j - 1, 0)
        return c.and_(c.implies(~b(liq[i, j]), lambda: c.eq(r[i, j], 0)),
                      c.implies(base(c, liq, i, j), lambda: ceq(c, r[i, j], grad(c, T[i, j], p[i, j]))),
                      c.implies(b(liq[i, j]) & ~base(c, liq, i, j), lambda: ceq(c, r[i, j], r[i, prev])))
    yield "each liquid layer carries the gradient of its base, elsewhere zero", c.forall(liq.shape, cell)
    yield "nothing is masked", c.forall(liq.shape, lambda i, j: ~c.masked(r[i, j]))


def calc(c, a, r):
    g, h = a.lwc_dz, a.height_agl
    yield "shape", c.like(r, g)

    def cell(i, j):
        prev = c.max(j - 1, 0)
        zero = c.eq(g[i, j], 0, 0, 0)
        inside = b(j > 0) & ~c.eq(g[i, prev], 0, 0, 0)
        return c.and_(c.implies(zero, lambda: c.eq(r[i, j], 0, 0, 0)),
                      c.implies(~zero & ~inside, lambda: ceq(c, r[i, j], g[i, j] * dz(c, h, j))),
                      c.implies(~zero & inside & c.eq(g[i, j], g[i, prev], 0, 0), lambda: ceq(c, r[i, j], r[i, prev] + g[i, j] * dz(c, h, j))))
    yield "water content grows linearly with the depth above layer base, zero outside", c.forall(g.shape, cell)
    yield "nothing is masked", c.forall(g.shape, lambda i, j: ~c.masked(r[i, j]))


def norm(c, a, r):
    ad, lwp, h = a.lwc_adiabatic, a.lwp, a.height_agl
    yield "shape", c.like(r, ad)

    def cell(i, j):
        tot = c.sum(h.shape[0], lambda k: ad[i, k] * dz(c, h, k))
        zero = c.eq(tot, 0, 0, 0)
        miss = c.or_(c.masked(lwp[i]), zero)
        return c.implies(c.or_(zero, tot >= 1e-12), lambda: c.and_(
            c.iff(c.masked(r[i, j]), miss), c.implies(~miss, lambda: ceq(c, r[i, j] * tot, ad[i, j] * c.data(lwp[i])))))
    yield "scaled by one factor per profile so that its integral is the measured path", c.forall(ad.shape, cell)
    yield "no water, none after scaling", c.forall(ad.shape, lambda i, j: c.implies(c.eq(ad[i, j], 0, 0, 0) & ~c.masked(r[i, j]), lambda: c.eq(c.data(r[i, j]), 0, 0, 0)))
    yield "missing where the path is missing", c.forall(ad.shape, lambda i, j: c.implies(c.masked(lwp[i]), c.masked(r[i, j])))


HGT = TArr("f", "h", lo=5, hi=12000, order="<")
LIQ = TArr("b", TH, runs=True)
TEMP, PRES = TArr("f", TH, lo=240, hi=290), TArr("f", TH, lo=40000, hi=101000)


def whole(c, a, r):
    liq = a.src.categorize_bits.category_bits.droplet
    lwp, rain, h = a.src.lwp, a.src.is_rain, a.src.height_agl
    ad, lwc = r.lwc_adiabatic, r.lwc
    T, p = a.src.atmosphere
    yield "shape", c.like(lwc, liq)

    def adc(i, j):
        prev = c.max(j - 1, 0)
        return c.and_(c.implies(~b(liq[i, j]), lambda: c.eq(ad[i, j], 0, 0, 0)),
                      c.implies(base(c, liq, i, j), lambda: ceq(c, ad[i, j], grad(c, T[i, j], p[i, j]) * dz(c, h, j))))
    yield "zero outside liquid layers; adiabatic at layer base", c.forall(TH, adc)

    def cell(i, j):
        tot = c.sum("h", lambda k: ad[i, k] * dz(c, h, k))
        zero = c.eq(tot, 0, 0, 0)
        miss = c.or_(c.masked(lwp[i]), zero, b(rain[i]))
        return c.implies(c.or_(zero, tot >= 1e-12), lambda: c.and_(
            c.iff(c.masked(lwc[i, j]), miss), c.implies(~miss, lambda: ceq(c, lwc[i, j] * tot, ad[i, j] * c.data(lwp[i])))))
    yield "profile integrates to the measured path; rain or missing path masked", c.forall(TH, cell)


def lwc_new(P, f, a):
    from cloudnetpy.products.lwc import Lwc
    return P(Lwc, a.src)


SRC = TObj("cloudnetpy.products.lwc:LwcSource", categorize_bits=TObj("cloudnetpy.products.product_tools:CategorizeBits",
           category_bits=TObj("cloudnetpy.products.product_tools:CategoryBits", droplet=LIQ)), height_agl=HGT, atmosphere=TTuple(TEMP, PRES),
           lwp=TOne(TArr("f", "t", masked=True, lo=0, hi=2, vals=[0]), TArr("f", "t", lo=0, hi=2)), is_rain=TOne(TArr("b", "t"), TArr("i", "t", lo=0, hi=1)))

U = "cloudnetpy.categorize.atmos_utils:"
CONTRACTS = [
    Contract("cloudnetpy.utils:cumsumr", {"array": TOne(TArr("f", TH, lo=0, hi=9, vals=[0]), TArr("b", TH)), "axis": 1}, cumsumr, dims={"t": 1, "h": 1}, name="cumsumr 2d", modular=fresh(lambda x: "i" if x.kind in "bi" else "f", "array"), requires_at_call=nonneg),
    Contract("cloudnetpy.utils:cumsumr", {"array": TOne(TArr("f", "h", lo=0, hi=9, vals=[0]), TArr("i", "h", lo=0, hi=1))}, cumsumr, dims={"h": 1}, name="cumsumr 1d"),
    Contract("cloudnetpy.utils:ffill", {"array": TOne(TArr("f", TH, vals=[0]), TArr("b", TH), TArr("f", "h", vals=[0]))}, ffill, dims={"t": 1, "h": 1}),
    Contract(U + "fill_clouds_with_lwc_dz", {"temperature": TEMP, "pressure": PRES, "is_liquid": LIQ}, filled, dims={"t": 1, "h": 1}, overrides=OV, modular=fresh("f", "is_liquid", masked=True)),
    Contract(U + "calc_adiabatic_lwc", {"lwc_dz": TArr("f", TH, masked=True, nomask=True, lo=0, hi=1e-5, vals=[0, 1e-6], runs=True), "height_agl": HGT}, calc, dims={"t": 1, "h": 1}, modular=fresh("f", "lwc_dz", masked=True)),
    Contract(U + "normalize_lwc_by_lwp", {"lwc_adiabatic": TArr("f", TH, masked=True, nomask=True, lo=0, hi=1e-2, vals=[0]), "lwp": TOne(TArr("f", "t", masked=True, lo=0, hi=2, vals=[0]), TArr("f", "t", lo=0, hi=2)), "height_agl": HGT},
             norm, dims={"t": 2, "h": 1}, modular=fresh("f", "lwc_adiabatic", masked=True)),
    Contract("cloudnetpy.products.lwc:Lwc.__init__", {"src": SRC}, whole, dims={"t": 2, "h": 1}, call=prog(lwc_new), overrides=OV),
]
TRUSTED = ["atmoslib.adiabatic_lwc_gradient: an unspecified positive function of base temperature and pressure"]
