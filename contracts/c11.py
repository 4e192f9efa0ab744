"""C11: drizzle errors and biases."""
import math

from pyvc.core import Arr
from pyvc.spec import *

from .common import *
from .fakes import positional

DE = "cloudnetpy.products.drizzle_error:"
LN10 = 10 / math.log(10)


def lin(c, x):
    """relative error of an error in dB (at most 100 dB)"""
    return c.exp(c.min(c.data(x), 100) / S.of(LN10)) - 1


def db(c, x):
    return c.log(c.max(x, -0.9) + 1) * S.of(LN10)


def norm(c, scale, w, x, mu=None):
    s = scale * c.sqrt((x[0] * w[0]) ** 2 + (x[1] * w[1]) ** 2) if mu is None else c.sqrt((scale * c.sqrt((x[0] * w[0]) ** 2 + (x[1] * w[1]) ** 2)) ** 2 + S.of(mu) ** 2)
    return s


def errors(c, a, r):
    v = a.cat.dataset.variables
    Do = a.sol.params["Do"]
    ze, be = v["Z_error"].data, v["beta_error"].data
    zb, bb = v["Z_bias"].data, v["beta_bias"].data
    for k in ("Do_error", "drizzle_lwc_error", "drizzle_lwf_error", "S_error", "drizzle_N_error", "v_drizzle_error"):
        yield f"{k}: grid", c.like(r[k], Do)
    z = (lambda i, j: ze[i, j]) if isinstance(ze, Arr) and ze.ndim == 2 else (lambda i, j: S.of(ze))
    has = lambda i, j: c.and_(Do[i, j] > 0, ~c.masked(z(i, j)))
    tiny, small = S.of(1e-5), S.of(1e-4)

    def table(key, normal, sml=None, tny=None):
        def cell(i, j):
            x = (lin(c, z(i, j)), lin(c, be))
            f = lambda t: db(c, norm(c, *t[:2], x, *t[2:]))
            d = Do[i, j]
            want = f(normal)
            if sml:
                want = c.ite(c.and_(d <= small, d > tiny), f(sml), want)
            if tny:
                want = c.ite(d <= tiny, f(tny), want)
            return c.implies(has(i, j), lambda: c.and_(~c.masked(r[key][i, j]), c.eq(c.data(r[key][i, j]), want, 1e-7)))
        return c.forall(TH, cell)
    yield "diameter error", table("Do_error", (2 / 7, (1, 1), .07), (1 / 4, (1, 1), .25))
    yield "water content error", table("drizzle_lwc_error", (1 / 7, (1, 6)), (1 / 4, (1, 3)))
    yield "water flux error", table("drizzle_lwf_error", (1 / 7, (3, 4), .07), (1 / 2, (1, 1), .25), (1 / 4, (3, 1), .25))
    yield "lidar ratio error", table("S_error", (1 / 2, (1, 1)))
    bias = lambda scale, w: db(c, norm(c, scale, w, (lin(c, zb), lin(c, bb))))
    yield "diameter bias", c.eq(c.data(r["Do_bias"]), bias(2 / 7, (1, 1)), 1e-7)
    yield "water content bias", c.eq(c.data(r["drizzle_lwc_bias"]), bias(1 / 7, (1, 6)), 1e-7)
    yield "water flux bias", c.eq(c.data(r["drizzle_lwf_bias"]), bias(1 / 7, (3, 4)), 1e-7)
    yield "velocity bias", c.eq(c.data(r["v_drizzle_bias"]), c.data(r["Do_bias"]), 1e-7)
    yield "velocity error as diameter error outside tiny drops", c.forall(TH, lambda i, j: c.implies(c.and_(has(i, j), Do[i, j] > tiny), lambda: c.eq(c.data(r["v_drizzle_error"][i, j]), c.data(r["Do_error"][i, j]), 1e-7)))
    yield "no error without drizzle", c.and_(*[c.forall(TH, lambda i, j: c.implies(c.eq(Do[i, j], 0, 0, 0), lambda: c.or_(c.masked(r[k][i, j]), c.eq(c.data(r[k][i, j]), 0)))) for k in ("Do_error", "drizzle_lwc_error", "drizzle_lwf_error", "S_error", "drizzle_N_error", "v_drizzle_error")])


def cat(ze):
    return TObj("cloudnetpy.products.drizzle_tools:DrizzleSource", z=TArr("f", TH, masked=True, lo=1e-22, hi=1e-16),
                dataset=TObj("contracts.fakes:Dataset", variables=TDict(Z_error=ze, beta_error=scalar_var(TReal(.05, 5)), Z_bias=scalar_var(TReal(.05, 5)), beta_bias=scalar_var(TReal(.05, 5)))))


CONTRACTS = [
    Contract(DE + "get_drizzle_error", {"cat": TOne(cat(var(TArr("f", TH, masked=True, lo=.05, hi=8, vals=[.5]))), cat(scalar_var(TReal(.05, 5)))), "sol": TObj("cloudnetpy.products.drizzle_tools:DrizzleSolver", params=TDict(Do=TArr("f", TH, lo=0, hi=3e-4, vals=[0, 1e-5, 1e-4, 5e-6])))},
             errors, dims={"t": 2, "h": 1}, call=positional),
]
