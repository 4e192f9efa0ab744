"""C13: precipitation amount and surface meteorology of weather stations."""
import math

import atmoslib

from pyvc.core import Arr
from pyvc.npm import binop
from pyvc.spec import *

from .stubs import trusted

from .common import *
from .c12 import ca

CI = "cloudnetpy.instruments.cloudnet_instrument:"
WS = "cloudnetpy.instruments.weather_station:"


def before(c, x, q):
    """index p<q of the last valid value before q: as a condition on p"""
    return lambda p: c.and_(p < q, ~c.masked(x[p]), ~c.exists(x.shape[0], lambda m: c.and_(p < m, m < q, ~c.masked(x[m]))))


def step(c, x, y, p, q):
    d = lambda a, i: c.data(a[i])
    return c.eq(d(y, q) - d(y, p), c.ite(d(x, q) >= d(x, p), d(x, q) - d(x, p), d(x, q)), 1e-7, 1e-7)


def norm_inv(c, L, P, k):
    y, x, first = L.amount, P.amount, L.first_valid
    n = x.shape[0]
    i = first + 1 + k
    lv = L.last_valid
    yield "cells", c.shape_is(y, n)
    yield "missing stays missing", c.forall(n, lambda j: c.iff(c.masked(y[j]), c.masked(x[j])))
    yield "not yet reached", c.forall(n, lambda j: c.implies(j >= i, lambda: c.eq(c.data(y[j]), c.data(x[j]))))
    yield "first unchanged", c.eq(c.data(y[first]), c.data(x[first]))
    yield "last valid", c.and_(lv >= first, lv < i, ~c.masked(x[lv]), ~c.exists(n, lambda m: c.and_(lv < m, m < i, ~c.masked(x[m]))))
    yield "offset", c.eq(c.data(y[lv]), c.data(x[lv]) + L.offset)
    yield "steps", c.forall((n, n), lambda p, q: c.implies(c.and_(q < i, ~c.masked(x[q]), p >= first, before(c, x, q)(p)), lambda: step(c, x, y, p, q)))


def normalised(c, a, r, p):
    x, y = a.self.data["rainfall_amount"].data, p.self.data["rainfall_amount"].data
    n = x.shape[0]
    yield "cells", c.shape_is(y, n)
    yield "missing stays missing", c.forall(n, lambda j: c.iff(c.masked(y[j]), c.masked(x[j])))
    yield "zero at the first measurement", c.forall(n, lambda j: c.implies(c.and_(~c.masked(x[j]), ~c.exists(n, lambda m: c.and_(m < j, ~c.masked(x[m])))), lambda: c.eq(c.data(y[j]), 0)))
    yield "increments follow the counter across resets", c.forall((n, n), lambda p, q: c.implies(c.and_(~c.masked(x[q]), before(c, x, q)(p)), lambda: step(c, x, y, p, q)))


def summed(c, a, r, p):
    d = p.self.data
    rate, time = a.self.data["rainfall_rate"].data, a.self.data["time"].data
    n = rate.shape[0]
    y = d["rainfall_amount"].data
    yield "cells", c.shape_is(y, n)
    ok = lambda j: c.and_(j > 0, ~c.masked(rate[j]), ~c.masked(rate[j - 1]))
    inc = lambda j: c.data(y[j]) - c.data(y[j - 1])
    yield "missing where the rate is missing", c.implies(n > 1, lambda: c.forall(n, lambda j: c.iff(c.masked(y[j]), c.masked(rate[j]))))
    yield "increments proportional to the rate", c.implies(n > 1, lambda: c.forall((n, n), lambda j, k: c.implies(c.and_(ok(j), ok(k)), lambda: c.eq(inc(j) * c.data(rate[k]), inc(k) * c.data(rate[j]), 1e-6, 1e-12))))
    d = lambda j: time[j] - time[j - 1]
    regular = c.and_(n > 1, ~c.exists(n, lambda j: c.and_(j > 0, ~c.eq(d(j), d(1), 1e-12, 1e-12)))) if c.symbolic or S.of(n).v > 1 else False
    yield "running sum over the sampling interval", c.implies(regular, lambda: c.forall(n, lambda j: c.implies(ok(j), lambda: c.eq(inc(j), c.data(rate[j]) * d(1) * 3600, 1e-6, 1e-9))))


def wind(c, a, r, p):
    x, y = a.self.data["wind_direction"].data, p.self.data["wind_direction"].data
    yield "cells", c.like(y, x)

    def cell(i):
        v, w = c.data(x[i]), c.data(y[i])
        want = c.ite(c.and_(v > -2, v < 0), v + 360, c.ite(c.and_(v >= 360, v < 362), v - 360, v))
        return c.and_(c.iff(c.masked(y[i]), c.masked(x[i])), c.implies(~c.masked(x[i]), lambda: c.eq(w, want, 1e-9, 1e-9)))
    yield "wrapped within 2 degrees", c.forall(x.shape[0], cell)


def conv(keys):
    def ens(c, a, r, p):
        for k, f in keys.items():
            x, y = a.self.data[k].data, p.self.data[k].data
            yield f"{k}: cells", c.like(y, x)
            yield f"{k}: converted", c.forall(x.shape[0], lambda i: c.and_(c.iff(c.masked(y[i]), c.masked(x[i])), c.implies(~c.masked(x[i]), lambda: c.eq(c.data(y[i]), f(c.data(x[i])), 1e-9, 0))))
    return ens


def st(**data):
    return TObj(WS + "WS", data=TDict(**{k: ca(v) for k, v in data.items()}))


M = lambda **kw: TArr("f", "n", masked=True, **kw)
CONTRACTS = [
    Contract(CI + "CSVFile.normalize_cumulative_amount", {"self": st(rainfall_amount=TOne(M(lo=0, hi=20, vals=[0, 1, 2, 3]), TArr("f", "n", masked=True, nomask=True, lo=0, vals=[0, 1, 2]))), "key": "rainfall_amount"}, normalised, dims={"n": 0},
             loops={("CSVFile.normalize_cumulative_amount", 0): LoopSpec(norm_inv)}, modifies={"self"}),
    Contract(WS + "WS.wrap_wind_direction", {"self": st(wind_direction=TOne(M(lo=-10, hi=370, vals=[-2, 0, 360, 362, -1, 361]), TArr("f", "n", lo=-10, hi=370, vals=[-2, 0, 360, 362])))}, wind, dims={"n": 0}, modifies={"self"}),
    Contract(WS + "WS.convert_temperature_and_humidity", {"self": st(air_temperature=M(lo=-60, hi=60), relative_humidity=M(lo=0, hi=110))}, conv({"air_temperature": lambda x: x + S.of(273.15), "relative_humidity": lambda x: x / 100}), dims={"n": 0}, overrides={atmoslib.c2k: trusted(atmoslib.c2k, lambda ctx, x: binop(ctx, "+", x, S.of(273.15)))}, modifies={"self"}),
    Contract(WS + "WS.convert_pressure", {"self": st(air_pressure=M(lo=500, hi=1100))}, conv({"air_pressure": lambda x: x * 100}), dims={"n": 0}, modifies={"self"}),
    Contract(WS + "WS.convert_rainfall_rate", {"self": st(rainfall_rate=M(lo=0, hi=5))}, conv({"rainfall_rate": lambda x: x / 60000}), dims={"n": 0}, modifies={"self"}),
    Contract(WS + "WS.calculate_rainfall_amount", {"self": st(rainfall_rate=TOne(M(lo=0, hi=1e-5), TArr("f", "n", lo=0, hi=1e-5)), time=TArr("f", "n", lo=0, hi=24, order="<"))}, summed, dims={"n": 1}, modifies={"self"}),
]
