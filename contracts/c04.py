"""C04: radar attenuation status."""
from pyvc.spec import *

from .c03 import att, corr
from .common import *


def source(vars_, **kw):
    return TObj("cloudnetpy.datasource:DataSource", dataset=dataset(**vars_), time=TArr("f", "t"), **kw)


def m2(**kw):
    return TEither("f", TH, lo=0, hi=40, vals=[0, 10, 15, 5, 14.9], **kw)


def gas(a, key, i, j, c):
    v = a.data_source.dataset.variables
    if key not in v:
        return S("f", 0.0)
    x = v[key][i, j]
    return c.ite(x.m, 0.0, c.data(x))


def row(a, key, i, c, scale=1.0):
    v = a.data_source.dataset.variables
    if key not in v:
        return S("f", 0.0)
    x = v[key][i]
    return c.ite(x.m, 0.0, c.data(x)) * scale


def classes(c, a, i, j):
    tot = S("f", 0.0)
    for k in ("radar_liquid_atten", "radar_rain_atten", "radar_melting_atten"):
        tot = tot + gas(a, k, i, j, c)
    w = S.of(a.data_source.dataset.variables["radar_frequency"].data) >= 90
    lwp = row(a, "lwp", i, c)
    rr = row(a, "rainfall_rate", i, c, 3600000)
    sev = (tot > 15) | (w & ((lwp > 1) | (rr > 3)))
    return tot > 0, tot >= 10, sev


def status(c, a, r):
    q = a.categorize_bits.quality_bits
    yield "one status per cell", c.like(r, q.radar)

    def plain(i, j):
        rad = b(q.radar[i, j])
        sm, mo, se = classes(c, a, i, j)
        unc = att(q, i, j) & ~corr(q, i, j)
        return first(c, [(rad & unc, 5), (rad & se, 4), (rad & mo, 3), (rad & sm, 2), (rad, 1)], 0)

    def cell(i, j):
        p = plain(i, j)
        sev_below = c.exists((j + 1,), lambda k: c.eq(plain(i, k), 4))
        return c.eq(r[i, j], c.ite(b(sev_below) & ~c.eq(p, 4), 6, p))
    yield "status follows attenuation, correction and severe layers below", c.forall(("t", "h"), cell)


def att_classes(c, a, r):
    def cell(i, j):
        sm, mo, se = classes(c, a, i, j)
        return c.and_(c.iff(b(r.small[i, j]), sm), c.iff(b(r.moderate[i, j]), mo), c.iff(b(r.severe[i, j]), se))
    yield "attenuation classes", c.forall(("t", "h"), cell)


full = dict(radar_liquid_atten=m2(), radar_rain_atten=m2(), radar_melting_atten=m2(),
            lwp=TEither("f", "t", lo=0, hi=3, vals=[1, 0]), rainfall_rate=TEither("f", "t", lo=0, hi=3e-6, vals=[0, 3 / 3600000]),
            radar_frequency=scalar_var(TReal(30, 100, vals=[35.5, 94, 90])))
SRC = TOne(source({**full, "radar_rain_atten": TArr("f", TH, masked=True, lo=0, hi=40), "radar_melting_atten": TArr("f", TH, masked=True, lo=0, hi=40),
                   "lwp": TArr("f", "t", masked=True, lo=0, hi=3), "rainfall_rate": TArr("f", "t", masked=True, lo=0, hi=3e-6, vals=[0, 1e-6])}),
           source({"radar_liquid_atten": TArr("f", TH, masked=True, lo=0, hi=40), "radar_rain_atten": TArr("f", TH, masked=True, lo=0, hi=40),
                   "radar_melting_atten": TArr("f", TH, masked=True, lo=0, hi=40), "radar_frequency": scalar_var(TReal(30, 100, vals=[35.5, 94]))}))

CONTRACTS = [
    Contract("cloudnetpy.products.classification:_get_attenuation_classes", {"data_source": SRC}, att_classes, dims={"t": 1, "h": 1}),
    Contract("cloudnetpy.products.classification:_get_radar_attenuation_status", {"data_source": SRC, "categorize_bits": TObj("cloudnetpy.products.product_tools:CategorizeBits", quality_bits=quality_bits())},
             status, dims={"t": 1, "h": 1}),
]
