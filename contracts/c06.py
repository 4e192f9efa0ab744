"""C06: ice water content / effective radius retrieval."""
import numpy as np

from cloudnetpy.products.product_tools import IceClassification
from pyvc.spec import *

from .common import *

RHO_ICE = 917
K2 = {"Ka": 0.878, "W": 0.669}
# (ZT, T, Z, c)
COEF = {("iwc", "Ka"): (0.000242, -0.0186, 0.0699, -1.63), ("iwc", "W"): (0.000580, -0.00706, 0.0923, -0.992),
        ("ier", "Ka"): (-0.000205, -0.0015, 0.0016, -1.52), ("ier", "W"): (-0.000296, -0.00193, 0.0, -1.502)}


def nc(rain, masked=True, **kw):
    return TObj("contracts.fakes:Dataset", variables=TDict(
        category_bits=TBits(6), quality_bits=TBits(10), Z=TArr("f", TH, masked=True, lo=-60, hi=30),
        Z_error=TArr("f", TH, masked=True, lo=0, hi=5),
        **{rain: TArr("f", "t", masked=True, lo=0, vals=[0], nomask=not masked)}, **kw))


class Flags:
    def __init__(self, c, a, i, j):
        v = a.nc.variables
        cb, qb = v["category_bits"][i, j], v["quality_bits"][i, j]
        bit = lambda x, n: c.bit(x, n)
        self.falling, self.freezing, self.melting, self.insect = bit(cb, 1), bit(cb, 2), bit(cb, 3), bit(cb, 5)
        att = [bit(qb, n) for n in (4, 6, 8)]
        cor = [bit(qb, n) for n in (5, 7, 9)]
        self.att = att[0] | att[1] | att[2]
        self.unc = (att[0] & ~cor[0]) | (att[1] & ~cor[1]) | (att[2] & ~cor[2])
        self.ice = self.falling & self.freezing & ~self.melting & ~self.insect
        self.would = (self.falling & ~self.freezing & ~self.insect) | self.melting
        rain = next(v[k] for k in ("rain_detected", "rainfall_rate", "rain_rate") if k in v)
        self.rain = c.or_(c.masked(rain[i]), ~c.eq(c.data(rain[i]), 0))
        self.z = v["Z"][i, j]
        self.t = a.src.temperature[i, j]


def icy(P, f, a):
    from cloudnetpy.products.iwc import IwcSource
    P.nc(a.nc)
    cls = P(IceClassification, "x")
    P.set(a.src, "dataset", a.nc)
    P.set(a.src, "coefficients", P(type_of(a.src, "_get_coefficients"), a.src))
    P(type_of(a.src, "append_icy_data"), a.src, cls)
    if a.src_product == "ier":
        P(type_of(a.src, "convert_units"), a.src)
    P(type_of(a.src, "append_status"), a.src, cls)
    P(type_of(a.src, "append_error" if a.src_product == "iwc" else "append_ier_error"), a.src, *([cls] if a.src_product == "iwc" else []))
    return {k: P.attr(v, "data") for k, v in P.attr(a.src, "data").items()}


def type_of(o, name):
    cls = o.cls if isinstance(o, Obj) else type(o)
    return getattr(cls, name)


def zt(c, a, z, t):
    cz, ct, cc, c0 = COEF[(a.src_product, a.src.wl_band)]
    zs = z + c.log10(S("f", K2[a.src.wl_band] / 0.93)) * 10
    scale = 1e-3 if a.src_product == "iwc" else 3 / (2 * RHO_ICE)
    return c.pow10(zs * t * cz + t * ct + zs * cc + c0) * scale


def ensures(c, a, r):
    p = a.src_product
    val, st, err = r[p], r[f"{p}_retrieval_status"], r[f"{p}_error"]
    z = a.nc.variables["Z"]
    yield "grid", c.and_(c.like(val, z), c.like(st, z), c.like(err, z))

    def present(i, j):
        F = Flags(c, a, i, j)
        return c.iff(c.masked(val[i, j]), ~(F.ice & ~F.unc & ~c.masked(F.z)))
    yield "value exactly in corrected or unattenuated ice cells with radar data", c.forall(TH, present)

    def value(i, j):
        F = Flags(c, a, i, j)
        return c.implies(~c.masked(val[i, j]), lambda: c.close(c.data(val[i, j]), zt(c, a, c.data(F.z), F.t)))
    yield "value from the documented reflectivity-temperature formula", c.forall(TH, value)

    def status(i, j):
        F = Flags(c, a, i, j)
        ok = F.ice & ~c.masked(F.z)
        return c.eq(st[i, j], first(c, [(F.ice & F.unc, 2), (ok & F.att, 3), (ok, 1), (F.ice, 4), (F.rain & F.freezing & ~F.melting, 6), (F.would, 7)], 0))
    yield "retrieval status table", c.forall(TH, status)

    def error(i, j):
        F = Flags(c, a, i, j)
        if p == "ier":
            return c.same(err[i, j], val[i, j] * c.sqrt(S("f", 0.4**2 + 0.4**2)))
        ze = a.nc.variables["Z_error"][i, j]
        cz, ct, cc, c0 = COEF[(p, a.src.wl_band)]
        rnd = c.data(ze) * (F.t * cz + cc) * 10
        return c.and_(c.iff(c.masked(err[i, j]), ~(F.ice & ~F.unc & ~c.masked(ze))),
                      c.implies(~c.masked(err[i, j]), lambda: c.eq(c.data(err[i, j]), c.sqrt(rnd * rnd + 1.7**2))))
    yield "error estimate in the same cells", c.forall(TH, error)


def src(product, band):
    mod = "iwc:IwcSource" if product == "iwc" else "ier:IerSource"
    return TObj(f"cloudnetpy.products.{mod}", product=product, wl_band=band, temperature=TArr("f", TH, lo=-80, hi=30),
                data=TDict())


CONTRACTS = []
for p in ("iwc", "ier"):
    for band in ("Ka", "W"):
        rains = ["rain_detected", "rainfall_rate", "rain_rate"] if (p, band) == ("iwc", "Ka") else ["rain_detected"]
        CONTRACTS.append(Contract(
            "cloudnetpy.products.product_tools:IceSource.append_status",
            {"nc": TOne(*[nc(x) for x in rains], nc("rain_rate", masked=False)), "src": src(p, band), "src_product": p}, ensures,
            dims={"t": 2, "h": 1}, call=prog(icy), name=f"{p} {band}", modifies={"src"}))
