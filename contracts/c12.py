"""C12: site coordinates of a measurement file."""
import math

import numpy as np
from numpy import ma

from pyvc.core import Arr
from pyvc.spec import *

from .common import *

U = "cloudnetpy.utils:"
KEYS = ("latitude", "longitude", "altitude")


def geo_prog(P, f, a):
    from contracts.fakes import GeoDataset
    P.standin("netCDF4.Dataset", GeoDataset)
    data = {k: v for k, v in a.data.items()}
    P(f, data, gps=a.gps, site_meta=a.site_meta, dataset=a.dataset)
    out = {}
    for k in KEYS:
        if k in data and data[k] is not a.data.get(k):
            out[k] = (P.attr(data[k], "data"), P.attr(data[k], "source"), P.attr(data[k], "dimensions"))
    return out


def arr(x):
    return x if isinstance(x, Arr) and x.ndim == 1 else None


def pick(c, a, key):
    """(candidate, source, condition that it is chosen) in order of precedence"""
    out = []
    ds = a.dataset
    if a.gps and key != "altitude":
        v = None
        if ds is not None and key in ds.variables:
            v = ds.variables[key].data
        elif key in a.data:
            v = a.data[key].data
        if v is not None:
            n = v.shape[0]
            out.append((v, "GPS", c.exists(n, lambda i: c.and_(~c.masked(v[i]), ~c.eq(c.data(v[i]), 0, 0, 0)))))
    if a.site_meta is not None and key in a.site_meta:
        out.append((a.site_meta[key], "site coordinates", S("b", True)))
    if ds is not None and key in ds.variables:
        v = ds.variables[key].data
        out.append((v, "raw file", c.exists(v.shape[0], lambda i: ~c.masked(v[i])) if arr(v) is not None else S("b", True)))
    return out


def geo(c, a, r):
    def use(v, src, key):
        """value of key at time i (or the scalar) before stationarity"""
        def at(i):
            s = S.of(v[i]) if arr(v) is not None else S.of(v)
            m = c.or_(c.masked(s), src == "GPS" and c.eq(c.data(s), 0, 0, 0))
            x = c.data(s)
            if key == "longitude":
                x = c.ite(x > 180, x - 360, x)
            return x, m
        return at
    chosen = {}
    for key in KEYS:
        cands = pick(c, a, key)
        cond = S("b", True)
        for v, src, ok in cands:
            here = c.and_(cond, ok)
            chosen.setdefault(key, []).append((v, src, here))
            if key in r:
                yield f"{key}: {src}", c.implies(here, r[key][1] == src)
            else:
                yield f"{key}: present when {src} is available", ~here
            cond = c.and_(cond, ~ok)
        yield f"{key}: missing only without any source", c.implies(cond, key not in r)
    if "altitude" in r:
        for v, src, here in chosen["altitude"]:
            x = r["altitude"][0]
            if arr(v) is None:
                yield "altitude kept", c.implies(here, c.and_(r["altitude"][2] is None, c.eq(S.of(x) if arr(x) is None else 0, S.of(v))))
            else:
                n = v.shape[0]
                ok = lambda i: ~c.masked(v[i])
                if arr(x) is None:
                    yield "one altitude only when it varies less than 100 m", c.implies(here, lambda: c.forall((n, n), lambda i, j: c.implies(c.and_(ok(i), ok(j)), lambda: c.data(v[i]) - c.data(v[j]) < 100)))
                    yield "mean altitude", c.implies(here, lambda: mean_is(c, S.of(x), n, lambda i: (c.data(v[i]), c.masked(v[i]))))
                else:
                    yield "altitude series kept", c.implies(here, lambda: c.and_(c.shape_is(x, n), r["altitude"][2] == ("time",), c.forall(n, lambda i: c.same(x[i], v[i]))))
                    yield "altitude series only when it varies", c.implies(here, lambda: c.exists((n, n), lambda i, j: c.and_(ok(i), ok(j), c.data(v[i]) - c.data(v[j]) >= 100)))
    if "latitude" not in r or "longitude" not in r:
        return
    for lv, ls, lh in chosen["latitude"]:
        for ov, os_, oh in chosen["longitude"]:
            here = c.and_(lh, oh)
            la, lo = use(lv, ls, "latitude"), use(ov, os_, "longitude")
            n = arr(lv).shape[0] if arr(lv) is not None else 1
            m = arr(ov).shape[0] if arr(ov) is not None else 1
            if not a.symbolic_ok:
                continue
            rl, ro = r["latitude"][0], r["longitude"][0]
            fixed = arr(rl) is None
            yield "both fixed or both series", c.implies(here, fixed == (arr(ro) is None))
            lodeg = S.of(.01)
            valid = lambda f, i: ~f(i)[1]
            if fixed:
                yield "fixed site: latitude varies at most 0.01 degrees", c.implies(here, lambda: c.forall((n, n), lambda i, j: c.implies(c.and_(valid(la, i), valid(la, j)), lambda: la(i)[0] - la(j)[0] <= lodeg)))
                yield "fixed site: longitude varies at most as far", c.implies(here, lambda: c.forall((n, n, m, m), lambda i, j, p, q: c.implies(c.and_(lowest(c, la, n, i), lowest(c, neg(la), n, j), valid(lo, p), valid(lo, q)), lambda: lo(p)[0] - lo(q)[0] <= lodeg / c.cos((la(i)[0] + la(j)[0]) / 2 * S.of(math.pi / 180)))))
                yield "mean latitude", c.implies(here, lambda: mean_is(c, S.of(rl), n, la))
                yield "mean longitude", c.implies(here, lambda: mean_is(c, S.of(ro), m, lo))
                yield "no dimensions", c.implies(here, c.and_(r["latitude"][2] is None, r["longitude"][2] is None))
            else:
                yield "time dimension", c.implies(here, c.and_(r["latitude"][2] == ("time",), r["longitude"][2] == ("time",)))
                yield "latitudes kept", c.implies(here, lambda: c.and_(c.shape_is(rl, n), c.forall(n, lambda i: c.and_(c.iff(c.masked(rl[i]), la(i)[1]), c.implies(valid(la, i), lambda: c.eq(c.data(rl[i]), la(i)[0], 1e-7, 1e-7))))))
                yield "longitudes kept, at most 180", c.implies(here, lambda: c.and_(c.shape_is(ro, m), c.forall(m, lambda i: c.and_(c.iff(c.masked(ro[i]), lo(i)[1]), c.implies(valid(lo, i), lambda: c.eq(c.data(ro[i]), lo(i)[0], 1e-7, 1e-7))))))
                far = lambda f, k, d: c.exists((k, k), lambda i, j: c.and_(valid(f, i), valid(f, j), f(i)[0] - f(j)[0] > d))
                yield "series only when the site moves", c.implies(here, lambda: c.forall((n, n), lambda i, j: c.implies(
                    c.and_(lowest(c, la, n, i), lowest(c, neg(la), n, j)),
                    lambda: c.or_(la(j)[0] - la(i)[0] > lodeg, far(lo, m, lodeg / c.cos((la(i)[0] + la(j)[0]) / 2 * S.of(math.pi / 180)))))))


def lowest(c, f, n, i):
    return c.and_(~f(i)[1], ~c.exists(n, lambda k: c.and_(~f(k)[1], f(k)[0] < f(i)[0])))


def neg(f):
    return lambda i: (-f(i)[0], f(i)[1])


def mean_is(c, x, n, f):
    cnt = c.sum(n, lambda i: c.ite(f(i)[1], 0, 1))
    tot = c.sum(n, lambda i: c.ite(f(i)[1], 0, f(i)[0]))
    return c.eq(c.data(x) * cnt, tot, 1e-6, 1e-6)


def coord(dims="t", **kw):
    return TArr("f", dims, masked=True, **kw)


def ca(t):
    return TObj("cloudnetpy.cloudnetarray:CloudnetArray", data=t)


LAT = dict(lo=-89, hi=89, vals=[0, 10, 10.004, 80])
LON = dict(lo=-180, hi=360, vals=[0, 200, 200.004])
ALT = dict(lo=-10, hi=3000, vals=[100, 150])
META = TDict(latitude=TReal(-89, 89), longitude=TReal(-180, 360), altitude=TReal(-10, 3000))
VARS = TObj("contracts.fakes:GeoDataset", variables=TDict(latitude=var(coord(**LAT)), longitude=var(coord(**LON)), altitude=var(coord(**ALT))))


class TCoordText(T):
    """a coordinate as text with its value, e.g. '-12.5 degrees'"""

    def sym(self, c, name):
        raise Unsupported("bounded only")

    def conc(self, g, name):
        x = round(float(g.rng.uniform(-89, 89)), int(g.rng.integers(0, 5)))
        x = x if g.rng.random() < .7 else abs(x)
        return {"text": f"{x:{g.rng.choice(['.4f', '', '.1f'])}}" + str(g.rng.choice(["", " degrees", "\u00b0", " m"]))}


def attr_prog(P, f, a):
    from contracts.fakes import GeoDataset
    P.standin("netCDF4.Dataset", GeoDataset)
    ds = GeoDataset({})
    for k in KEYS:
        setattr(ds, k.capitalize(), a.texts[k]["text"])
    data = {}
    P(f, data, gps=False, site_meta=None, dataset=ds)
    return {k: (data[k].data, data[k].source) for k in data}


def attrs(c, a, r):
    import re
    for k in KEYS:
        want = float(re.match(r"-?[0-9.]+", a.texts[k]["text"]).group())
        yield f"{k}: number with its sign", c.and_(k in r, c.eq(S.of(r[k][0]), want), r[k][1] == "raw file") if k in r else False


def polar(g, variant):
    """a site that moves about one kilometre at a high latitude"""
    if g.rng.random() < .5:
        return None
    args = {k: (d.conc(g, k) if hasattr(d, "conc") else d) for k, d in variant.items()}
    la, lo = args["data"]["latitude"].data, args["data"]["longitude"].data
    la[:] = g.rng.uniform(60, 85)
    lo[:] = g.rng.uniform(-170, 340) + g.rng.uniform(0, .08, lo.shape)
    return g.dims, args


GPSVARS = TObj("contracts.fakes:GeoDataset", variables=TDict(latitude=var(coord(**LAT)), longitude=var(coord(**LON))))

CONTRACTS = [
    Contract(U + "add_site_geolocation", {"data": TDict(), "gps": False, "site_meta": META, "dataset": None, "symbolic_ok": True}, geo, name="site coordinates from the user", call=prog(geo_prog), modifies={"data"}),
    Contract(U + "add_site_geolocation", {"data": TDict(latitude=ca(coord(**LAT)), longitude=ca(coord(**LON))), "gps": True, "site_meta": TOne(TConst(None), META), "dataset": None, "symbolic_ok": True}, geo, name="GPS series", dims={"t": 1}, gen=polar, call=prog(geo_prog), modifies={"data"}),
    Contract(U + "add_site_geolocation", {"data": TDict(), "gps": False, "site_meta": None, "dataset": VARS, "symbolic_ok": True}, geo, name="coordinates of the raw file", dims={"t": 1}, call=prog(geo_prog), modifies={"data", "dataset"}),
    Contract(U + "add_site_geolocation", {"data": TDict(), "gps": True, "site_meta": None, "dataset": GPSVARS, "symbolic_ok": True}, geo, name="GPS of the raw file", dims={"t": 1}, call=prog(geo_prog), modifies={"data", "dataset"}),
    Contract(U + "add_site_geolocation", {"texts": TDict(latitude=TCoordText(), longitude=TCoordText(), altitude=TCoordText())}, attrs, name="coordinates of global attributes", call=prog(attr_prog), bounded_only=True),
]
