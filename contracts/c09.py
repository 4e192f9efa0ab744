"""C09: droplet effective radius."""
import math

import numpy as np
from numpy import ma

from pyvc.spec import *

from .c06 import type_of
from .common import *

DE = "cloudnetpy.products.der:"


def status_prog(P, f, a):
    from cloudnetpy.products.der import DerSource, DropletClassification
    from cloudnetpy.cloudnetarray import CloudnetArray
    from cloudnetpy.products.product_tools import get_is_rain
    P.nc(a.nc)
    cls = P(DropletClassification, "x")
    P.set(a.src, "is_rain", P(get_is_rain, "x"))
    P.set(a.src, "data", {"der": P(CloudnetArray, a.der, "der")})
    P(DerSource.append_retrieval_status, a.src, cls)
    return P.attr(P.attr(a.src, "data")["der_retrieval_status"], "data")


def status(c, a, r):
    v = a.nc.variables
    cb = v["category_bits"]
    rain = v["rain_detected"]
    yield "grid", c.like(r, cb)

    def cell(i, j):
        bit = lambda n: c.bit(cb[i, j], n)
        got = ~c.masked(a.der[i, j])
        raining = c.or_(c.masked(rain[i]), ~c.eq(c.data(rain[i]), 0))
        ice = bit(1) & bit(2) & ~bit(3) & ~bit(0) & ~bit(5)
        return c.and_(~c.masked(r[i, j]), c.eq(r[i, j], first(c, [(got & raining, 3), (got & bit(1) & bit(0), 2), (got, 1), (ice, 4)], 0)))
    yield "status table", c.forall(TH, cell)


def der_prog(P, f, a):
    from cloudnetpy.products.der import DerSource
    P.set(a.src, "dataset", a.nc)
    P.set(a.src, "data", {})
    P(DerSource.append_der, a.src)
    return {k: P.attr(v, "data") for k, v in P.attr(a.src, "data").items()}


def der(c, a, r):
    n = lambda x: x.to_numpy() if isinstance(x, Arr) else x
    liq = n(a.src.categorize_bits.category_bits.droplet)
    zdb, lwp, h = n(a.nc.variables["Z"].data), n(a.nc.variables["lwp"].data), n(a.src.height_agl)
    ddbz, N, dN, sx, dsx, dQ = (float(S.of(getattr(a.src.parameters, x)).v) for x in ("ddBZ", "N", "dN", "sigma_x", "dsigma_x", "dQ"))
    T, H = liq.shape
    dz = np.diff(np.concatenate([[0], h]))
    zm = ma.getmaskarray(zdb)
    lm = ma.getmaskarray(lwp)
    p = np.maximum(ma.getdata(lwp), 0)
    dZ = 10 ** (ddbz / 10) / 6
    want = {k: {} for k in ("der", "der_error", "der_scaled", "der_scaled_error", "N_scaled")}
    for i in range(T):
        j = 0
        while j < H:
            if not liq[i, j]:
                j += 1
                continue
            k = j
            while k < H and liq[i, k]:
                k += 1
            cells = [m for m in range(j, k) if not zm[i, m]]
            z = {m: 10 ** (zdb.data[i, m] / 10) for m in cells}
            integral = sum(math.sqrt(x) * dz[m] for m, x in z.items())
            for m in cells:
                d = .5 * (z[m] / N) ** (1 / 6) * math.exp(-.5 * sx * sx) * 1e-3
                want["der"][i, m] = d
                want["der_error"][i, m] = d * math.sqrt((dN / 6 / N) ** 2 + (sx * dsx) ** 2 + dZ ** 2)
                if not lm[i] and p[i] > 0:
                    s = 1e-3 * z[m] ** (1 / 6) / (2 * p[i] ** (1 / 3)) * (math.pi * 1000 / 6) ** (1 / 3) * integral ** (1 / 3) * math.exp(-2 * sx * sx)
                    want["der_scaled"][i, m] = s * 1e-3
                    want["N_scaled"][i, m] = z[m] / (2 * s / math.exp(-.5 * sx * sx)) ** 6
                    want["der_scaled_error"][i, m] = s * 1e-3 * math.sqrt(dZ ** 2 + (4 * sx * dsx) ** 2 + (dQ / 3 / p[i]) ** 2)
            j = k
    for key, w in want.items():
        x = r[key]
        yield f"{key}: grid", c.shape_is(x, T, H)
        if key in ("der", "der_error"):
            yield f"{key}: exactly in droplet cells with radar data", c.forall(TH, lambda i, j: c.iff(~c.masked(x[i, j]), (int(i.v), int(j.v)) in w))
        else:
            yield f"{key}: exactly in droplet cells with radar data and a positive path", c.forall(TH, lambda i, j: c.iff(~c.masked(x[i, j]), (int(i.v), int(j.v)) in w))
        yield f"{key}: documented formula", c.forall(TH, lambda i, j: c.implies((int(i.v), int(j.v)) in w, lambda: c.eq(c.data(x[i, j]), float(w[int(i.v), int(j.v)]), 1e-7, 0)))


class THeights(T):
    """heights above ground, often equidistant from the ground up"""

    def sym(self, c, name):
        raise Unsupported("bounded only")

    def conc(self, g, name):
        n = g.dim("h")
        if g.rng.random() < .7:
            return np.arange(1, n + 1) * g.rng.choice([25.0, 50.0, 100.0])
        return np.cumsum(g.rng.uniform(10, 100, n))


def classification(c, a, r):
    v = a.nc.variables["category_bits"]
    bit = lambda i, j, n: c.bit(v[i, j], n)
    droplet, falling, freezing, melting, insect = 0, 1, 2, 3, 5
    yield "droplets", c.forall(TH, lambda i, j: c.iff(b(r.is_droplet[i, j]), bit(i, j, droplet)))
    yield "mixed", c.forall(TH, lambda i, j: c.iff(b(r.is_mixed[i, j]), bit(i, j, droplet) & bit(i, j, falling)))
    yield "ice", c.forall(TH, lambda i, j: c.iff(b(r.is_ice[i, j]), bit(i, j, falling) & bit(i, j, freezing) & ~bit(i, j, melting) & ~bit(i, j, droplet) & ~bit(i, j, insect)))


def cls_prog(P, f, a):
    from cloudnetpy.products.der import DropletClassification
    P.nc(a.nc)
    return P(DropletClassification, "x")


def nc(masked=True):
    return TObj("contracts.fakes:Dataset", variables=TDict(category_bits=TBits(6), quality_bits=TBits(10), rain_detected=TArr("f", "t", masked=True, lo=0, vals=[0, 1], nomask=not masked)))




class TParams(T):
    def sym(self, c, name):
        raise Unsupported("bounded only")

    def conc(self, g, name):
        from cloudnetpy.products.der import Parameters
        if g.rng.random() < .4:
            return Parameters(2.0, 200.0e6, 200.0e6, 0.35, 0.1, 5.0e-3)
        u = g.rng.uniform
        return Parameters(u(.5, 3), u(1e7, 1e9), u(1e7, 1e9), u(.1, .5), u(.01, .2), u(1e-3, 1e-2))


CONTRACTS = [
    Contract(DE + "DropletClassification", {"nc": nc()}, classification, dims={"t": 1, "h": 1}, call=prog(cls_prog)),
    Contract(DE + "DerSource.append_retrieval_status", {"nc": nc(), "src": TObj(DE + "DerSource"), "der": TArr("f", TH, masked=True, nomask=False)}, status,
             dims={"t": 1, "h": 1}, call=prog(status_prog), modifies={"src", "der"}),
    Contract(DE + "DerSource.append_der", {"nc": TObj("contracts.fakes:Dataset", variables=TDict(Z=var(TArr("f", TH, masked=True, lo=-60, hi=20)), lwp=var(TOne(TArr("f", "t", masked=True, lo=-.01, hi=.5, vals=[0]), TArr("f", "t", lo=-.01, hi=.5, vals=[0]))))),
             "src": TObj(DE + "DerSource", height_agl=THeights(), parameters=TParams(), categorize_bits=TObj("cloudnetpy.products.product_tools:CategorizeBits",
             category_bits=TObj("cloudnetpy.products.product_tools:CategoryBits", droplet=TArr("b", TH, runs=True))))}, der, dims={"t": 1, "h": 2}, call=prog(der_prog), bounded_only=True, tries=400, modifies={"src", "nc"}),
]
