"""C10: drizzle classification, retrieval status, derived products."""
import math

import numpy as np
from numpy import ma

from pyvc.core import Arr
from pyvc.spec import *

from .common import *

DT = "cloudnetpy.products.drizzle_tools:"
DR = "cloudnetpy.products.drizzle:"
CB = dict(droplet=0, falling=1, freezing=2, melting=3, aerosol=4, insect=5)
QB = dict(radar=0, lidar=1, clutter=2, molecular=3, attenuated_liquid=4, corrected_liquid=5, attenuated_rain=6, corrected_rain=7, attenuated_melting=8, corrected_melting=9)


def flags(c, nc, i, j):
    v = nc.variables
    x = NS({**{k: c.bit(v["category_bits"][i, j], n) for k, n in CB.items()}, **{k: c.bit(v["quality_bits"][i, j], n) for k, n in QB.items()}})
    rain = v["rain_detected"]
    x.rain = c.or_(c.masked(rain[i]), ~c.eq(c.data(rain[i]), 0))
    return x


def finite(c, s):
    return c.and_(~c.masked(s), ~c.nan(s))


def is_drizzle(c, nc, i, j):
    x = flags(c, nc, i, j)
    return c.and_(~x.rain, x.falling, ~x.droplet, ~x.freezing, ~x.melting, ~x.insect, x.radar, x.lidar, ~x.clutter, ~x.molecular,
                  ~x.attenuated_liquid, ~x.attenuated_rain, finite(c, nc.variables["v_sigma"][i, j]))


def would_be(c, nc, i, j):
    x = flags(c, nc, i, j)
    return c.and_(~x.rain, x.falling, x.droplet, ~x.freezing, ~x.melting, ~x.insect, x.radar, ~x.clutter, ~x.molecular)


def classification(c, a, r):
    cb = a.nc.variables["category_bits"]
    yield "grid", c.and_(c.like(r.drizzle, cb), c.like(r.would_be_drizzle, cb))
    yield "drizzle cells", c.forall(TH, lambda i, j: c.iff(b(r.drizzle[i, j]), is_drizzle(c, a.nc, i, j)))
    yield "would be drizzle", c.forall(TH, lambda i, j: c.iff(b(r.would_be_drizzle[i, j]), would_be(c, a.nc, i, j)))
    yield "warm liquid", c.forall(TH, lambda i, j: c.iff(b(r.warm_liquid[i, j]), flags(c, a.nc, i, j).droplet & ~flags(c, a.nc, i, j).freezing))
    yield "cold rain", c.forall("t", lambda i: c.iff(b(r.cold_rain[i]), c.exists("h", lambda j: c.bit(cb[i, j], CB["melting"]))))


def cls_prog(P, f, a):
    P.nc(a.nc)
    from cloudnetpy.products.drizzle_tools import DrizzleClassification
    return P(DrizzleClassification, "x")


def status_prog(P, f, a):
    from cloudnetpy.products.drizzle import RetrievalStatus
    return P.attr(P(RetrievalStatus, cls_prog(P, f, a)), "retrieval_status")


def status(c, a, r):
    cb = a.nc.variables["category_bits"]
    yield "grid", c.like(r, cb)

    def cell(i, j):
        x = flags(c, a.nc, i, j)
        cold = c.exists("h", lambda k: c.bit(cb[i, k], CB["melting"]))
        d = is_drizzle(c, a.nc, i, j)
        return c.and_(~c.masked(r[i, j]), c.eq(r[i, j], first(c, [(x.rain, 5), (would_be(c, a.nc, i, j), 3), (d & cold, 2), (d, 1), (x.droplet & ~x.freezing, 4)], 0)))
    yield "status table", c.forall(TH, cell)


def nc(rain="rain_detected"):
    return TObj("contracts.fakes:Dataset", variables=TDict(category_bits=TBits(6), quality_bits=TBits(10), v_sigma=TOne(TArr("f", TH, masked=True, nan=True, lo=0, hi=2), TArr("f", TH, masked=True, nomask=True, nan=True, lo=0, hi=2)),
                                                           **{rain: TOne(TArr("f", "t", masked=True, lo=0, vals=[0, 1]))}))


# ------------------------------------------------------------------ derived products

def lut():
    return TDict(Do=TArr("f", "d", lo=1e-6, hi=1e-3, order="<"), mu=TArr("f", "w", lo=0, hi=20, order="<"), S=TArr("f", ("w", "d"), lo=5, hi=60), lwf=TArr("f", ("w", "d"), lo=.1, hi=3),
                 termv=TArr("f", "d", lo=.01, hi=5), v=TArr("f", ("w", "d"), lo=-5, hi=0), width=TArr("f", ("w", "d"), lo=-1, hi=0), ray=TArr("f", ("w", "d"), lo=.2, hi=2))


SRC = TObj(DT + "DrizzleSource", mie=lut(), z=TArr("f", TH, masked=True, lo=1e-22, hi=1e-16), beta=TArr("f", TH, masked=True, lo=1e-8, hi=1e-4), v=TArr("f", TH, masked=True, lo=-3, hi=3))
PAR = TObj(DT + "DrizzleSolver", params=TDict(Do=TArr("f", TH, lo=0, hi=1e-3, vals=[0]), mu=TArr("f", TH, lo=0, hi=20), S=TArr("f", TH, lo=0, hi=60)))


def at(c, table, x, n):
    """c.forall-able: k is the table position used for value x: first entry not below x, or the last entry"""
    return lambda k: c.and_(c.or_(table[k] >= x, k == n - 1), ~c.exists(n, lambda m: c.and_(m < k, table[m] >= x)))


def products(c, a, r):
    d, p = a.src, a.sol.params
    m = d.mie
    Do, mu, s = p["Do"], p["mu"], p["S"]
    N, lwc, lwf, vd, va = (r[k] for k in ("drizzle_N", "drizzle_lwc", "drizzle_lwf", "v_drizzle", "v_air"))
    nd, nw = m["Do"].shape[0], m["mu"].shape[0]
    for k in r:
        yield f"{k}: grid", c.like(r[k], Do)
    use = lambda i, j, f: c.forall((nw, nd), lambda k, l: c.implies(c.and_(at(c, m["mu"], mu[i, j], nw)(k), at(c, m["Do"], Do[i, j], nd)(l)), lambda: f(k, l)))
    one = S.of(3.67)
    yield "number", c.forall(TH, lambda i, j: c.implies(c.and_(Do[i, j] > 0, ~c.masked(d.z[i, j])), lambda: c.and_(~c.masked(N[i, j]), c.eq(c.data(N[i, j]), c.data(d.z[i, j]) * one ** 6 / Do[i, j] ** 6, 1e-7, 0))))
    yield "number zero without drizzle", c.forall(TH, lambda i, j: c.implies(c.eq(Do[i, j], 0, 0, 0), lambda: c.or_(c.masked(N[i, j]), c.masked(d.z[i, j]), c.eq(c.data(N[i, j]), 0))))
    from pyvc.core import s_fun
    gam = lambda x: s_fun("gamma", x)
    yield "water content", c.forall(TH, lambda i, j: c.implies(~c.masked(d.beta[i, j]), lambda: c.and_(~c.masked(lwc[i, j]), c.eq(c.data(lwc[i, j]), 1000 / S.of(3) * c.data(d.beta[i, j]) * s[i, j] * Do[i, j] * (gam(4 + mu[i, j]) / gam(3 + mu[i, j]) / (one + mu[i, j])), 1e-7, 0))))
    yield "flux", c.forall(TH, lambda i, j: c.implies(c.and_(Do[i, j] > 0, ~c.masked(d.beta[i, j])), lambda: use(i, j, lambda k, l: c.eq(c.data(lwf[i, j]), c.data(lwc[i, j]) * m["lwf"][k, l] * m["termv"][l], 1e-7, 0))))
    yield "velocity", c.forall(TH, lambda i, j: c.implies(Do[i, j] > 0, lambda: use(i, j, lambda k, l: c.eq(c.data(vd[i, j]), -m["v"][k, l], 1e-7, 0))))
    yield "velocity zero without drizzle", c.forall(TH, lambda i, j: c.implies(c.eq(Do[i, j], 0, 0, 0), lambda: c.eq(c.data(vd[i, j]), 0)))
    yield "air velocity", c.forall(TH, lambda i, j: c.implies(c.and_(Do[i, j] > 0, ~c.masked(d.v[i, j])), lambda: c.eq(c.data(va[i, j]), c.data(d.v[i, j]) - c.data(vd[i, j]), 1e-7, 1e-12)))
    yield "no air velocity without drizzle", c.forall(TH, lambda i, j: c.implies(c.eq(Do[i, j], 0, 0, 0), lambda: c.eq(c.data(va[i, j]), 0)))


def prod_prog(P, f, a):
    from cloudnetpy.products.drizzle import DrizzleProducts
    return P.attr(P(DrizzleProducts, a.src, a.sol), "derived_products")


# ------------------------------------------------------------------ output

def out_prog(P, f, a):
    from cloudnetpy.datasource import DataSource
    from cloudnetpy.products import drizzle
    P.set(a.src, "data", {})
    res = P(drizzle._screen_rain, {**a.results}, a.cls)
    res["drizzle_retrieval_status"] = a.status
    P(drizzle._append_data, a.src, res)
    return {k: P.attr(v, "data") for k, v in P.attr(a.src, "data").items()}


def output(c, a, r):
    for k, x in a.results.items():
        y = r[k]
        if not hasattr(x, "shape"):
            yield f"{k}: scalar kept", c.implies(~c.eq(x, 0, 0, 0), lambda: c.same(y, x))
            continue
        yield f"{k}: grid", c.like(y, x)
        yield f"{k}: missing exactly in rain and where zero", c.forall(TH, lambda i, j: c.iff(~c.masked(y[i, j]), c.and_(~c.masked(x[i, j]), ~c.eq(c.data(x[i, j]), 0, 0, 0), ~b(a.cls.is_rain[i]))))
        yield f"{k}: values kept", c.forall(TH, lambda i, j: c.implies(~c.masked(y[i, j]), c.eq(c.data(y[i, j]), c.data(x[i, j]))))
    yield "status kept", c.all_same(r["drizzle_retrieval_status"], a.status)


# ------------------------------------------------------------------ iterative solution (bounded)

def solver_prog(P, f, a):
    from cloudnetpy.products.drizzle_tools import DrizzleSolver
    return P.attr(P(DrizzleSolver, a.src, a.cls, a.width), "params")


def dia(ratio, mu=0., ray=1., k=1.):
    return (math.gamma(3 + mu) / math.gamma(7 + mu) * (3.67 + mu) ** 4 / (ray * k * ratio)) ** .25


def solver(c, a, r):
    n = lambda x: x.to_numpy() if isinstance(x, Arr) else x
    m = {k: n(v) for k, v in a.src.mie.items()}
    z, beta, dz = n(a.src.z), n(a.src.beta), n(a.cls.drizzle)
    wid, agl = n(a.width.width_ht), n(a.src.height_agl)
    d = {k: n(v) for k, v in r.items()}
    T, H = z.shape
    plen = np.diff(np.concatenate([[0], agl]))
    bad = {k: 0 for k in ("zero", "lut", "dia", "corr", "conv")}
    for i in range(T):
        corr = 1.
        for j in range(H):
            bad["corr"] += not math.isclose(d["beta_corr"][i, j], corr, rel_tol=1e-9)
            if not dz[i, j]:
                bad["zero"] += any(d[k][i, j] != 0 for k in ("Do", "mu", "S"))
                continue
            ratio = 2 / math.pi * beta[i, j] / z[i, j] * corr
            Do, mu, s = (d[k][i, j] for k in ("Do", "mu", "S"))
            ok = [(w, q) for w in range(len(m["mu"])) for q in range(len(m["Do"])) if m["mu"][w] == mu and m["S"][w, q] == s]
            bad["lut"] += not ok
            hit = [(w, q) for w, q in ok if math.isclose(Do, dia(ratio, mu, m["ray"][w, q], s), rel_tol=1e-9)]
            bad["dia"] += not hit
            # the table entry used belongs to the diameter of the step before
            prev, got = dia(2 / math.pi * beta[i, j] / z[i, j], k=18.8), None
            for _ in range(10):
                q = next((k for k in range(len(m["Do"]) - 1) if m["Do"][k] >= prev), len(m["Do"]) - 1)
                w = next((k for k in range(len(m["mu"]) - 1) if m["width"][k, q] <= wid[i, j]), len(m["mu"]) - 1)
                new = dia(ratio, m["mu"][w], m["ray"][w, q], m["S"][w, q])
                got = (new, w, q)
                if abs(new - prev) < 1e-3 * prev:
                    break
                prev = new
            bad["conv"] += not (math.isclose(Do, got[0], rel_tol=1e-9) and mu == m["mu"][got[1]] and s == m["S"][got[1], got[2]])
            corr *= math.exp(2 * s * beta[i, j] * plen[j])
    yield "grid", c.and_(*[c.shape_is(r[k], T, H) for k in r])
    yield "nothing outside drizzle", bad["zero"] == 0
    yield "shape and lidar ratio from one table entry", bad["lut"] == 0
    yield "diameter consistent with attenuated backscatter over reflectivity", bad["dia"] == 0
    yield "iterated until the diameter settles", bad["conv"] == 0
    yield "backscatter correction by the drizzle gates below", bad["corr"] == 0


class TLut(T):
    """look-up table whose width falls with the shape parameter and rises with the diameter"""

    def sym(self, c, name):
        raise Unsupported("bounded only")

    def conc(self, g, name):
        d, w, u = int(g.rng.integers(2, 8)), int(g.rng.integers(2, 6)), g.rng.uniform
        width = -np.sort(-u(.01, .6, (w, d)), axis=0)
        return {"Do": np.sort(10 ** u(-5, -3, d)), "mu": np.sort(u(0, 12, w)), "S": u(10, 30, (w, d)), "ray": u(.5, 1.5, (w, d)), "width": width}


class TPos(T):
    def __init__(self, lo, hi, dims=TH):
        self.lo, self.hi, self.dims = lo, hi, dims

    def sym(self, c, name):
        raise Unsupported("bounded only")

    def conc(self, g, name):
        return ma.array(10 ** g.rng.uniform(self.lo, self.hi, [g.dim(x) for x in self.dims]))


CONTRACTS = [
    Contract(DR + "_append_data", {"results": TDict(Do=TArr("f", TH, vals=[0]), lwc=TArr("f", TH, masked=True, vals=[0]), bias=TReal(.1, 3)), "status": TArr("i", TH, lo=0, hi=5), "cls": TObj(DT + "DrizzleClassification", is_rain=TArr("b", "t")),
             "src": TObj(DT + "DrizzleSource")}, output, dims={"t": 2, "h": 1}, call=prog(out_prog), modifies={"results", "src"}),
    Contract(DT + "DrizzleSolver", {"src": TObj(DT + "DrizzleSource", mie=TLut(), z=TPos(-20, -17), beta=TPos(-6.5, -4), height_agl=TArr("f", "h", lo=10, hi=2000, order="<")), "cls": TObj(DT + "DrizzleClassification", drizzle=TArr("b", TH)),
             "width": TObj(DT + "SpectralWidth", width_ht=TArr("f", TH, lo=.01, hi=.6))}, solver, dims={"t": 1, "h": 2}, call=prog(solver_prog), bounded_only=True, tries=400, modifies={"src", "width", "cls"}),
    Contract(DT + "DrizzleClassification", {"nc": nc()}, classification, dims={"t": 2, "h": 1}, call=prog(cls_prog)),
    Contract(DR + "RetrievalStatus", {"nc": nc()}, status, dims={"t": 2, "h": 1}, call=prog(status_prog)),
    Contract(DR + "DrizzleProducts", {"src": SRC, "sol": PAR}, products, dims={"t": 1, "h": 1, "d": 1, "w": 1}, call=prog(prod_prog)),
]
