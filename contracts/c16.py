"""C16: radar attenuation corrections and the quality flags."""
import atmoslib

from pyvc.core import Arr, S, to_real, ufun
from pyvc.spec import *

from . import c07
from .c12 import ca
from .common import *
from .stubs import trusted
import z3

A = "cloudnetpy.categorize.attenuations"
OBS = "cloudnetpy.categorize.containers:Observations"
RES = "cloudnetpy.categorize.containers:ClassificationResult"
TWO = 0.002  # two ways, metres to kilometres


def rain_term(r, f):
    g = ufun("rain_attenuation", z3.RealSort(), z3.RealSort(), z3.RealSort())
    return S("f", g(to_real(r.v), to_real(S.of(f).v)))


def _rain_model(ctx, r, f):
    g = ufun("rain_attenuation", z3.RealSort(), z3.RealSort(), z3.RealSort())
    x, y = z3.Reals("ra rf")
    ctx.fact(z3.ForAll([x, y], z3.Implies(x > 0, g(x, y) > 0), patterns=[g(x, y)]))
    ctx.fact(z3.ForAll([x, y], z3.Implies(x == 0, g(x, y) == 0), patterns=[g(x, y)]))
    rf = r.fn()

    def elem(i):
        e = rf(i)
        return S("f", rain_term(e, f).v, m=e.m)
    return Arr(r.shape, "f", elem, r.masked, r.nomask, sel=r.sel)


def rain_rate(c, r, f):
    if c.symbolic:
        return rain_term(r, f)
    return S("f", float(atmoslib.rain_specific_attenuation(r.v, S.of(f).v)))


OV = {**c07.OV, atmoslib.rain_specific_attenuation: trusted(atmoslib.rain_specific_attenuation, _rain_model)}


def close(c, x, y):
    return c.eq(x, y, 1e-8, 1e-12)


def two_way(c, n, spec, h, out):
    """out(i, j) is the two-way attenuation for the specific attenuation spec(i, j)"""
    def cell(i, j):
        s = spec(i, j)
        prev = c.max(j - 1, 0)
        step = TWO * c.data(s) * c07.dz(c, h, j)
        return c.and_(c.iff(c.masked(out(i, j)), c.masked(s)),
                      c.implies(~c.masked(s) & ~(b(j > 0) & c.masked(spec(i, prev))), lambda: close(c, c.data(out(i, j)), c.ite(j > 0, c.data(out(i, prev)), 0) + step)))
    return cell


def two(c, a, r):
    s = a.specific_attenuation
    yield "grid", c.like(r, s)
    yield "running sum of twice the attenuation along the path", c.forall(s.shape, two_way(c, None, lambda i, j: s[i, j], a.height_agl, lambda i, j: r[i, j]))
    const = lambda i, j: ~c.exists(j + 1, lambda k: c.or_(c.masked(s[i, k]), ~c.eq(c.data(s[i, k]), c.data(s[i, 0]), 0, 0)))
    yield from c.lemma("constant attenuation: proportional to the height", s.shape, lambda i, j: c.implies(const(i, j), lambda: close(c, c.data(r[i, j]), TWO * c.data(s[i, 0]) * a.height_agl[j])))
    none = lambda i, j: ~c.exists(j + 1, lambda k: c.or_(c.masked(s[i, k]), ~c.eq(c.data(s[i, k]), 0, 0, 0)))
    yield from c.lemma("nothing yet", s.shape, lambda i, j: c.implies(none(i, j), lambda: c.eq(c.data(r[i, j]), 0, 0, 0)))
    missing = lambda i, j: ~c.exists(j + 1, lambda k: ~c.masked(s[i, k]))
    yield from c.lemma("zero below the mask of a missing profile", s.shape, lambda i, j: c.implies(missing(i, j), lambda: c.eq(c.data(r[i, j]), 0, 0, 0)))


def gas(c, a, r):
    m = a.data.model.data_dense
    liq = a.classification.category_bits.droplet
    s = lambda i, j: c.ite(b(liq[i, j]), m["specific_saturated_gas_atten"][i, j], m["specific_gas_atten"][i, j])
    if m["specific_gas_atten"].masked:
        s = lambda i, j: S("f", c.ite(b(liq[i, j]), c.data(m["specific_saturated_gas_atten"][i, j]), c.data(m["specific_gas_atten"][i, j])).v,
                           m=c.ite(b(liq[i, j]), c.masked(m["specific_saturated_gas_atten"][i, j]), c.masked(m["specific_gas_atten"][i, j])).v)
    yield "grid", c.like(r.amount, liq)
    yield "saturated value inside liquid", c.forall(TH, two_way(c, None, s, a.data.radar.height_agl, lambda i, j: r.amount[i, j]))
    yield "ten percent error", c.forall(TH, lambda i, j: c.and_(c.iff(c.masked(r.error[i, j]), c.masked(r.amount[i, j])), c.implies(~c.masked(r.amount[i, j]), lambda: close(c, c.data(r.error[i, j]), c.data(r.amount[i, j]) * 0.1))))
    yield "everywhere, always corrected", c.forall(TH, lambda i, j: c.and_(b(r.attenuated[i, j]), ~b(r.uncorrected[i, j])))
    yield "model fields untouched", c.and_(c.all_same(a.data.model.data_dense["specific_gas_atten"], m["specific_gas_atten"]))


def reach(c, x):
    return lambda i, j: c.exists(j + 1, lambda k: b(x[i, k]))


def rain(c, a, r):
    d, cl = a.data, a.classification
    fr = cl.category_bits.freezing
    israin = lambda i: ~c.eq(cl.is_rain[i], 0)
    yield "whole rainy profiles are attenuated", c.forall(TH, lambda i, j: c.iff(b(r.attenuated[i, j]), israin(i)))
    if d.disdrometer is None:
        yield "unknown without a rain rate", c.forall(TH, lambda i, j: c.and_(c.masked(r.amount[i, j]), c.masked(r.error[i, j]), c.iff(b(r.uncorrected[i, j]), israin(i))))
        return
    rr = d.disdrometer.data["rainfall_rate"].data
    h, f = d.radar.height_agl, d.radar.radar_frequency
    known = lambda i: israin(i) & ~c.masked(rr[i])
    yield "uncorrected where the rain rate is missing", c.forall(TH, lambda i, j: c.iff(b(r.uncorrected[i, j]), israin(i) & c.masked(rr[i])))
    amount = r.amount

    def cell(i, j):
        s = rain_rate(c, c.data(rr[i]) * 3600000.0, S.of(f))
        warm = ~b(fr[i, j])
        prev = c.max(j - 1, 0)
        total = TWO * s * h[j]
        below = c.ite(b(j > 0) & ~c.masked(amount[i, prev]), c.data(amount[i, prev]), 0)
        want = c.ite(warm, total, below)
        return c.implies(known(i), lambda: c.and_(c.iff(c.masked(amount[i, j]), c.eq(want, 0, 0, 0)), c.implies(~c.eq(want, 0, 0, 0), lambda: close(c, c.data(amount[i, j]), want))))
    yield "path through the warm part of the profile, kept above it", c.forall(TH, cell)
    yield "nothing without rain", c.forall(TH, lambda i, j: c.implies(~known(i), c.masked(amount[i, j])))
    yield "twenty percent error", c.forall(TH, lambda i, j: c.and_(c.iff(c.masked(r.error[i, j]), c.masked(amount[i, j])), c.implies(~c.masked(amount[i, j]), lambda: close(c, c.data(r.error[i, j]), c.data(amount[i, j]) * 0.2))))


def melting(c, a, r):
    d, cl = a.data, a.classification
    fr, me = cl.category_bits.freezing, cl.category_bits.melting
    israin = lambda i: ~c.eq(cl.is_rain[i], 0)
    if d.disdrometer is None:
        reg = lambda i, j: c.and_(b(fr[i, j]), israin(i), reach(c, me)(i, j))
        yield "frozen cells above the melting layer of rainy profiles, unknown", c.forall(TH, lambda i, j: c.and_(
            c.iff(b(r.attenuated[i, j]), reg(i, j)), c.iff(b(r.uncorrected[i, j]), reg(i, j)), c.masked(r.amount[i, j]), c.masked(r.error[i, j])))
        return
    rr = d.disdrometer.data["rainfall_rate"].data
    ka = d.radar.radar_frequency < 40

    def cell(i, j):
        x = c.data(rr[i]) * 3600000.0
        miss = c.masked(rr[i])
        reg = b(fr[i, j]) & israin(i) & (miss | ~c.eq(x, 0, 0, 0))
        want = c.ite(ka, 0.97 * x ** 0.61, 2.9 * x ** 0.42)
        am, er = r.amount[i, j], r.error[i, j]
        return c.and_(c.iff(b(r.attenuated[i, j]), reg), c.iff(b(r.uncorrected[i, j]), reg & miss),
                      c.iff(c.masked(am), ~reg | miss), c.iff(c.masked(er), ~reg | miss),
                      c.implies(reg & ~miss, lambda: close(c, c.data(am), want) & close(c, c.data(er), want * c.ite(ka, 0.2, 0.1))))
    yield "power law of the rain rate in the frozen cells of rainy profiles", c.forall(TH, cell)
    yield "classification untouched", c.all_same(a.classification.category_bits.freezing, fr)


def liquid(c, a, r):
    d = a.data
    liq = a.classification.category_bits.droplet
    r, ad, g, sa, sg = r
    yield "cells in and above liquid", c.forall(TH, lambda i, j: c.iff(b(r.attenuated[i, j]), reach(c, liq)(i, j)))
    yield "uncorrected without an amount", c.forall(TH, lambda i, j: c.iff(b(r.uncorrected[i, j]), b(r.attenuated[i, j]) & c.masked(r.amount[i, j])))
    if d.mwr is None:
        yield "unknown without a water path", c.forall(TH, lambda i, j: c.and_(c.masked(r.amount[i, j]), c.masked(r.error[i, j])))
        return
    lwp = d.mwr.data["lwp"].data
    yield "nothing outside", c.forall(TH, lambda i, j: c.implies(~reach(c, liq)(i, j), lambda: c.and_(c.masked(r.amount[i, j]), c.masked(r.error[i, j]))))
    err = d.mwr.data["lwp_error"].data
    h, k = d.radar.height_agl, d.model.data_dense["specific_liquid_atten"]
    for name, out, path, shape, scaled in (("amount", r.amount, lambda i: c.max(c.data(lwp[i]), 0), ad, sa), ("error", r.error, lambda i: c.data(err[i]), g, sg)):
        src = lwp if name == "amount" else err
        yield name + " unknown where the path is missing", c.forall(TH, lambda i, j: c.implies(c.masked(src[i]), c.masked(out[i, j])))

        def cell(i, j):
            tot = c.sum("h", lambda x: shape[i, x] * c07.dz(c, h, x))
            prev = c.max(j - 1, 0)
            over = c.and_(j > 0, reach(c, liq)(i, prev))
            w = c.data(scaled[i, j])
            step = TWO * (k[i, j] * w * 1000 * c07.dz(c, h, j))
            return c.implies(c.and_(tot >= 1e-12, ~c.masked(src[i]), reach(c, liq)(i, j)), lambda: c.and_(
                ~c.masked(out[i, j]), close(c, w * tot, shape[i, j] * path(i)), c.implies(over, lambda: c.eq(c.data(out[i, j]), c.data(out[i, j - 1]) + TWO * (k[i, j] * w * 1000 * (h[j] - h[j - 1])), 1e-6, 1e-9)),
                c.implies(~over, lambda: c.eq(c.data(out[i, j]), step, 1e-6, 1e-9))))
        yield name + " grows with the water below, which integrates to the path", c.forall(TH, cell)


def liquid_new(P, f, a):
    from cloudnetpy.categorize.attenuations.liquid_attenuation import LiquidAttenuation
    from cloudnetpy.categorize import atmos_utils as u
    x = P.attr(P(LiquidAttenuation, a.data, a.classification), "attenuation")
    h = P.attr(P.attr(a.data, "radar"), "height_agl")
    m = P.attr(P.attr(a.data, "model"), "data_dense")
    g = P(u.fill_clouds_with_lwc_dz, m["temperature"], m["pressure"], P.attr(P.attr(a.classification, "category_bits"), "droplet"))
    ad = P(u.calc_adiabatic_lwc, g, h)
    if P.attr(a.data, "mwr") is None:
        return x, ad, g, g, g
    w = P.attr(P.attr(a.data, "mwr"), "data")
    lwp = P(clipped, P.attr(w["lwp"], "data"))
    return x, ad, g, P(u.normalize_lwc_by_lwp, ad, lwp, h), P(u.normalize_lwc_by_lwp, g, P.attr(w["lwp_error"], "data"), h)


def clipped(lwp):
    lwp = lwp.copy()
    lwp[lwp < 0] = 0
    return lwp


def correct(c, a, r, p):
    z, out = a.self.data["Z"].data, p.self.data["Z"].data
    at = a.attenuations
    yield "grid", c.like(out, z)

    def cell(i, j):
        g = at.gas.amount[i, j]
        tot = c.data(z[i, j]) + c.data(g)
        for k in (at.liquid, at.rain, at.melting):
            x = k.amount[i, j]
            tot = tot + c.ite(c.masked(x), 0, c.data(x))
        return c.and_(c.iff(c.masked(out[i, j]), c.masked(z[i, j]) | c.masked(g)), c.implies(~c.masked(out[i, j]), lambda: close(c, c.data(out[i, j]), tot)))
    yield "every known attenuation is added once", c.forall(TH, cell)


def quality(c, a, r):
    z, be = a.data.radar.data["Z"].data, a.data.lidar.data["beta"].data
    at = a.attenuations
    cl = a.classification.is_clutter
    yield "radar and lidar flags", c.forall(TH, lambda i, j: c.and_(c.iff(b(r.radar[i, j]), ~c.masked(z[i, j])), c.iff(b(r.lidar[i, j]), ~c.masked(be[i, j]))))
    yield "clutter and molecular flags", c.forall(TH, lambda i, j: c.and_(c.iff(b(r.clutter[i, j]), b(cl[i, j])), ~b(r.molecular[i, j])))
    for n, x in (("liquid", at.liquid), ("rain", at.rain), ("melting", at.melting)):
        att, cor = (r.attenuated_liquid, r.corrected_liquid) if n == "liquid" else (r.attenuated_rain, r.corrected_rain) if n == "rain" else (r.attenuated_melting, r.corrected_melting)
        yield n + " attenuation flags", c.forall(TH, lambda i, j: c.and_(c.iff(b(att[i, j]), b(x.attenuated[i, j])), c.iff(b(cor[i, j]), b(x.attenuated[i, j]) & ~b(x.uncorrected[i, j]))))


def combined(c, a, r):
    cl = a.classification
    israin = lambda i: ~c.eq(cl.is_rain[i], 0)
    liq = cl.category_bits.droplet
    yield "rainy profiles have no separate liquid attenuation", c.forall(TH, lambda i, j: c.implies(israin(i), lambda: c.and_(
        c.masked(r.liquid.amount[i, j]), c.masked(r.liquid.error[i, j]), ~b(r.liquid.attenuated[i, j]), ~b(r.liquid.uncorrected[i, j]))))
    yield "liquid attenuation in and above liquid without rain", c.forall(TH, lambda i, j: c.iff(b(r.liquid.attenuated[i, j]), ~israin(i) & reach(c, liq)(i, j)))
    yield "rain attenuation in rainy profiles", c.forall(TH, lambda i, j: c.iff(b(r.rain.attenuated[i, j]), israin(i)))
    for n, x in (("liquid", r.liquid), ("rain", r.rain), ("melting", r.melting)):
        yield n + ": uncorrected cells are attenuated and have no amount", c.forall(TH, lambda i, j: c.implies(b(x.uncorrected[i, j]), lambda: b(x.attenuated[i, j]) & c.masked(x.amount[i, j])))


def M(lo=0, hi=5):
    return TArr("f", TH, masked=True, lo=lo, hi=hi, vals=[0])


def att_obj():
    return TObj(A + ":Attenuation", amount=M(), error=M(), attenuated=B2(), uncorrected=B2())


def result():
    return TObj(RES, category_bits=category_bits(), is_rain=TOne(TArr("i", "t", lo=0, hi=1), TArr("b", "t")), is_clutter=B2(), insect_prob=None, liquid_prob=None)


RR = TArr("f", "t", masked=True, lo=0, hi=2e-5, vals=[0])
DIS = TOne(None, TObj("cloudnetpy.categorize.disdrometer:Disdrometer", data=TDict(rainfall_rate=ca(RR))))
MWR = TOne(None, TObj("cloudnetpy.categorize.mwr:Mwr", data=TDict(lwp=ca(TArr("f", "t", masked=True, lo=-0.1, hi=2, vals=[0])), lwp_error=ca(TArr("f", "t", masked=True, lo=0, hi=1, vals=[0])))))


def model_fields(masked):
    mk = lambda lo, hi: TArr("f", TH, masked=masked, lo=lo, hi=hi)
    return TDict(specific_gas_atten=mk(0, 1), specific_saturated_gas_atten=mk(0, 1), specific_liquid_atten=mk(0, 10), temperature=TArr("f", TH, lo=240, hi=290), pressure=TArr("f", TH, lo=40000, hi=101000))


def observations(f=(35.0, 94.0), masked=False, dis=DIS, mwr=None):
    return TObj(OBS, radar=TObj("cloudnetpy.categorize.radar:Radar", height_agl=c07.HGT, time=TArr("f", "t"), radar_frequency=TOne(*f), data=TDict(Z=ca(M(-40, 30)))),
                lidar=TObj("cloudnetpy.categorize.lidar:Lidar", data=TDict(beta=ca(M(0, 1e-4)))),
                model=TObj("cloudnetpy.categorize.model:Model", data_dense=model_fields(masked)), mwr=mwr, disdrometer=dis)


D2 = {"t": 2, "h": 1}
CONTRACTS = [k for k in c07.CONTRACTS if k.modular] + [
    Contract(A + ":calc_two_way_attenuation", {"height_agl": c07.HGT, "specific_attenuation": M()}, two, dims=D2, modular=c07.fresh("f", "specific_attenuation", masked=True)),
    Contract(A + ".gas_attenuation:calc_gas_attenuation", {"data": TOne(observations((35.0,), False, None), observations((94.0,), True, None)), "classification": result()}, gas, dims=D2),
    Contract(A + ".rain_attenuation:calc_rain_attenuation", {"data": observations(), "classification": result()}, rain, dims=D2, overrides=OV),
    Contract(A + ".melting_attenuation:calc_melting_attenuation", {"data": observations(), "classification": result()}, melting, dims=D2),
    Contract(A + ".liquid_attenuation:LiquidAttenuation.__init__", {"data": observations((94.0,), False, None, MWR), "classification": result()}, liquid, dims=D2, call=prog(liquid_new), overrides=OV),
    Contract("cloudnetpy.categorize.attenuation:get_attenuations", {"data": observations((94.0,), False, DIS, MWR), "classification": result()}, combined, dims=D2, overrides=OV),
    Contract("cloudnetpy.categorize.radar:Radar.correct_atten", {"self": TObj("cloudnetpy.categorize.radar:Radar", data=TDict(Z=ca(M(-40, 30)))),
             "attenuations": TObj(A + ":RadarAttenuation", gas=att_obj(), liquid=att_obj(), rain=att_obj(), melting=att_obj())}, correct, dims={"t": 1, "h": 1}, modifies={"self.data"}),
    Contract("cloudnetpy.categorize.classify:fetch_quality", {"data": observations((35.0,), False, None), "classification": result(),
             "attenuations": TObj(A + ":RadarAttenuation", gas=att_obj(), liquid=att_obj(), rain=att_obj(), melting=att_obj())}, quality, dims={"t": 1, "h": 1}),
]
TRUSTED = ["atmoslib.rain_specific_attenuation: an unspecified function of rain rate and frequency, positive for positive rain and zero for none"] + c07.TRUSTED
