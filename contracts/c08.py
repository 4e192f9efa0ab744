"""C08: liquid water content retrieval status and error."""
import numpy as np
from numpy import ma

from pyvc.core import Arr
from pyvc.spec import *

from .common import *
from .c07 import dz, SRC

LW = "cloudnetpy.products.lwc:"


def bits(**kw):
    return TObj("cloudnetpy.products.product_tools:CategorizeBits",
                category_bits=TObj("cloudnetpy.products.product_tools:CategoryBits", droplet=TArr("b", TH, runs=True)),
                quality_bits=TObj("cloudnetpy.products.product_tools:QualityBits", radar=TArr("b", TH), lidar=TArr("b", TH)))


def path(c, lwc, h, i):
    return c.sum(lwc.shape[1], lambda k: lwc[i, k] * h[k])


def edge(c, liq, i, j):
    """a layer starts at gate j (not the lowest gate)"""
    return c.and_(j > 0, liq[i, j], ~b(liq[i, c.max(j - 1, 0)]))


def in_top(c, liq, i, j):
    """liquid cell with no layer edge above it, in a profile ... (a lone layer from the lowest gate has no edge)"""
    n = liq.shape[1]
    noedge = ~c.exists(n, lambda k: edge(c, liq, i, k))
    return c.and_(liq[i, j], c.ite(noedge, j == n - 1, ~c.exists(n, lambda k: c.and_(k > j, edge(c, liq, i, k)))))


def topmost(c, a, r):
    liq = a.self.is_liquid
    yield "grid", c.like(r, liq)
    yield "only the topmost layer stays", c.forall(liq.shape, lambda i, j: c.iff(r[i, j], in_top(c, liq, i, j)))


def new_arr(c, shape):
    return c.ctx.fresh_arr("res", "b", shape)


def only_lidar(c, a, r):
    d = a.detection
    n = d.shape[1]
    yield "profiles", c.shape_is(r, d.shape[0])
    yield "something detected, and by lidar only", c.forall(d.shape[0], lambda i: c.iff(r[i], c.and_(c.exists(n, lambda k: d[i, k] > 0), ~c.exists(n, lambda k: d[i, k] > 1))))


def adjustable(c, a, r):
    s = a.self
    liq, rad, lid, lwp, rain = s.is_liquid, s.echo["radar"], s.echo["lidar"], s.lwc_source.lwp, s.lwc_source.is_rain
    yield "grid", c.like(r, liq)
    n = liq.shape[1]

    def cell(i, j):
        top = lambda k: in_top(c, liq, i, k)
        lidar_only = c.and_(c.exists(n, lambda k: c.and_(top(k), lid[i, k])), ~c.exists(n, lambda k: c.and_(top(k), rad[i, k])))
        short = path(c, s.lwc_adiabatic, s.lwc_source.path_lengths, i) < c.data(lwp[i])
        return c.implies(~c.masked(lwp[i]), lambda: c.iff(r[i, j], c.and_(top(j), lidar_only, short, ~b(rain[i]))))
    yield "topmost lidar-only layers of rain-free profiles whose adiabatic path is too small", c.forall(liq.shape, cell)


SELF = TObj(LW + "CloudAdjustor", is_liquid=TArr("b", TH, runs=True), echo=TDict(radar=TArr("b", TH), lidar=TArr("b", TH)), lwc_adiabatic=TArr("f", TH, lo=0, hi=1e-3, vals=[0]),
            lwc_source=TObj(LW + "LwcSource", lwp=TOne(TArr("f", "t", masked=True, lo=0, hi=.2, vals=[0]), TArr("f", "t", lo=0, hi=.2)), is_rain=TOne(TArr("b", "t"), TArr("i", "t", lo=0, hi=1)), path_lengths=TArr("f", "h", lo=5, hi=100)))

# ------------------------------------------------------------------ one profile


def adjust_inv(c, L, P, k):
    s, s0 = L.self, P.self
    t, base, d = L.time_ind, L.base_ind, L.distance_from_base
    st, ad = s.status, s.lwc_adiabatic
    st0, ad0 = P.self.status, P.self.lwc_adiabatic
    n = st.shape[1]
    filled = lambda i, j: c.and_(i == t, j > base, j < base + d)
    yield "range", c.and_(d >= 1, base + d <= n)
    yield "base value", c.eq(L.lwc_base, ad0[t, base])
    yield "water content", c.forall(st.shape, lambda i, j: c.eq(ad[i, j], c.ite(filled(i, j), ad0[t, base] * (j - base + 1), ad0[i, j])))
    yield "status", c.forall(st.shape, lambda i, j: c.eq(st[i, j], c.ite(c.and_(filled(i, j), c.eq(st0[i, j], 0)), 3, st0[i, j])))
    yield "not yet enough", c.or_(d == 1, path(c, ad, s.lwc_source.path_lengths, t) <= s.lwc_source.lwp[t])


def adjust(c, a, r, p):
    st0, ad0, st, ad = a.self.status, a.self.lwc_adiabatic, p.self.status, p.self.lwc_adiabatic
    t, base, n = a.time_ind, a.base_ind, a.self.status.shape[1]
    h, lwp = a.self.lwc_source.path_lengths, a.self.lwc_source.lwp
    yield "other profiles and the gates up to the base are untouched", c.forall(st.shape, lambda i, j: c.implies(
        c.or_(i != t, j <= base), lambda: c.and_(c.eq(st[i, j], st0[i, j]), c.eq(ad[i, j], ad0[i, j]))))
    yield "only empty cells are added", c.forall(n, lambda j: c.or_(c.eq(st[t, j], st0[t, j]), c.and_(j > base, c.eq(st0[t, j], 0), c.eq(st[t, j], 3))))
    yield "cells are added without gaps", c.forall((n, n), lambda j, k: c.implies(
        c.and_(base < k, k < j, ~c.eq(st[t, j], st0[t, j])), lambda: ~c.eq(st[t, k], 0)))
    enough = path(c, ad, h, t) > lwp[t]
    yield "until the path is reached or the profile is full", c.or_(enough, c.forall(n, lambda j: c.implies(j > base, ~c.eq(st[t, j], 0))))
    def upto(m):
        new = lambda k: c.and_(base < k, k <= m)
        return c.and_(base < m, c.forall(n, lambda k: c.eq(ad[t, k], c.ite(new(k), ad0[t, base] * (k - base + 1), ad0[t, k]))),
                      c.or_(enough, m == n - 1),
                      c.or_(m == base + 1, c.not_(enough), c.sum(n, lambda k: c.ite(k == m, ad0[t, k], ad[t, k]) * h[k]) <= lwp[t]))
    yield "linear profile up to the first gate where the path is reached", c.or_(base == n - 1, c.exists(n, upto))


def adj_req(c, a):
    return [a.time_ind < c.n("t"), a.base_ind < c.n("h")]


ADJ = TObj(LW + "CloudAdjustor", status=TArr("i", TH, lo=0, hi=2), lwc_adiabatic=TArr("f", TH, lo=0, hi=1e-3, vals=[0]), lwc=TArr("f", TH),
           lwc_source=TObj(LW + "LwcSource", lwp=TArr("f", "t", lo=0, hi=.5), path_lengths=TArr("f", "h", lo=5, hi=100)))


# ------------------------------------------------------------------ everything
def new(P, f, a):
    from cloudnetpy.products.lwc import CloudAdjustor
    return P(CloudAdjustor, a.src, a.lwc)


def oracle(liq, rad, lid, ad, lwp, rain, h):
    T, H = liq.shape
    st = np.zeros((T, H), int)
    for i in range(T):
        if rain[i] or np.ma.getmaskarray(lwp)[i]:
            st[i] = 4
            continue
        st[i, liq[i]] = 1
        e = [j for j in range(1, H) if liq[i, j] and not liq[i, j - 1]]
        base = e[-1] if e else H - 1
        top = [j for j in range(base, H) if liq[i, j]]
        if not top or not any(lid[i, j] for j in top) or any(rad[i, j] for j in top) or not (ad[i] * h).sum() < lwp[i]:
            continue
        st[i, liq[i]] = 2
        x = ad[i].copy()
        for j in range(base + 1, H):
            x[j] = ad[i, base] * (j - base + 1)
            if not st[i, j]:
                st[i, j] = 3
            if (x * h).sum() > lwp[i]:
                break
    return st


def whole(c, a, r):
    liq = a.lwc.is_liquid
    q = a.src.categorize_bits.quality_bits
    n = lambda x: x.to_numpy() if isinstance(x, Arr) else x
    x = oracle(n(liq), n(q.radar), n(q.lidar), n(a.lwc.lwc_adiabatic), n(a.src.lwp), n(a.src.is_rain), n(a.src.path_lengths))
    yield "retrieval status", c.forall(TH, lambda i, j: c.and_(~c.masked(r.status[i, j]), c.eq(r.status[i, j], int(x[int(i.v), int(j.v)]))))


# ------------------------------------------------------------------ error
def lerr(c, a, r):
    lwc, lwp, e, rain = a.lwc.lwc, a.src.lwp, a.src.lwp_error, a.src.is_rain
    err = r.error
    yield "grid", c.like(err, lwc)
    nt, nh = lwc.shape

    def v(i, j):
        return c.ite(c.masked(lwc[i, j]), 0, c.data(lwc[i, j]))

    def diff(f, k, n):
        return c.ite(k == 0, f(c.min(k + 1, n - 1)) - f(k), c.ite(k == n - 1, f(k) - f(c.max(k - 1, 0)), (f(c.min(k + 1, n - 1)) - f(c.max(k - 1, 0))) / 2))

    def cell(i, j):
        x = c.data(lwc[i, j])
        ok = c.and_(~c.masked(lwc[i, j]), ~c.eq(x, 0, 0, 0), ~b(rain[i]))
        g1, g2 = diff(lambda k: v(k, j), i, nt), diff(lambda k: v(i, k), j, nh)
        rel = c.sqrt(g1 * g1 + g2 * g2) / x / 2
        rel = c.ite(rel > 5, 5, rel)
        p, q = c.data(lwp[i]), c.data(e[i])
        pe = c.ite(c.eq(p, 0, 0, 0), 0, q / c.ite(c.eq(p, 0, 0, 0), 1, p))
        pe = c.ite(pe > 10, 10, pe)
        present = c.or_(c.masked(lwp[i]), c.masked(e[i]), c.eq(p, 0, 0, 0))
        return c.implies(~present, lambda: c.and_(c.iff(c.masked(err[i, j]), ~ok), c.implies(ok, lambda: c.close(c.data(err[i, j]), c.sqrt(rel * rel + pe * pe)))))
    yield "relative error from gradient and path error, limited, exactly where water is retrieved", c.forall(TH, cell)
    yield "never where nothing is retrieved", c.forall(TH, lambda i, j: c.implies(c.or_(c.masked(lwc[i, j]), b(rain[i])), c.masked(err[i, j])))


def err_new(P, f, a):
    from cloudnetpy.products.lwc import LwcError
    return P(LwcError, a.src, a.lwc)


CONTRACTS = [
    Contract(LW + "CloudAdjustor._find_topmost_clouds", {"self": TObj(LW + "CloudAdjustor", is_liquid=TArr("b", TH, runs=True))}, topmost, dims={"t": 1, "h": 2},
             modular=lambda c, a: new_arr(c, a.self.is_liquid.shape)),
    Contract(LW + "CloudAdjustor._find_lidar_only_clouds", {"detection": TArr("i", TH, lo=0, hi=3)}, only_lidar, dims={"t": 1, "h": 2}, modular=lambda c, a: new_arr(c, a.detection.shape[:1]),
             requires_at_call=lambda c, a: [("codes", c.forall(a.detection.shape, lambda i, j: c.and_(a.detection[i, j] >= 0, a.detection[i, j] <= 3)))]),
    Contract(LW + "CloudAdjustor._find_adjustable_clouds", {"self": SELF}, adjustable, dims={"t": 1, "h": 2}, modifies={"self.is_liquid"}),
    Contract(LW + "CloudAdjustor._adjust_lwc", {"self": ADJ, "time_ind": TInt(0, 3), "base_ind": TInt(0, 5)}, adjust, dims={"t": 1, "h": 2}, requires=adj_req,
             modifies={"self.status", "self.lwc_adiabatic"}, loops={("CloudAdjustor._adjust_lwc", 0): LoopSpec(adjust_inv)}),
    Contract(LW + "CloudAdjustor.__init__", {"src": TObj(LW + "LwcSource", categorize_bits=bits(), lwp=TOne(TArr("f", "t", masked=True, lo=0, hi=.2, vals=[0]), TArr("f", "t", lo=0, hi=.2)),
             is_rain=TOne(TArr("b", "t"), TArr("i", "t", lo=0, hi=1)), path_lengths=TArr("f", "h", lo=5, hi=100)),
             "lwc": TObj(LW + "Lwc", lwc=TArr("f", TH), is_liquid=TArr("b", TH, runs=True), lwc_adiabatic=TArr("f", TH, lo=0, hi=1e-3, vals=[0]))},
             whole, dims={"t": 1, "h": 2}, call=prog(new), bounded_only=True, tries=400, modifies={"lwc"}),
    Contract(LW + "LwcError.__init__", {"src": TOne(*[TObj(LW + "LwcSource", lwp=TArr("f", "t", masked=m, lo=0, hi=.2, vals=[0]), lwp_error=TArr("f", "t", masked=m, lo=0, hi=1), is_rain=r)
             for m in (True, False) for r in (TArr("b", "t"), TArr("i", "t", lo=0, hi=1))]), "lwc": TObj(LW + "Lwc", lwc=TArr("f", TH, masked=True, lo=0, hi=1e-3, vals=[0, 1e-6]))},
             lerr, dims={"t": 2, "h": 2}, call=prog(err_new), modifies={"src.lwp_error"}),
]
