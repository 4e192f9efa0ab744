"""C17: classification of the targets in the categorize file."""
import numpy as np

from pyvc import npm
from pyvc.core import Arr
from pyvc.spec import *

from cloudnetpy import utils

from .c05 import components
from .c12 import ca
from .common import *
from .stubs import ghost, trusted

K = "cloudnetpy.categorize."
OBS = K + "containers:ClassData"
T0 = 273.16


def M(lo, hi, vals=None):
    return TArr("f", TH, masked=True, lo=lo, hi=hi, vals=vals)


def obs(**kw):
    return TObj(OBS, **kw)


RAIN = TOne(TArr("i", "t", lo=0, hi=1), TArr("b", "t"))


# ------------------------------------------------------------------ containers
def clutter(c, a, r):
    v = a.v
    yield "grid", c.like(r, v)
    yield "slow echo in the ten lowest gates of rain-free profiles", c.forall(TH, lambda i, j: c.iff(b(r[i, j]), c.and_(
        j < 10, ~c.masked(v[i, j]), abs(c.data(v[i, j])) < 0.05, c.eq(a.is_rain[i], 0) if a.is_rain.kind == "i" else ~b(a.is_rain[i]))))


def first_gate(c, z, j):
    """j is the lowest gate with any echo (0 without echo)"""
    n, m = z.shape
    some = lambda k: c.exists(n, lambda i: ~c.masked(z[i, k]))
    return c.or_(c.and_(some(j), ~c.exists(j, some)), c.and_(j == 0, ~c.exists(m, some)))


def radar_rain(c, s, i):
    """c -> condition for rain in profile i at gate j"""
    def at(j):
        z, v = s.z[i, j], s.v[i, j]
        ok = c.and_(~c.masked(z), c.data(z) > 3, c.data(v) < 0)
        for k in ("ldr", "sldr"):
            if k in s:
                return c.and_(ok, c.data(getattr(s, k)[i, j]) < -15)
        return ok

    def known(j):
        return c.and_(*[~c.masked(getattr(s, k)[i, j]) for k in ("v", "ldr", "sldr") if k in s])
    return at, known


def echo_rain(c, a, r):
    s = a.self
    n, m = s.z.shape
    yield "one flag per profile", c.shape_is(r, n)

    def cell(i, j):
        rain, known = radar_rain(c, s, i)
        return c.implies(first_gate(c, s.z, j), lambda: c.implies(c.masked(s.z[i, j + 3]) | known(j + 3), lambda: c.eq(r[i], c.ite(rain(j + 3), 1, 0))))
    yield "strong falling echo three gates above the lowest echo", c.forall((n, m - 3), cell)


def echo_req(c, a):
    z = a.self.z
    n, m = z.shape
    return [c.exists(m - 3, lambda j: c.exists(n, lambda i: ~c.masked(z[i, j])))]


def dis_rain(c, a, r):
    d = a.self.data.disdrometer
    n = a.self.time.shape[0]
    yield "one value per profile", c.shape_is(r, n)
    if d is None:
        yield "missing", c.forall(n, lambda i: c.masked(r[i]))
        return
    rr, p = d.data["rainfall_rate"].data, d.data["n_particles"].data

    def cell(i):
        miss = c.masked(rr[i]) | c.masked(p[i])
        wet = c.and_(c.data(rr[i]) * 3600000 > 0.25, c.data(p[i]) > 30)
        near = abs(c.data(rr[i]) * 3600000 - 0.25) < 1e-9
        return c.and_(c.iff(c.masked(r[i]), miss), c.implies(~miss & ~near, lambda: c.eq(c.data(r[i]), c.ite(wet, 1, 0))))
    yield "rain rate above 0.25 mm/h with more than 30 particles", c.forall(n, cell)


# ------------------------------------------------------------------ falling
def falling_radar(c, a, r):
    o = a.obs
    yield "echo that is neither clutter nor insects", c.forall(TH, lambda i, j: c.iff(b(r[i, j]), c.and_(~c.masked(o.z[i, j]), ~b(o.is_clutter[i, j]), ~b(a.is_insects[i, j]))))


# ------------------------------------------------------------------ classify
def above(c, x):
    return lambda i, j: c.exists(j + 1, lambda k: b(x[i, k]))


def aerosols(c, a, r):
    be, k = a.obs.beta, a.bits
    yield "lidar signal that is neither falling nor droplets", c.forall(TH, lambda i, j: c.iff(b(r[i, j]), c.and_(~c.masked(be[i, j]), ~b(k.falling[i, j]), ~b(k.droplet[i, j]))))


def cold(c, a, r, p):
    o, n = a.bits, p.bits
    tw = a.obs.tw

    def cell(i, j):
        x = c.and_(b(o.droplet[i, j]), ~c.masked(tw[i, j]), c.data(tw[i, j]) < T0 - 38)
        return c.implies(~c.masked(tw[i, j]), lambda: c.and_(c.iff(b(n.droplet[i, j]), b(o.droplet[i, j]) & ~x), c.iff(b(n.falling[i, j]), b(o.falling[i, j]) | x)))
    yield "droplets below -38 C are ice", c.forall(TH, cell)


def high_ldr(c, a, r, p):
    o, n = a.bits, p.bits
    if "ldr" not in a.obs:
        for k in ("insect", "falling", "aerosol"):
            yield k + " unchanged", c.all_same(getattr(n, k), getattr(o, k))
        return
    tw, ldr, be = a.obs.tw, a.obs.ldr, a.obs.beta

    def cell(i, j):
        x = c.and_(b(o.falling[i, j]), b(o.freezing[i, j]), ~b(o.droplet[i, j]), ~b(o.melting[i, j]), ~c.masked(ldr[i, j]), c.data(ldr[i, j]) > -13,
                   c.data(tw[i, j]) > T0 - 10, ~above(c, o.melting)(i, j))
        return c.implies(~c.masked(tw[i, j]), lambda: c.and_(c.iff(b(n.insect[i, j]), b(o.insect[i, j]) | x), c.iff(b(n.falling[i, j]), b(o.falling[i, j]) & ~x),
                      c.iff(b(n.aerosol[i, j]), b(o.aerosol[i, j]) | (x & ~c.masked(be[i, j])))))
    yield "warm ice cells with high depolarisation outside the melting layer become insects", c.forall(TH, cell)


def drizzle_falling(c, a, r):
    k = a.bits

    def cell(i, j):
        dry = b(k.falling[i, j]) & ~b(k.droplet[i, j])
        sc = b(k.droplet[i, j]) & b(k.freezing[i, j])
        driz = dry & ~b(k.freezing[i, j])
        return c.and_(c.iff(c.masked(r[i, j]), ~dry & ~sc), c.implies(dry | sc, lambda: c.eq(c.data(r[i, j]), c.ite(driz, 2, 1))))
    yield "2 drizzle, 1 other falling or supercooled droplets, else missing", c.forall(TH, cell)


def undetected(c, a, r, p):
    k, n, lwp = a.bits, p.bits, a.lwp

    def kind(i, j):
        dry = b(k.falling[i, j]) & ~b(k.droplet[i, j])
        sc = b(k.droplet[i, j]) & b(k.freezing[i, j])
        return dry & ~b(k.freezing[i, j]), (dry & b(k.freezing[i, j])) | sc

    def cell(i, j):
        warm = kind(i, c.max(j - 1, 0))[0]
        ice = kind(i, j)[1]
        allow = c.masked(lwp[i]) | (c.data(lwp[i]) > 0.005)
        return c.iff(b(n.melting[i, j]), b(k.melting[i, j]) | c.and_(j > 0, warm, ice, allow))
    yield "melting at the transition from drizzle to ice unless the profile is dry", c.forall(TH, cell)


# ------------------------------------------------------------------ insects
def screen(c, a, r):
    o = a.obs

    def cell(i, j):
        x = c.or_(b(a.liquid_layers[i, j]), above(c, a.melting_layer)(i, j), c.and_(above(c, a.liquid_layers)(i, j), a.insect_prob_no_ldr[i, j] > 0), ~c.eq(o.is_rain[i], 0) if o.is_rain.kind == "i" else b(o.is_rain[i]))
        return c.eq(r[i, j], c.ite(x, 0, a.insect_prob[i, j]))
    yield "no insects in or above melting layer, in liquid, above liquid without depolarisation, in rain", c.forall(TH, cell)


BITS = category_bits
D = {"t": 1, "h": 1}
P01 = TArr("f", TH, lo=0, hi=1, vals=[0])
V = M(-5, 3, [0, 0.01, -0.04, 0.05])
SELF = lambda **k: obs(z=M(-40, 30, [3]), v=M(-5, 3, [0]), time=TArr("f", "t"), **k)
DIS = TOne(None, TObj(K + "disdrometer:Disdrometer", data=TDict(rainfall_rate=ca(TArr("f", "t", masked=True, lo=0, hi=2e-7)), n_particles=ca(TArr("f", "t", masked=True, lo=0, hi=60)))))
CONTRACTS = [
    Contract(K + "containers:_find_clutter", {"v": V, "is_rain": RAIN}, clutter, dims={"t": 2, "h": 1}),
    Contract(OBS + "._find_rain_from_radar_echo", {"self": TOne(SELF(), SELF(ldr=M(-30, 0)), SELF(sldr=M(-30, 0)))}, echo_rain, dims={"t": 1, "h": 4}, requires=echo_req),
    Contract(OBS + "._find_rain_from_disdrometer", {"self": obs(time=TArr("f", "t"), data=TObj(K + "containers:Observations", disdrometer=DIS))}, dis_rain, dims={"t": 1}),
    Contract(K + "falling:_find_falling_from_radar", {"obs": obs(z=M(-40, 30), is_clutter=B2()), "is_insects": B2()}, falling_radar, dims=D),
    Contract(K + "classify:_find_aerosols", {"obs": obs(beta=M(0, 1)), "bits": BITS()}, aerosols, dims=D),
    Contract(K + "classify:_fix_super_cold_liquid", {"obs": obs(tw=TOne(M(220, 280, [T0 - 38]), TArr("f", TH, lo=220, hi=280, vals=[T0 - 38]))), "bits": BITS()}, cold, dims=D, modifies={"bits"}),
    Contract(K + "classify:_reclassify_ice_with_high_ldr", {"obs": TOne(obs(beta=M(0, 1), tw=TArr("f", TH, lo=250, hi=290), ldr=M(-30, 0, [-13])), obs(beta=M(0, 1), tw=M(250, 290), ldr=M(-30, 0, [-13])), obs(beta=M(0, 1), tw=TArr("f", TH))), "bits": BITS()}, high_ldr, dims=D, modifies={"bits"}),
    Contract(K + "classify:_find_drizzle_and_falling", {"bits": BITS()}, drizzle_falling, dims=D),
    Contract(K + "classify:_fix_undetected_melting_layer", {"bits": BITS(), "lwp": TArr("f", "t", masked=True, lo=-.01, hi=.02)}, undetected, dims=D, modifies={"bits"}),
    Contract(K + "insects:_screen_insects", {"insect_prob": P01, "insect_prob_no_ldr": P01, "melting_layer": B2(), "liquid_layers": B2(), "obs": obs(is_rain=RAIN)}, screen, dims=D),
]


def false_liquid(c, a, r):
    x, lid = a.liquid_from_radar, a.liquid_from_lidar
    base = lambda i, k: c.and_(b(lid[i, k]), c.or_(k == 0, ~b(lid[i, c.max(k - 1, 0)])))
    yield "grid", c.like(r, x)
    yield "radar droplets below a base of lidar droplets are dropped", c.forall(TH, lambda i, j: c.iff(b(r[i, j]), c.and_(b(x[i, j]), ~c.exists(x.shape[1], lambda k: c.and_(k > j, base(i, k))))))


CONTRACTS.append(Contract(K + "classify:_remove_false_radar_liquid", {"liquid_from_radar": B2(), "liquid_from_lidar": B2()}, false_liquid, dims=D, modifies={"liquid_from_radar"}))


def ends(c, z, lo, hi):
    """p -> p is the lowest valid sample among lo..hi; q -> q is the highest; whether there are two valid samples; z(k) is a sample"""
    ok = lambda k: c.and_(lo <= k, k <= hi, lambda: ~c.masked(z(k)))
    n = c.max(hi + 1, 0)
    return (lambda p: c.and_(ok(p), lambda: ~c.exists(p, ok))), (lambda q: c.and_(ok(q), lambda: ~c.exists(n, lambda k: c.and_(k > q, ok(k))))), lambda: c.exists((n, n), lambda p, q: c.and_(p < q, ok(p), ok(q)))


def flag(c, a):
    key = ("rising", *[(k, npm._canon(c.ctx, v) if isinstance(v, Arr) else repr(v)) for k, v in sorted(a._d.items())])
    if key not in c.ctx.memo:
        c.ctx.memo[key] = c.ctx.fresh("rising", "b")
    return c.ctx.memo[key]


def z_increasing(c, a, r):
    r = b(S.of(r))
    first, last, two = ends(c, lambda k: a.z[k], a.ind_base, a.ind_top)
    yield "at least two valid samples", c.implies(r, two)
    yield "highest valid echo of the layer stronger than the lowest", c.forall(("h", "h"), lambda p, q: c.implies(
        c.and_(p < q, first(p), last(q)), lambda: c.iff(r, c.data(a.z[q]) > c.data(a.z[p]))))


def dominated(c, a, r):
    z, x, liq = a.obs.z, a.falling_from_radar, a.is_liquid
    m = z.shape[1]

    def layer(i, lo, hi):
        return c.and_(c.or_(lo == 0, lambda: ~b(liq[i, c.max(lo - 1, 0)])), c.or_(hi == m - 1, lambda: ~b(liq[i, hi + 1])),
                      ~c.exists(m, lambda k: c.and_(lo <= k, k <= hi, ~b(liq[i, k]))))

    open_ = lambda i, hi: c.and_(hi < m - 1, lambda: c.masked(z[i, hi + 1]))

    def cell(i, j, lo, hi, p, q):
        first, last, two = ends(c, lambda k: z[i, k], lo, hi)
        return c.implies(c.and_(lo <= j, j <= hi, p < q), lambda: c.implies(c.and_(layer(i, lo, hi), first(p), last(q)), lambda: c.iff(
            b(r[i, j]), c.and_(b(x[i, j]), ~c.and_(open_(i, hi), c.data(z[i, q]) > c.data(z[i, p]))))))

    def other(i, j, lo, hi):
        first, last, two = ends(c, lambda k: z[i, k], lo, hi)
        return c.implies(c.and_(lo <= j, j <= hi), lambda: c.implies(c.and_(layer(i, lo, hi), c.or_(~open_(i, hi), lambda: ~two())), lambda: c.iff(b(r[i, j]), b(x[i, j]))))
    yield "grid", c.like(r, x)
    yield "outside the droplet layers", c.forall(TH, lambda i, j: c.implies(~b(liq[i, j]), lambda: c.iff(b(r[i, j]), b(x[i, j]))))
    yield "below an echo or without two echoes", c.forall((*x.shape, m, m), other)
    yield "echo inside droplet layers with no echo above and increasing with height is not falling", c.forall((*x.shape, m, m, m, m), cell)


CONTRACTS.append(Contract(K + "falling:_is_z_increasing", {"z": TArr("f", "h", masked=True, lo=-40, hi=30), "ind_base": TInt(0, 9), "ind_top": TInt(0, 9)}, z_increasing, dims={"h": 1},
                          requires=lambda c, a: [a.ind_base >= 0, a.ind_top >= a.ind_base, a.ind_top < a.z.shape[0]],
                          requires_at_call=lambda c, a: [("layer within the profile", c.and_(a.ind_base >= 0, a.ind_top >= a.ind_base, a.ind_top < a.z.shape[0]))], modular=flag))
CONTRACTS.append(Contract(K + "falling:_fix_liquid_dominated_radar", {"obs": obs(z=M(-40, 30)), "falling_from_radar": B2(), "is_liquid": TArr("b", TH, runs=True)}, dominated, dims={"t": 1, "h": 1}, modifies={"falling_from_radar"}))


def count_key(c, x, dist, var):
    """the memoised number of elements of the modular contract (symbolic) or the real one"""
    if not c.symbolic:
        from cloudnetpy import utils
        return S.of(int(utils.n_elements(np.array([float(x[k].v) for k in range(int(S.of(x.shape[0]).v))]), float(S.of(dist).v), var)))
    key = ("n_elements", npm._canon(c.ctx, x), repr(dist), var)
    if key not in c.ctx.memo:
        c.ctx.memo[key] = c.ctx.fresh("nel", "i")
    return c.ctx.memo[key]


def n_el(c, a, r):
    n = a.array.shape[0]
    d = c.data(a.array[c.min(n - 1, 1)]) - c.data(a.array[0])
    same = ~c.exists(n - 1, lambda k: ~c.eq(a.array[k + 1] - a.array[k], d, 0, 0))
    dist = S.of(a.dist) / (60 if a.var == "time" else 1)
    yield "not negative", c.implies(S.of(a.dist) >= 0, lambda: S.of(r) >= 0)
    yield "nearest number of steps", c.implies(c.and_(n > 1, same), lambda: abs(S.of(r) * d - dist) <= d * S.of(.5000001))


def liquid_top(c, a, r):
    z, liq, frz = a.obs.z, a.is_liquid, a.is_freezing
    m = z.shape[1]
    top = lambda i, t: c.and_(b(liq[i, t]), c.or_(t == m - 1, lambda: ~b(liq[i, t + 1])))
    above = count_key(c, a.obs.height, a.limit, None)

    def added(i, j):
        def by(t):
            valid = ~c.exists(j + 1, lambda k: c.and_(k >= t, c.masked(z[i, k])))
            # an echo-free gate not more than the limit above the first freezing gate at or above the top
            gap = c.exists(m, lambda k: c.and_(k > j, c.masked(z[i, k]), lambda: ~c.exists(k, lambda g: c.and_(g >= t, g + above < k, b(frz[i, g])))))
            return c.and_(top(i, t), valid, gap)
        return c.exists(j + 1, by)
    yield "grid", c.like(r, liq)
    yield "droplets above a lidar top up to the end of the echo", c.forall(TH, lambda i, j: c.iff(b(r[i, j]), b(liq[i, j]) | added(i, j)))


def freezing_above(c, a):
    m = a.obs.z.shape[1]
    return [~c.exists(a.obs.z.shape, lambda i, j: c.and_(b(a.is_liquid[i, j]), ~c.exists(m, lambda k: c.and_(k >= j, b(a.is_freezing[i, k])))))]


CONTRACTS += [
    Contract("cloudnetpy.utils:n_elements", {"array": TArr("f", "h", lo=0, hi=100, order="<"), "dist": TReal(0, 20), "var": TOne(None, TConst("time"))}, n_el, dims={"h": 2},
             modular=lambda c, a: count_key(c, a.array, a.dist, a.var)),
    Contract(K + "droplet:correct_liquid_top", {"obs": obs(z=M(-40, 30), height=TArr("f", "h", lo=0, hi=500, order="<")), "is_liquid": TArr("b", TH, runs=True), "is_freezing": B2(), "limit": TReal(0, 500)},
             liquid_top, dims={"t": 1, "h": 2}, requires=freezing_above, tries=400),
]


# ------------------------------------------------------------------ filters
def insect_gen(g, variant):
    """a melting layer near the edges of the day with insects around it and falling cells below"""
    r = g.rng
    dims = {"t": int(r.integers(6, 14)), "h": int(r.integers(7, 12))}
    g.dims.update(dims)
    args = {k: d.conc(g, k) for k, d in variant.items()}
    bits = args["bits"]
    bits.melting[:] = False
    for _ in range(int(r.integers(1, 3))):
        bits.melting[int(r.choice([0, 1, dims["t"] - 7, dims["t"] // 2])), int(r.integers(5, dims["h"]))] = True
    bits.insect[:] = r.random(bits.insect.shape) < 0.7
    bits.falling[:] = r.random(bits.insect.shape) < r.choice([0.3, 0.7, 0.9])
    return dims, args


def near(c, melting, i, j):
    """next to a melting cell: up to five gates below it, or within five profiles and one gate"""
    n, m = melting.shape
    return c.exists((n, m), lambda x, y: c.and_(b(melting[x, y]), c.or_(c.and_(x == i, y - 5 <= j, j < y), c.and_(abs(x - i) <= 5, abs(y - j) <= 1))))


def moved(c, f0, x0, f1, x1, i, j):
    """insects only turn into falling, and nothing else is lost"""
    return c.and_(c.implies(b(x1[i, j]), b(x0[i, j])), c.implies(b(f0[i, j]), b(f1[i, j])), c.implies(b(x0[i, j]) & ~b(x1[i, j]), b(f1[i, j])))


def filter_inv(c, L, P, k):
    f0, x0, f1, x1 = P.is_falling, P.is_insects, L.is_falling, L.is_insects
    yield "insects only become falling", c.forall(x0.shape, lambda i, j: moved(c, f0, x0, f1, x1, i, j))
    yield "only next to the melting layer", c.forall(x0.shape, lambda i, j: c.implies(
        ~c.iff(b(x0[i, j]), b(x1[i, j])) | ~c.iff(b(f0[i, j]), b(f1[i, j])), lambda: near(c, L.is_melting_layer, i, j)))


def filtered(c, a, r, p):
    o, n = a.bits, p.bits
    yield "insects only become falling", c.forall(TH, lambda i, j: moved(c, o.falling, o.insect, n.falling, n.insect, i, j))
    yield "no insects in or above the melting layer", c.forall(TH, lambda i, j: c.implies(above(c, o.melting)(i, j), ~b(n.insect[i, j])))
    yield "only above or next to the melting layer", c.forall(TH, lambda i, j: c.implies(
        ~c.iff(b(o.insect[i, j]), b(n.insect[i, j])) | ~c.iff(b(o.falling[i, j]), b(n.falling[i, j])), lambda: above(c, o.melting)(i, j) | near(c, o.melting, i, j)))
    for k in ("droplet", "freezing", "melting", "aerosol"):
        yield f"{k} unchanged", c.all_same(getattr(n, k), getattr(o, k))


def speckle_model(ctx, mask, max_size, connectivity):
    ctx.oblige("speckles are at most 10 edge-connected cells", S("b", max_size == 10 and connectivity == 1))
    k = ctx.fresh_arr("kept", "b", mask.shape)
    mask = mask.snapshot()
    ghost(ctx)["kept"] = k
    return Arr(mask.shape, "b", lambda i: S("b", k.get(i).bool()) & S("b", mask.get(i).bool()))


def speckle(c, a, r, p):
    o, n, be = a.bits, p.bits, a.obs.beta
    if c.symbolic:
        k = ghost(c.ctx)["kept"]
        kept = lambda i, j: b(k[i, j])
    else:
        x = components(o.falling.to_numpy(), 10)
        kept = lambda i, j: S("b", bool(x[int(i.v), int(j.v)]))

    def cell(i, j):
        lost = b(o.falling[i, j]) & ~kept(i, j)
        return c.and_(c.iff(b(n.falling[i, j]), b(o.falling[i, j]) & kept(i, j)), c.iff(b(n.insect[i, j]), b(o.insect[i, j]) | (lost & ~b(o.freezing[i, j]))),
                      c.iff(b(n.aerosol[i, j]), b(o.aerosol[i, j]) | (lost & ~c.masked(be[i, j]))))
    yield "isolated falling cells become insects in the warm and aerosol under lidar signal", c.forall(TH, cell)
    for k in ("droplet", "freezing", "melting"):
        yield f"{k} unchanged", c.all_same(getattr(n, k), getattr(o, k))


def declutter(c, a, r, p):
    o, n, cl = a.bits, p.bits, a.is_clutter
    T, H = cl.shape
    lof = lambda i, j: b(o.droplet[i, j]) | b(o.falling[i, j])

    def cell(i, j):
        nb = c.or_(lof(i, j), c.and_(i > 0, lambda: lof(c.max(i - 1, 0), j)), c.and_(i < T - 1, lambda: lof(i + 1, j)),
                   c.and_(j > 0, lambda: lof(i, c.max(j - 1, 0))), c.and_(j < H - 1, lambda: lof(i, j + 1)))
        false = b(cl[i, j]) & nb
        return c.and_(c.iff(b(r[i, j]), b(cl[i, j]) & ~false), c.iff(b(n.falling[i, j]), b(o.falling[i, j]) | false))
    yield "clutter touching droplets or falling cells is falling instead", c.forall(TH, cell)


def cold_aerosols(c, a, r):
    o = a.obs
    rng = lambda j: o.height[j] - o.altitude
    be = lambda i, j: ~c.masked(o.beta[i, j])

    def cell(i, j):
        lo = c.max(j - 5, 0)
        cnt = c.sum(j - lo + 1, lambda k: c.ite(be(i, lo + k), 1, 0))
        x = c.and_(c.data(o.tw[i, j]) < T0 - 15, be(i, j), ~b(a.is_liquid[i, j]), rng(j) >= 2000, c.or_(rng(j) >= 4000, cnt <= 2))
        return c.iff(b(r[i, j]), x)
    yield "grid", c.like(r, a.is_liquid)
    yield "cold lidar signal above 2 km, isolated up to 4 km", c.forall(TH, cell)


def profiles(c, a, r):
    s = a.self
    n, m = s.z.shape
    d = s.data.disdrometer
    yield "one flag per profile", c.shape_is(r, n)
    warm = lambda i, j: c.and_(~c.exists(n, lambda k: c.masked(s.tw[k, j])), ~c.exists(j, lambda q: ~c.exists(n, lambda k: c.masked(s.tw[k, q]))))

    def cell(i, j, q):
        rain, known = radar_rain(c, s, i)
        ok = c.and_(first_gate(c, s.z, j), warm(i, q), c.masked(s.z[i, j + 3]) | known(j + 3))
        hot = c.data(s.tw[i, q]) > T0 + 5
        if d is None:
            return c.implies(ok, lambda: c.iff(~c.eq(r[i], 0), rain(j + 3) & hot))
        rr, p = d.data["rainfall_rate"].data, d.data["n_particles"].data
        miss = c.masked(rr[i]) | c.masked(p[i])
        near = abs(c.data(rr[i]) * 3600000 - 0.25) < 1e-9
        dis = c.and_(c.data(rr[i]) * 3600000 > 0.25, c.data(p[i]) > 30)
        return c.implies(c.and_(ok, ~near), lambda: c.iff(~c.eq(r[i], 0), c.ite(miss, rain(j + 3).cast("i"), dis.cast("i")).cast("b") & hot))
    yield "disdrometer where available else radar echo, in profiles warmer than 5 C near the ground", c.forall((n, m - 3, m), cell)


def prof_req(c, a):
    n, m = a.self.tw.shape
    return echo_req(c, a) + [c.exists(m, lambda j: ~c.exists(n, lambda k: c.masked(a.self.tw[k, j])))]


CONTRACTS += [
    Contract(K + "classify:_filter_insects", {"bits": BITS()}, filtered, dims=D, modifies={"bits"}, loops={("_filter_insects", 0): LoopSpec(filter_inv)}, gen=insect_gen),
    Contract(K + "classify:_filter_falling", {"bits": BITS(), "obs": obs(beta=M(0, 1))}, speckle, dims=D, modifies={"bits"}, overrides={utils.remove_small_objects: trusted(utils.remove_small_objects, speckle_model)}),
    Contract(K + "classify:_remove_clutter_in_liquid", {"is_clutter": B2(), "bits": BITS()}, declutter, dims=D, modifies={"bits"}),
    Contract(K + "falling:_find_cold_aerosols", {"obs": obs(beta=M(0, 1), height=TArr("f", "h", lo=0, hi=7000, order="<"), altitude=TReal(0, 500), tw=M(230, 280)), "is_liquid": B2()}, cold_aerosols, dims=D, tries=300),
    Contract(OBS + "._find_profiles_with_rain", {"self": TOne(*[obs(z=M(-40, 30, [3]), v=M(-5, 3, [0]), time=TArr("f", "t"), tw=M(270, 290), data=TObj(K + "containers:Observations", disdrometer=x)) for x in (None, DIS.ts[1])])}, profiles,
             dims={"t": 1, "h": 4}, requires=prof_req),
]
