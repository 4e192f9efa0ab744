"""C05: cloud base and top heights."""
import numpy as np

from cloudnetpy import utils
from pyvc.spec import *
from pyvc.core import is_z, Arr, S

from .common import *
from .stubs import ghost, trusted

CLOUD = (1, 3, 4, 5)
MAX = 20


def components(m, max_size):
    """cells of 4-connected groups with more than max_size cells"""
    m = np.asarray(m, bool)
    out = np.zeros(m.shape, bool)
    seen = np.zeros(m.shape, bool)
    for i, j in zip(*np.nonzero(m)):
        if seen[i, j]:
            continue
        seen[i, j] = True
        grp = [(i, j)]
        for p, q in grp:
            for x, y in ((p + 1, q), (p - 1, q), (p, q + 1), (p, q - 1)):
                if 0 <= x < m.shape[0] and 0 <= y < m.shape[1] and m[x, y] and not seen[x, y]:
                    seen[x, y] = True
                    grp.append((x, y))
        if len(grp) > max_size:
            for x in grp:
                out[x] = True
    return out


def _model(ctx, mask, max_size, connectivity):
    ctx.oblige("small cloud objects are those of at most 20 edge-connected cells",
               S("b", max_size == MAX and connectivity == 1))
    k = ctx.fresh_arr("kept", "b", mask.shape)
    ghost(ctx)["mask"], ghost(ctx)["kept"] = mask.snapshot(), k
    return Arr(mask.shape, "b", lambda i: S("b", k.get(i).bool()) & S("b", mask.get(i).bool()))


OV = {utils.remove_small_objects: trusted(utils.remove_small_objects, _model)}


def is_cloud(x):
    out = S("b", False)
    for v in CLOUD:
        out = out | (x == v)
    return out


def kept(c, cls):
    if c.symbolic:
        k = ghost(c.ctx).get("kept")
        if k is None:
            raise Unsupported("no small object removal on this path")
        return lambda i, j: b(k[i, j]) & is_cloud(cls[i, j])
    x = components(np.isin(cls.to_numpy(), CLOUD), MAX)
    return lambda i, j: S("b", bool(x[int(i.v), int(j.v)]))


def heights(c, a, r):
    base, top = r
    keep = kept(c, a.classification)
    h = a.height
    yield "one base and one top per profile", c.and_(c.shape_is(base, "t"), c.shape_is(top, "t"))

    def prof(i):
        anyc = c.exists("h", lambda j: keep(i, j))
        lo = lambda x: c.exists("h", lambda j: c.and_(keep(i, j), c.eq(h[j], c.data(x))))
        return c.and_(c.iff(c.masked(base[i]), ~b(anyc)), c.iff(c.masked(top[i]), ~b(anyc)),
                      c.implies(anyc, lambda: c.and_(lo(base[i]), lo(top[i]))))
    yield "missing exactly in cloud-free profiles, else the height of a cloud gate", c.forall("t", prof)
    yield "no cloud gate below the base", c.forall(("t", "h"), lambda i, j: c.implies(keep(i, j), lambda: h[j] >= c.data(base[i])))
    yield "no cloud gate above the top", c.forall(("t", "h"), lambda i, j: c.implies(keep(i, j), lambda: h[j] <= c.data(top[i])))
    yield "base is not above top", c.forall("t", lambda i: c.implies(~c.masked(base[i]), lambda: c.data(base[i]) <= c.data(top[i])))


def gen(g, variant):
    t, h = int(g.rng.integers(5, 12)), int(g.rng.integers(5, 12))
    cls = g.rng.choice([0, 2, 6, 7, 8, 9, 10], (t, h))
    for _ in range(int(g.rng.integers(1, 4))):
        n = int(g.rng.integers(15, 30))
        i, j = int(g.rng.integers(t)), int(g.rng.integers(h))
        for _ in range(n):
            cls[i, j] = g.rng.choice(CLOUD)
            if g.rng.random() < 0.5:
                i = int(np.clip(i + g.rng.integers(-1, 2), 0, t - 1))
            else:
                j = int(np.clip(j + g.rng.integers(-1, 2), 0, h - 1))
    cls = np.ma.array(cls)
    return {"t": t, "h": h}, {"classification": cls, "height": np.sort(g.rng.uniform(50, 9000, h))}


def status(c, a, r):
    h, top, att, g = a.product_container.dataset.variables["height"].data, a.tops, a.att_status, a.gate
    yield "one status per profile", c.shape_is(r, "t")
    n = c.n("h")

    def prof(i):
        s = S("i", 0)
        at = att[i, g[i]]
        exp = first(c, [(g[i] == n - 1, 4), (at == 3, 1), (at == 4, 3), (at == 5, 2)], 0)
        return c.implies(~c.masked(top[i]), lambda: c.eq(r[i], exp))
    yield "status from the attenuation at the cloud top gate", c.forall("t", prof)


def st_req(c, a):
    h = a.product_container.dataset.variables["height"].data
    return [c.forall("t", lambda i: c.and_(a.gate[i] >= 0, a.gate[i] < c.n("h"), c.eq(h[a.gate[i]], c.data(a.tops[i]))))]


def st_call(it, f, args):
    x = (args["product_container"], args["tops"], args["att_status"])
    return f(*x) if it is None else it.call(f, x)


def source_of(**v):
    from cloudnetpy.datasource import DataSource

    from .fakes import Dataset, Var
    return mkobj(DataSource, {"dataset": Dataset({k: Var(x) for k, x in v.items()})})


def st_gen(g, v):
    t, h = int(g.rng.integers(1, 5)), int(g.rng.integers(1, 7))
    hgt = np.sort(g.rng.uniform(10, 9000, h))
    gate = g.rng.integers(0, h, t)
    return {"t": t, "h": h}, dict(product_container=source_of(height=hgt), gate=gate, att_status=g.rng.integers(0, 7, (t, h)),
                                  tops=np.ma.array(hgt[gate], mask=g.rng.random(t) < 0.2))


def small(c, a, r):
    yield "same grid", c.like(r, a.mask)
    x = components(a.mask.to_numpy(), int(a.max_size.v))
    yield "exactly the edge-connected groups larger than the limit stay", c.forall(a.mask.shape, lambda i, j: c.iff(r[i, j], S("b", bool(x[int(i.v), int(j.v)]))))


def small_gen(g, v):
    t, h = int(g.rng.integers(1, 9)), int(g.rng.integers(1, 9))
    return {"t": t, "h": h}, dict(mask=g.rng.random((t, h)) < g.rng.choice([0.3, 0.5, 0.7]), max_size=int(g.rng.choice([1, 2, 3, 5, 20])), connectivity=1)


def bases(c, a, r):
    yield "same grid", c.like(r, a.array)
    yield "a base is a set cell whose lower neighbour is not set", c.forall(("t", "h"), lambda i, j: c.iff(
        r[i, j], b(a.array[i, j]) & ~(S("b", b(j > 0).v) & b(a.array[i, c.max(j - 1, 0)]))))


def tops(c, a, r):
    yield "same grid", c.like(r, a.array)
    n = c.n("h")
    yield "a top is a set cell whose upper neighbour is not set", c.forall(("t", "h"), lambda i, j: c.iff(
        r[i, j], b(a.array[i, j]) & ~(b(j < n - 1) & b(a.array[i, c.min(j + 1, n - 1)]))))


HGT = TArr("f", "h", lo=1, hi=20000, order="<")
CONTRACTS = [
    Contract("cloudnetpy.categorize.atmos_utils:find_cloud_bases", {"array": B2()}, bases, dims={"t": 1, "h": 1}),
    Contract("cloudnetpy.categorize.atmos_utils:find_cloud_tops", {"array": B2()}, tops, dims={"t": 1, "h": 1}),
    Contract("cloudnetpy.products.classification:_get_cloud_base_and_top_heights",
             {"classification": TArr("i", TH, masked=True, nomask=True, lo=0, hi=10), "height": HGT}, heights,
             dims={"t": 1, "h": 1}, overrides=OV, gen=gen),
    Contract("cloudnetpy.products.classification:_get_cloud_top_height_status",
             {"product_container": TObj("cloudnetpy.datasource:DataSource", dataset=dataset(height=var(HGT))),
              "tops": TArr("f", "t", masked=True), "att_status": TArr("i", TH, lo=0, hi=6), "gate": TArr("i", "t", lo=0)},
             status, dims={"t": 1, "h": 1}, requires=st_req, call=st_call, gen=st_gen),
    Contract("cloudnetpy.utils:remove_small_objects", {"mask": B2(), "max_size": 20, "connectivity": 1}, small,
             dims={"t": 1, "h": 1}, bounded_only=True, gen=small_gen, note="library labelling (scipy.ndimage)"),
]
