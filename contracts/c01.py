"""C01: category/quality bit fields."""
import dataclasses

from cloudnetpy.products import product_tools
from pyvc.spec import *

from .fakes import with_nc

QF = ["radar", "lidar", "clutter", "molecular", "attenuated_liquid", "corrected_liquid",
      "attenuated_rain", "corrected_rain", "attenuated_melting", "corrected_melting"]
CF = ["droplet", "falling", "freezing", "melting", "aerosol", "insect"]
DEF = {"CategoryBits": CF, "QualityBits": QF}

B = lambda: TArr("b", ("t", "h"))
def obj(cls):
    return TObj(f"cloudnetpy.products.product_tools:{cls}", **{k: B() for k in DEF[cls]})


def encode(cls):
    fields = DEF[cls]

    def ens(c, a, r):
        d = a.data
        x = getattr(d, fields[0])
        yield "one value per cell", c.like(r, x)

        def cell(i, j):
            tot = S("i", 0)
            for n, f in enumerate(fields):
                tot = tot + c.ite(getattr(d, f)[i, j], 1 << n, 0)
            return c.eq(r[i, j], tot)
        yield "bit n is set exactly where documented field n holds, no other bit", c.forall(x.shape, cell)
    return ens


def decode(cls):
    fields = DEF[cls]

    def ens(c, a, r):
        v = a.nc.variables["category_bits" if cls == "CategoryBits" else "quality_bits"]
        for n, f in enumerate(fields):
            x = getattr(r, f)
            yield f"{f} has the grid shape", c.like(x, v)
            yield f"{f} is bit {n}", c.forall(v.shape, lambda i, j: c.iff(x[i, j], c.bit(v[i, j], n)))
    return ens


def round_trip(cls):
    def ens(c, a, r):
        for f in DEF[cls]:
            x, y = getattr(r, f), getattr(a.data, f)
            yield f"{f} survives encode/decode", c.and_(c.like(x, y), c.forall(y.shape, lambda i, j: c.iff(x[i, j], y[i, j])))
    return ens


def lemma_round_trip(data, key):
    """decode(encode(data)) through the real functions (file replaced by a dict)."""
    from cloudnetpy.categorize.categorize import _classes_to_bits
    from cloudnetpy.products.product_tools import CategorizeBits
    bits = _classes_to_bits(data)
    return bits


def rt_call(cls, key):
    import netCDF4
    from unittest import mock
    from .fakes import Dataset
    from cloudnetpy.categorize import categorize

    meth = "_read_category_bits" if cls == "CategoryBits" else "_read_quality_bits"

    def call(it, f, args):
        if it is None:
            bits = categorize._classes_to_bits(args["data"])
            with mock.patch("netCDF4.Dataset", lambda *a, **k: Dataset({key: bits})):
                return f(mkobj(product_tools.CategorizeBits, {"_categorize_file": "x"}))
        bits = it.call(categorize._classes_to_bits, (args["data"],))
        it.overrides = {**it.overrides, netCDF4.Dataset: lambda _it, *a, **k: Obj(Dataset, {"variables": {key: bits}})}
        return it.call(f, (Obj(product_tools.CategorizeBits, {"_categorize_file": "x"}),))
    return call


def isbit(c, a, r):
    n = int(a.nth_bit.v)
    return [("isbit is bit n", c.and_(c.like(r, a.array), c.forall(a.array.shape, lambda i: c.iff(r[i], c.bit(a.array[i], n)))))]


def setbit(c, a, r):
    n = int(a.nth_bit.v)
    yield "setbit sets bit n", c.forall(a.array.shape, lambda i: c.bit(r[i], n))
    yield "setbit leaves the other bits", c.forall(a.array.shape, lambda i: c.eq(r[i], a.array[i] + c.ite(c.bit(a.array[i], n), 0, 1 << n)))


CONTRACTS = []
for cls, key in (("CategoryBits", "category_bits"), ("QualityBits", "quality_bits")):
    meth = "_read_category_bits" if cls == "CategoryBits" else "_read_quality_bits"
    CONTRACTS += [
        Contract("cloudnetpy.categorize.categorize:_classes_to_bits", {"data": obj(cls)}, encode(cls),
                 dims={"t": 1, "h": 1}, name=f"encode {cls}"),
        Contract(f"cloudnetpy.products.product_tools:CategorizeBits.{meth}",
                 {"self": TObj("cloudnetpy.products.product_tools:CategorizeBits", _categorize_file="x"),
                  "nc": TObj("contracts.fakes:Dataset", variables=TDict(**{key: TArr("i", ("t", "h"), lo=0, hi=2**30)}))},
                 decode(cls), dims={"t": 1, "h": 1}, name=f"decode {cls}", call=with_nc()),
        Contract(f"cloudnetpy.products.product_tools:CategorizeBits.{meth}", {"data": obj(cls)}, round_trip(cls),
                 dims={"t": 1, "h": 1}, name=f"round trip {cls}", call=rt_call(cls, key)),
    ]
CONTRACTS += [
    Contract("cloudnetpy.utils:isbit", {"array": TArr("i", "n", lo=0), "nth_bit": TOne(*range(12))}, isbit, dims={"n": 0}),
    Contract("cloudnetpy.utils:setbit", {"array": TArr("i", "n", lo=0), "nth_bit": TOne(*range(12))}, setbit, dims={"n": 0}, modifies={"array"}),
]
