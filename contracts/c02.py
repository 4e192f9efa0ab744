"""C02: target classification."""
from pyvc.spec import *

from .common import *


def target(c, a, r):
    k = a.categorize_bits.category_bits
    clutter = a.categorize_bits.quality_bits.clutter
    yield "one class per cell", c.like(r, k.droplet)

    def cell(i, j):
        d, f, cold, melt, aer, ins = (b(x[i, j]) for x in (k.droplet, k.falling, k.freezing, k.melting, k.aerosol, k.insect))
        clut = b(clutter[i, j])
        want = first(c, [
            (clut & ~aer, 0),
            (aer & ins & ~clut, 10),
            (ins & ~clut, 9),
            (aer, 8),
            (melt & d, 7),
            (melt, 6),
            (f & cold & d, 5),
            (f & cold, 4),
            (f & d, 3),
            (f, 2),
            (d, 1),
        ], 0)
        return c.and_(c.not_(c.masked(r[i, j])), c.eq(r[i, j], want))
    yield "class follows the documented table", c.forall(("t", "h"), cell)


CONTRACTS = [
    Contract("cloudnetpy.products.classification:_get_target_classification", {"categorize_bits": categorize_bits()},
             target, dims={"t": 1, "h": 1}),
]
