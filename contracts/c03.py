"""C03: detection status and signal source."""
from pyvc.spec import *

from .common import *


def att(q, i, j):
    return b(q.attenuated_liquid[i, j]) | b(q.attenuated_rain[i, j]) | b(q.attenuated_melting[i, j])


def corr(q, i, j):
    ok = ~(S("b", False))
    for k in ("liquid", "rain", "melting"):
        ok = ok & (~b(getattr(q, "attenuated_" + k)[i, j]) | b(getattr(q, "corrected_" + k)[i, j]))
    return att(q, i, j) & ok


def detection(c, a, r):
    q = a.categorize_bits.quality_bits
    yield "one status per cell", c.like(r, q.radar)

    def cell(i, j):
        rad, lid, clut, mol = (b(x[i, j]) for x in (q.radar, q.lidar, q.clutter, q.molecular))
        at, co = att(q, i, j), corr(q, i, j)
        want = first(c, [
            (mol & ~rad, 9),
            (clut, 8),
            (rad & at & ~co, 2),
            (rad & co, 7),
            (~rad & at & co, 6),
            (~rad & at & ~co, 4),
            (rad & ~lid & ~at, 5),
            (rad & lid, 3),
            (lid & ~rad, 1),
        ], 0)
        return c.eq(r[i, j], want)
    yield "status follows the documented table", c.forall(("t", "h"), cell)


def source(c, a, r):
    q = a.categorize_bits.quality_bits
    yield "one status per cell", c.like(r, q.radar)

    def cell(i, j):
        rad, lid = b(q.radar[i, j]), b(q.lidar[i, j])
        return c.eq(r[i, j], first(c, [(rad & lid, 1), (rad, 2), (lid, 3)], 0))
    yield "source follows the two detection bits", c.forall(("t", "h"), cell)


CONTRACTS = [
    Contract("cloudnetpy.products.classification:_get_detection_status", {"categorize_bits": categorize_bits()},
             detection, dims={"t": 1, "h": 1}),
    Contract("cloudnetpy.products.classification:_get_signal_source_status", {"categorize_bits": categorize_bits()},
             source, dims={"t": 1, "h": 1}),
]
