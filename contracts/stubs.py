"""Assumed contracts on library routines the engine does not look into.

`trusted(fn, model)`: with concrete inputs the real routine runs; with symbolic inputs
`model(ctx, *args)` states what is assumed about its result."""
import numpy as np

from pyvc.core import Arr, S
from pyvc.spec import lift


def _nat(x):
    if isinstance(x, Arr):
        return x.to_numpy()
    if isinstance(x, S):
        return x.py()
    if isinstance(x, (list, tuple)):
        return type(x)(_nat(i) for i in x)
    return x


def trusted(fn, model):
    def handler(it, *a, **k):
        if not it.ctx.symbolic:
            return lift(fn(*[_nat(x) for x in a], **{n: _nat(v) for n, v in k.items()}))
        return model(it.ctx, *a, **k)
    return handler


def ghost(ctx):
    if not hasattr(ctx, "ghost"):
        ctx.ghost = {}
    return ctx.ghost
