"""input descriptors shared by several properties"""
import datetime

import numpy as np
import z3

from pyvc.spec import *

from pyvc.interp import Obj

from .c01 import CF, QF
from .stubs import _nat as nat

TH = ("t", "h")


def B2():
    return TArr("b", TH)


def category_bits():
    return TObj("cloudnetpy.products.product_tools:CategoryBits", **{k: B2() for k in CF})


def quality_bits():
    return TObj("cloudnetpy.products.product_tools:QualityBits", **{k: B2() for k in QF})


def categorize_bits():
    return TObj("cloudnetpy.products.product_tools:CategorizeBits", category_bits=category_bits(), quality_bits=quality_bits())


def dataset(**variables):
    return TObj("contracts.fakes:Dataset", variables=TDict(**variables))


def b(x):
    """S -> bool S"""
    return S("b", x.bool())


def first(c, table, default):
    """value of the first row whose condition holds"""
    out = S.of(default)
    for cond, v in reversed(table):
        out = c.ite(cond, v, out)
    return out


def scalar_var(t, units="1"):
    return TObj("contracts.fakes:ScalarVar", data=t, units=units)


def var(t, units="1"):
    return TObj("contracts.fakes:Var", data=t, units=units)


class TBits(T):
    """integer array whose low n bits are arbitrary booleans and no other bit is set"""

    def __init__(self, n, dims=TH, masked=False):
        self.n, self.dims, self.masked = n, dims, masked

    def sym(self, c, name):
        from pyvc.core import Arr, from_bits
        from pyvc.spec import sdim
        shape = tuple(sdim(c, d) for d in self.dims)
        fs = [c.ctx.fresh_arr(f"{name}_bit{k}", "b", shape) for k in range(self.n)]
        return Arr(shape, "i", lambda idx: S("i", from_bits([f.get(idx).v for f in fs])), self.masked, True)

    def conc(self, g, name):
        x = np.zeros([g.dim(d) for d in self.dims], int)
        for k in range(self.n):
            p = g.rng.choice([0.1, 0.5, 0.9])
            x |= (g.rng.random(x.shape) < p).astype(int) << k
        return np.ma.array(x) if self.masked else x


class Prog:
    """calls made on behalf of a contract, natively or through the interpreter"""

    def __init__(self, it, stack):
        self.it, self.stack = it, stack

    def __call__(self, f, *a, **k):
        return f(*a, **k) if self.it is None else self.it.call(f, a, k)

    def obj(self, cls, **attrs):
        return mkobj(cls, attrs) if self.it is None else Obj(cls, dict(attrs))

    def attr(self, o, name):
        return getattr(o, name) if self.it is None else o.attrs[name]

    def set(self, o, name, v):
        if self.it is None:
            setattr(o, name, v)
        else:
            o.attrs[name] = v

    def patch(self, where, fn, value):
        """replace the callable `fn`, found natively at `where`, by `value(*a, **k)`"""
        from unittest import mock
        if self.it is None:
            self.stack.enter_context(mock.patch(where, value))
        else:
            self.it.overrides = {**self.it.overrides, fn: lambda _it, *a, **k: value(*a, **k)}

    def standin(self, where, cls):
        """instances of cls pass isinstance tests against the class at `where` (cls._standin_for in the interpreter)"""
        from unittest import mock
        if self.it is None:
            self.stack.enter_context(mock.patch(where, cls))

    def nc(self, dataset):
        import netCDF4
        self.patch("netCDF4.Dataset", netCDF4.Dataset, lambda *a, **k: dataset)


def prog(fn):
    import contextlib

    def call(it, f, args):
        with contextlib.ExitStack() as st:
            return fn(Prog(it, st), f, NS(args))
    return call


EPOCH0 = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


class TEpoch(T):
    """a UTC datetime at midnight"""

    def sym(self, c, name):
        from .fakes import Instant
        return Obj(Instant, {"s": S("f", z3.ToReal(c.ctx.fresh(name, "i").v) * 86400)})

    def conc(self, g, name):
        return g.rng.choice([EPOCH0, datetime.datetime(2001, 1, 1, tzinfo=datetime.timezone.utc), datetime.datetime(2020, 2, 28, tzinfo=datetime.timezone.utc)])


class TDay(T):
    """a date at or a few days after an epoch"""

    def sym(self, c, name):
        from .fakes import Day
        return Obj(Day, {"n": c.ctx.fresh(name, "i")})

    def conc(self, g, name):
        return TEpoch().conc(g, name).date() + datetime.timedelta(days=int(g.rng.integers(0, 3)))


def seconds(e):
    """seconds of a datetime since 1970"""
    return S.of((e - EPOCH0).total_seconds()) if isinstance(e, datetime.datetime) else S.of(e.s)


def daynum(d):
    return S.of((d - EPOCH0.date()).days) if isinstance(d, datetime.date) else S.of(d.n)


def spans():
    """symbolic runs: timedelta(seconds=x) is x seconds"""
    from .fakes import Span

    def handler(it, *a, **k):
        v = k.get("seconds")
        if a or list(k) != ["seconds"] or not isinstance(v, S) or v.conc():
            return datetime.timedelta(*[nat(x) for x in a], **{n: nat(x) for n, x in k.items()})
        return Obj(Span, {"s": v})
    return {datetime.timedelta: handler}
