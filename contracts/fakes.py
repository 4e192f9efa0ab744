"""Stand-ins for files: an in-memory object with the interface of netCDF4.Dataset /
netCDF4.Variable that the code under contract uses (trusted)."""

import datetime
from contextlib import contextmanager
from unittest import mock

import netCDF4


class Var:
    """a netCDF variable: data, units"""

    def __init__(self, data, units="1"):
        self.data = data
        self.units = units

    def __getitem__(self, ind):
        return self.data[ind]


class Dataset:
    """a netCDF dataset"""

    def __init__(self, variables):
        self.variables = variables

    def close(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return None


class Holder:
    """any object with attributes"""


def with_nc(argname="nc"):
    """invocation that makes netCDF4.Dataset(...) return args[argname]"""

    def call(it, f, args):
        args = dict(args)
        nc = args.pop(argname)
        if it is not None:
            it.overrides = {**it.overrides, netCDF4.Dataset: lambda _it, *a, **k: nc}
            return it.call(f, (), args)
        with mock.patch("netCDF4.Dataset", lambda *a, **k: nc):
            return f(**args)
    return call


def positional(it, f, args):
    if it is not None:
        return it.call(f, tuple(args.values()), {})
    return f(*args.values())


class ScalarVar:
    """a 0-dimensional netCDF variable"""

    def __init__(self, data, units="1"):
        self.data = data
        self.units = units

    def __getitem__(self, ind):
        return self.data


class GeoDataset:
    """a netCDF dataset (stand-in for netCDF4.Dataset in isinstance tests)"""
    _standin_for = (netCDF4.Dataset,)

    def __init__(self, variables):
        self.variables = variables

    def __getitem__(self, key):
        return self.variables[key]


class Day:
    """a calendar date as a day number (stand-in for datetime.date with an unknown value)"""

    def __init__(self, n):
        self.n = n

    @staticmethod
    def _native(n):
        return datetime.date(1970, 1, 1) + datetime.timedelta(days=n)

    def __eq__(self, other):
        return self.n == other.n


class Span:
    """a length of time in seconds (stand-in for datetime.timedelta with an unknown value)"""

    def __init__(self, s):
        self.s = s

    def __radd__(self, other):
        return Instant((other - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds() + self.s)


class Instant:
    """a UTC time in seconds (stand-in for datetime.datetime with an unknown value)"""

    def __init__(self, s):
        self.s = s

    @staticmethod
    def _native(s):
        return datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=s)

    def __add__(self, other):
        return Instant(self.s + other.s)

    def date(self):
        return Day(self.s // 86400)
