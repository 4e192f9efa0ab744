"""Contract language.

A ``Contract`` names a real function (``module:qualname``), describes its inputs
with type descriptors (preconditions, machine-checked to be satisfiable), and gives
postconditions written once over ``S``/``Arr`` values; the same text is evaluated
symbolically (verification conditions) and concretely (replay, bounded search,
engine cross-check)."""

from __future__ import annotations

import importlib
import inspect
import math
import types

import numpy as np
import z3
from numpy import ma

from . import core
from .core import (
    Arr, S, Unsupported, b_and, b_ite, bits_of, b_not, b_or, dnorm, is_z, s_arith, s_cmp, s_fun,
    s_ite, s_max, s_min, to_bool, to_int, to_real, ufun,
)
from .ctx import Ctx, quant, sum_term
from .interp import Obj, SymList


# --------------------------------------------------------------------- context
class C:
    """handed to every specification function."""

    def __init__(self, ctx: Ctx | None, dims, goal=True):
        self.ctx = ctx
        self.symbolic = ctx is not None and ctx.symbolic
        self.d = dims          # name -> int / z3 Int
        self.goal = goal
        self.post = None
        self.skolems = []

    def n(self, name):
        return S.of(self.d[name])

    # logic ---------------------------------------------------------------
    @staticmethod
    def _b(x):
        if callable(x):
            x = x()
        if isinstance(x, S):
            return x.bool()
        if isinstance(x, (list, tuple)):
            return b_and(*[C._b(i) for i in x])
        return x if is_z(x) else bool(x)

    def and_(self, *xs):
        out = []
        for x in xs:
            x = self._b(x)
            if x is False:
                return S("b", False)
            out.append(x)
        return S("b", b_and(*out))

    def or_(self, *xs):
        out = []
        for x in xs:
            x = self._b(x)
            if x is True:
                return S("b", True)
            out.append(x)
        return S("b", b_or(*out))

    def not_(self, x):
        return S("b", b_not(self._b(x)))

    def implies(self, p, q):
        p = self._b(p)
        if p is False:
            return S("b", True)
        if callable(q):
            q = q()
        return S("b", b_or(b_not(p), self._b(q)))

    def iff(self, p, q):
        p, q = self._b(p), self._b(q)
        if not is_z(p) and not is_z(q):
            return S("b", p == q)
        return S("b", to_bool(p) == to_bool(q))

    def ite(self, c, a, b):
        return s_ite(self._b(c), S.of(a), S.of(b))

    def forall(self, dims, f):
        return S("b", self._q("A", dims, f))

    def exists(self, dims, f):
        return S("b", self._q("E", dims, f))

    def _dims(self, dims):
        if not isinstance(dims, (list, tuple)):
            dims = [dims]
        out = []
        for x in dims:
            if isinstance(x, str):
                x = self.d[x]
            if isinstance(x, S):
                x = x.v
            out.append(dnorm(x))
        return out

    def _q(self, kind, dims, f):
        dims = self._dims(dims)
        if self.symbolic and self.goal and kind == "A":
            idx, conds = [], []
            for x in dims:
                i = z3.Int(self.ctx.name("ix"))
                self.skolems.append(i)
                conds.append(z3.And(i >= 0, i < to_int(x)))
                idx.append(S("i", i))
            rng = z3.And(*conds) if conds else z3.BoolVal(True)
            # the goal holds for arbitrary in-range indices
            t = self._b(f(*idx))
            return b_or(z3.Not(rng), t)

        def go(k, acc):
            if k == len(dims):
                return self._b(f(*acc))
            old = self.goal
            self.goal = False
            try:
                return quant(kind, dims[k], lambda i: go(k + 1, [*acc, S.of(i)]))
            finally:
                self.goal = old
        return go(0, [])

    def lemma(self, name, dims, f):
        """obligations that prove f for all indices by induction on the last one; afterwards it is known
        (use with `yield from`)"""
        *rest, n = dims
        if not (self.symbolic and self.goal):
            yield name, self.forall(dims, f)
            return

        def hyp(*i):
            self.goal = False
            try:
                return self._b(f(*i))
            finally:
                self.goal = True
        yield name + " (first)", self.forall(tuple(rest), lambda *i: f(*i, S.of(0)))
        yield name + " (next)", self.forall((*rest, n), lambda *i: self.implies(
            b_and(to_bool((i[-1] + 1 < S.of(self._dims(n)[0])).v), hyp(*i)), lambda: f(*i[:-1], i[-1] + 1)))
        self.goal = False
        try:
            t = self.forall(dims, f)
        finally:
            self.goal = True
        self.ctx.assume(t)

    def have(self, name, dims, f):
        """an obligation that f holds for all indices; afterwards it is known (use with `yield from`)"""
        yield name, self.forall(dims, f)
        if self.symbolic and self.goal:
            self.goal = False
            try:
                t = self.forall(dims, f)
            finally:
                self.goal = True
            self.ctx.assume(t)

    # values --------------------------------------------------------------
    def eq(self, x, y, rel=1e-9, abs_=1e-9):
        x, y = S.of(x), S.of(y)
        if x.conc() and y.conc():
            if x.nan or y.nan:
                return S("b", bool(x.nan) and bool(y.nan))
            if x.k == "f" or y.k == "f":
                if x.v == y.v:
                    return S("b", True)
                return S("b", math.isclose(float(x.v), float(y.v), rel_tol=rel, abs_tol=abs_))
            return S("b", int(x.v) == int(y.v))
        return S("b", b_and(b_or(b_and(x.nan, y.nan), b_and(b_not(x.nan), b_not(y.nan), s_cmp("==", S(x.k, x.v), S(y.k, y.v)).v))))

    def close(self, x, y, rel=1e-9):
        """equal up to a relative error"""
        x, y = S.of(x), S.of(y)
        if x.conc() and y.conc():
            return self.eq(x, y, rel, 1e-12)
        d, t = (x - y), abs(y) * rel
        return self.and_(self.not_(S("b", x.nan)), self.not_(S("b", y.nan)), d <= t, -d <= t)

    def same(self, x, y, rel=1e-9, abs_=1e-9):
        """equal mask state; and equal values where not masked"""
        x, y = S.of(x), S.of(y)
        return self.and_(self.iff(x.m, y.m), self.or_(S("b", x.m), self.eq(x, y, rel, abs_)))

    def exact(self, x, y):
        """equal value and mask, data under the mask included"""
        x, y = S.of(x), S.of(y)
        return self.and_(self.iff(x.m, y.m), self.eq(x, y))

    def masked(self, x):
        return S("b", S.of(x).m)

    def nan(self, x):
        return S("b", S.of(x).nan)

    def data(self, x):
        x = S.of(x)
        return S(x.k, x.v, x.nan)

    def min(self, a, b):
        return s_min(S.of(a), S.of(b))

    def max(self, a, b):
        return s_max(S.of(a), S.of(b))

    def log10(self, x):
        return s_fun("log10", x)

    def log(self, x):
        return s_fun("log", x)

    def exp(self, x):
        return s_fun("exp", x)

    def linspace(self, start, stop, n):
        """n evenly spaced values from start to stop"""
        from .npfuncs import H
        import numpy as np
        return H[np.linspace](self.ctx, start, stop, n)

    def sqrt(self, x):
        return s_fun("sqrt", x)

    def pow10(self, x):
        return s_fun("pow10", x)

    def arctan2(self, y, x):
        return core.s_arctan2(y, x)

    def cos(self, x):
        return s_fun("cos", x)

    def sin(self, x):
        return s_fun("sin", x)

    def bit(self, x, n):
        """bit n of an integer (n concrete or symbolic small)"""
        x = S.of(x)
        n = S.of(n)
        if not is_z(x.v) and not is_z(n.v):
            return S("b", bool(int(x.v) >> int(n.v) & 1))
        if is_z(n.v):
            raise Unsupported("spec bit with symbolic n")
        bs = bits_of(x.v)
        if bs is not None:
            return S("b", bs[int(n.v)] if int(n.v) < len(bs) else False)
        return S("b", (to_int(x.v) / (1 << int(n.v))) % 2 == 1)

    def sum(self, n, f):
        """sum of f(k), 0<=k<n"""
        n = self._dims(n)[0]
        return sum_term(n, lambda k: S.of(f(S.of(k))).cast("f"))

    def len(self, x):
        if isinstance(x, SymList):
            x = x.arr
        if isinstance(x, Arr):
            return S.of(x.shape[0])
        return S("i", len(x))

    def shape_is(self, x, *dims):
        if isinstance(x, SymList):
            x = x.arr
        if not isinstance(x, Arr) or x.ndim != len(dims):
            return S("b", False)
        return self.and_(*[s_cmp("==", S.of(p), S.of(q)) for p, q in zip(x.shape, self._dims(dims))])

    def like(self, x, y):
        return self.shape_is(x, *y.shape) if isinstance(y, Arr) else S("b", not isinstance(x, Arr))

    def all_same(self, x, y, rel=1e-9, abs_=1e-9):
        """two arrays (or scalars) agree: shape, mask, unmasked values"""
        if isinstance(x, SymList):
            x = x.arr
        if isinstance(y, SymList):
            y = y.arr
        if isinstance(x, Arr) != isinstance(y, Arr):
            return S("b", False)
        if not isinstance(x, Arr):
            return self.same(x, y, rel, abs_)
        sh = self.shape_is(x, *y.shape)
        if sh.v is False:
            return sh
        return self.and_(sh, self.forall(y.shape, lambda *i: self.same(x[i], y[i], rel, abs_)))

    def all_exact(self, x, y):
        if isinstance(x, Arr) != isinstance(y, Arr):
            return S("b", False)
        if not isinstance(x, Arr):
            return self.exact(x, y)
        sh = self.shape_is(x, *y.shape)
        if sh.v is False:
            return sh
        return self.and_(sh, self.forall(y.shape, lambda *i: self.exact(x[i], y[i])))

    def arr(self, dims, kind, f, masked=False):
        """array defined elementwise (spec-side)"""
        return Arr(self._dims(dims), kind, lambda idx: S.of(f(*[S.of(i) for i in idx])), masked, not masked)

    def largest(self, dims, use, val):
        """array over dims[1:]: the largest val(i, ...) with use(i, ...), missing if there is none"""
        from .npfuncs import H
        def f(*i):
            v = S.of(val(*i)).cast("f")
            return S("f", v.v, v.nan, b_not(S.of(use(*i)).bool()))
        return H[ma.max](self.ctx, self.arr(dims, "f", f, masked=True), axis=0)


# --------------------------------------------------------------------- descriptors
class Gen:
    """concrete generation context."""

    def __init__(self, rng, dims):
        self.rng, self.dims = rng, dims

    def dim(self, d):
        if isinstance(d, str):
            if "+" in d:
                p, q = d.split("+")
                return self.dim(p.strip()) + int(q)
            return self.dims[d]
        return int(d)


def sdim(c, d):
    if isinstance(d, str):
        if "+" in d:
            p, q = d.split("+")
            return dnorm(to_int(c.d[p.strip()]) + int(q))
        return c.d[d]
    return d


class T:
    variants = None

    def sym(self, c: C, name):
        raise NotImplementedError

    def conc(self, g: Gen, name):
        raise NotImplementedError

    def alts(self):
        return [self]


class TConst(T):
    def __init__(self, v):
        self.v = v

    def sym(self, c, name):
        v = self.v
        if isinstance(v, np.ndarray) and v.dtype.kind in "biuf":
            return Arr.from_numpy(v)
        return v

    def conc(self, g, name):
        v = self.v
        return v.copy() if isinstance(v, np.ndarray) else v


class TNum(T):
    def __init__(self, kind, lo=None, hi=None, vals=None, only=False, nan=False):
        self.kind, self.lo, self.hi, self.vals, self.only, self.nan = kind, lo, hi, vals, only, nan

    def sym(self, c, name):
        s = c.ctx.fresh(name, self.kind)
        conv = to_int if self.kind == "i" else to_real
        if self.lo is not None:
            c.ctx.assume(s.v >= conv(self.lo))
        if self.hi is not None:
            c.ctx.assume(s.v <= conv(self.hi))
        if self.only:
            c.ctx.assume(z3.Or(*[s.v == conv(x) for x in self.vals]))
        if self.nan:
            return S(s.k, s.v, c.ctx.fresh(name + "_nan", "b").v)
        return s

    def conc(self, g, name):
        if self.nan and g.rng.random() < 0.2:
            return math.nan
        return draw(g, self)


def TReal(lo=None, hi=None, vals=None, **kw):
    return TNum("f", lo, hi, vals, **kw)


def TInt(lo=None, hi=None, vals=None, **kw):
    return TNum("i", lo, hi, vals, **kw)


def draw(g, t, shape=None):
    n = 1 if shape is None else int(np.prod(shape))
    if t.kind == "b":
        p = g.rng.choice([0.2, 0.5, 0.8])
        x = g.rng.random(n) < p
        return bool(x[0]) if shape is None else x.reshape(shape)
    lo = t.lo if t.lo is not None else (-10 if t.kind == "i" else -100.0)
    hi = t.hi if t.hi is not None else (10 if t.kind == "i" else 100.0)
    if t.hi is None and lo >= hi:
        hi = lo + 10
    if t.kind == "i":
        x = g.rng.integers(lo, hi + 1, n)
    else:
        x = g.rng.uniform(lo, hi, n)
        if g.rng.random() < 0.4:
            x = np.round(x, g.rng.integers(0, 2)).clip(lo, hi)
    if t.vals is not None:
        p = 1.0 if t.only else g.rng.choice([0.3, 0.8])
        pick = g.rng.random(n) < p
        v = g.rng.choice(np.array(t.vals, dtype=float if t.kind == "f" else int), n)
        x = np.where(pick, v, x)
    if shape is None:
        return int(x[0]) if t.kind == "i" else float(x[0])
    return x.reshape(shape)


class TBool(T):
    kind = "b"

    def sym(self, c, name):
        return c.ctx.fresh(name, "b")

    def conc(self, g, name):
        return bool(g.rng.random() < 0.5)


class TArr(T):
    """n-d array.  masked: False / True.  order: None,'<','<=' (1-d)"""

    def __init__(self, kind, dims, masked=False, nan=False, lo=None, hi=None, vals=None,
                 only=False, order=None, dtype=None, nomask=False, hardmask=False, runs=False):
        self.kind = kind
        self.dims = dims if isinstance(dims, (list, tuple)) else (dims,)
        self.masked, self.nan, self.lo, self.hi, self.vals = masked, nan, lo, hi, vals
        self.only, self.order, self.nomask = only, order, nomask
        self.dtype = np.dtype(dtype or {"b": bool, "i": np.int64, "f": np.float64}[kind])
        self.runs = runs

    def sym(self, c, name):
        shape = tuple(sdim(c, d) for d in self.dims)
        a = c.ctx.fresh_arr(name, self.kind, shape, masked=self.masked and not self.nomask, nan=self.nan, dtype=self.dtype)
        if self.masked and self.nomask:
            a.masked, a._nomask = True, True
        conv = to_int if self.kind == "i" else to_real
        goal, c.goal = c.goal, False

        def elem(*i):
            s = a.get(tuple(x.v for x in i))
            t = []
            if self.lo is not None:
                t.append(s.v >= conv(self.lo))
            if self.hi is not None:
                t.append(s.v <= conv(self.hi))
            if self.only:
                t.append(z3.Or(*[s.v == conv(x) for x in self.vals]))
            return S("b", b_and(*t))
        if (self.lo is not None or self.hi is not None or self.only) and self.kind != "b":
            c.ctx.assume(c._b(c.forall(shape, elem)))
        if self.order:
            def lt(i, j):
                x, y = a[i], a[j]
                r = x < y if self.order == "<" else x <= y
                return c.implies(i < j, r)
            c.ctx.assume(c._b(c.forall((shape[0], shape[0]), lt)))
        c.goal = goal
        return a

    def conc(self, g, name):
        shape = tuple(g.dim(d) for d in self.dims)
        x = draw(g, self, shape).astype(self.dtype)
        if self.runs and x.size and g.rng.random() < 0.7:
            # piecewise constant along the last axis
            for row in x.reshape(-1, shape[-1]) if shape[-1] else []:
                k = 0
                while k < len(row):
                    m = int(g.rng.integers(1, max(2, len(row))))
                    row[k:k + m] = row[k]
                    k += m
        if self.order and len(shape) == 1:
            if self.order == "<":
                x = np.unique(x)
                lo = self.lo if self.lo is not None else -100.0
                hi = self.hi if self.hi is not None else 100.0
                while len(x) < shape[0]:
                    extra = g.rng.uniform(lo, hi, shape[0]) if self.kind == "f" else g.rng.integers(lo, hi + 1, shape[0])
                    x = np.unique(np.concatenate([x, extra]).astype(self.dtype))
                    if len(x) > shape[0]:
                        x = np.sort(g.rng.choice(x, shape[0], replace=False))
            else:
                x = np.sort(x)
        if self.nan and self.kind == "f":
            p = g.rng.choice([0.0, 0.2, 0.6])
            x[g.rng.random(shape) < p] = np.nan
        if self.masked:
            if self.nomask:
                return ma.array(x)
            p = g.rng.choice([0.0, 0.15, 0.5, 1.0], p=[0.15, 0.45, 0.35, 0.05])
            m = g.rng.random(shape) < p
            if self.runs and m.ndim >= 1 and g.rng.random() < 0.5 and shape[-1]:
                m = np.repeat(m.reshape(-1)[::2], 2)[: m.size]
                m = np.resize(m, shape) if m.size else np.zeros(shape, bool)
            return ma.array(x, mask=m)
        return x


class TObj(T):
    """instance of a real class with the given attributes (not run through __init__)."""

    def __init__(self, cls, **attrs):
        self.clsname, self.attrs = cls, attrs

    @property
    def cls(self):
        return resolve(self.clsname) if isinstance(self.clsname, str) else self.clsname

    def sym(self, c, name):
        return Obj(self.cls, {k: _d(v).sym(c, f"{name}.{k}") for k, v in self.attrs.items()})

    def conc(self, g, name):
        return mkobj(self.cls, {k: _d(v).conc(g, f"{name}.{k}") for k, v in self.attrs.items()})

    def alts(self):
        return [TObj(self.clsname, **x) for x in _prod(self.attrs)]


class TDict(T):
    def __init__(self, **items):
        self.items = items

    def sym(self, c, name):
        return {k: _d(v).sym(c, f"{name}.{k}") for k, v in self.items.items()}

    def conc(self, g, name):
        return {k: _d(v).conc(g, f"{name}.{k}") for k, v in self.items.items()}

    def alts(self):
        return [TDict(**x) for x in _prod(self.items)]


class TList(T):
    typ = list

    def __init__(self, *items):
        self.items = items

    def sym(self, c, name):
        return self.typ(_d(v).sym(c, f"{name}.{k}") for k, v in enumerate(self.items))

    def conc(self, g, name):
        return self.typ(_d(v).conc(g, f"{name}.{k}") for k, v in enumerate(self.items))

    def alts(self):
        return [type(self)(*x.values()) for x in _prod(dict(enumerate(self.items)))]


class TTuple(TList):
    typ = tuple


class TOne(T):
    """one of several descriptors: verified for each."""

    def __init__(self, *ts):
        self.ts = ts

    def alts(self):
        return [a for t in self.ts for a in _d(t).alts()]


class TFun(T):
    """custom: sym(c)->value, conc(g)->value"""

    def __init__(self, sym, conc):
        self._s, self._c = sym, conc

    def sym(self, c, name):
        return self._s(c)

    def conc(self, g, name):
        return self._c(g)


def TMasked(kind, dims, **kw):
    """MaskedArray with full mask, MaskedArray without mask."""
    return TOne(TArr(kind, dims, masked=True, **kw), TArr(kind, dims, masked=True, nomask=True, **kw))


def TEither(kind, dims, **kw):
    """MaskedArray or plain ndarray."""
    return TOne(TArr(kind, dims, masked=True, **kw), TArr(kind, dims, **kw))


def _d(x):
    return x if isinstance(x, T) else TConst(x)


def _prod(d):
    out = [{}]
    for k, v in d.items():
        out = [{**o, k: a} for o in out for a in _d(v).alts()]
    return out


def mkobj(cls, attrs):
    import dataclasses
    if issubclass(cls, tuple) and hasattr(cls, "_fields"):
        return cls(**attrs)
    if "_native" in cls.__dict__:
        return cls._native(**attrs)
    o = cls.__new__(cls)
    for k, v in attrs.items():
        try:
            object.__setattr__(o, k, v)
        except AttributeError:
            o.__dict__[k] = v
    return o


def resolve(name):
    mod, q = name.split(":")
    o = importlib.import_module(mod)
    for p in q.split("."):
        if inspect.isclass(o) and p in o.__dict__:
            o = o.__dict__[p]
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            elif isinstance(o, property):
                o = o.fget
        else:
            o = getattr(o, p)
    w = getattr(o, "__wrapped__", None)
    if isinstance(w, types.FunctionType):
        o = w
    return o


class LoopSpec:
    """lists: {local name: element kind} of the lists the loop appends to"""

    def __init__(self, inv, nan=False, variant=None, lists=None):
        self.inv, self.nan, self.variant, self.lists = inv, nan, variant, lists or {}


class NS:
    """attribute access over a dict of arguments."""

    def __init__(self, d):
        self.__dict__.update(d)
        self._d = d

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        return self._d[k]


class ObjView:
    """spec-side view of a native object."""

    def __init__(self, o):
        self._o = o

    @property
    def cls(self):
        return type(self._o)

    def __getattr__(self, n):
        return lift(getattr(self._o, n))

    def __contains__(self, n):
        return hasattr(self._o, n)


def lift(x):
    """native value -> spec value."""
    if isinstance(x, (S, Arr, Obj, ObjView)):
        return x
    if x is ma.masked:
        return S.of(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return S.of(x)
        if x.dtype.kind in "biuf":
            return Arr.from_numpy(x)
        return x
    if isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating)) and not isinstance(x, type):
        import enum
        if isinstance(x, enum.Enum):
            return x
        return S.of(x)
    if isinstance(x, dict):
        return {k: lift(v) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ObjView(x)
    if isinstance(x, list):
        if x and all(isinstance(i, (bool, int, float, np.bool_, np.integer, np.floating)) for i in x):
            return Arr.from_numpy(np.array(x))
        return [lift(i) for i in x]
    if isinstance(x, tuple):
        return tuple(lift(i) for i in x)
    if x is None or isinstance(x, (str, bytes, type, types.FunctionType)):
        return x
    import datetime
    if isinstance(x, (datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo)):
        return x
    import enum
    if isinstance(x, enum.Enum):
        return x
    return ObjView(x)


def symlift(x):
    """interpreter value -> spec value."""
    if isinstance(x, SymList):
        return x.arr
    if isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating)):
        import enum
        return x if isinstance(x, enum.Enum) else S.of(x)
    if x is ma.masked:
        return S.of(x)
    if isinstance(x, np.ndarray):
        return lift(x)
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(symlift(i) for i in x)
    if isinstance(x, list):
        y = [symlift(i) for i in x]
        if y and all(isinstance(i, S) for i in y):
            from .npm import stack_list
            try:
                return stack_list(None, y)
            except Exception:  # noqa: BLE001
                return y
        return y
    if isinstance(x, dict):
        return {k: symlift(v) for k, v in x.items()}
    return x


def snap_sym(x, memo=None):
    """deep snapshot of interpreter values."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Arr):
        r = x.snapshot()
    elif isinstance(x, SymList):
        r = SymList(x.arr.snapshot())
    elif isinstance(x, Obj):
        r = Obj(x.cls, {})
        memo[id(x)] = r
        r.attrs.update({k: snap_sym(v, memo) for k, v in x.attrs.items()})
    elif isinstance(x, dict):
        r = {}
        memo[id(x)] = r
        r.update({k: snap_sym(v, memo) for k, v in x.items()})
    elif isinstance(x, list):
        r = [snap_sym(v, memo) for v in x]
    elif isinstance(x, tuple):
        r = tuple(snap_sym(v, memo) for v in x)
    else:
        r = x
    memo[id(x)] = r
    return r


class Contract:
    def __init__(self, target, args, ensures, *, dims=None, requires=None, raises=(), loops=None,
                 modifies=(), modular=False, model=None, overrides=None, self_call=None, name=None,
                 tries=None, dimsizes=None, covers=None, bounded_only=False, note=None, gen=None,
                 call=None, timeout=None, rel=1e-9, requires_at_call=None):
        self.target = target
        self.args = args            # dict param -> descriptor
        self.ensures = ensures      # f(c, a(old), r, p(post)) -> iterable of (name, bool S)
        self.dims = dims or {}      # name -> minimum (>=)
        self.requires = requires    # f(c, a) -> list of bool
        self.raises = list(raises)  # (ExcType, f(c,a)->cond)
        self.loops = loops or {}
        self.modifies = set(modifies)
        self.modular = modular
        self.model = model
        self.overrides = overrides or {}
        self.name = name or target.split(":")[1]
        self.tries = tries
        self.dimsizes = dimsizes or {}
        self.bounded_only = bounded_only
        self.note = note
        self.gen = gen              # f(rng) -> dict of native args (extra concrete generator)
        self.call = call            # f(interp_or_None, func, argsdict) custom invocation
        self.timeout = timeout
        self.rel = rel
        self.requires_at_call = requires_at_call

    def variants(self):
        return _prod(self.args)

    def func(self):
        return resolve(self.target)

    def spec(self, c, a, r, p):
        n = len(inspect.signature(self.ensures).parameters)
        out = self.ensures(*(c, a, r, p)[:n])
        return out if out is not None else []

    # --- modular use at a call site: functional contract
    def apply_at_call(self, it, args, kwargs):
        f = self.func()
        sig = inspect.signature(f)
        try:
            ba = sig.bind(*args, **kwargs)
        except TypeError as e:
            from .ctx import IRaise
            raise IRaise(e) from e
        ba.apply_defaults()
        a = {k: symlift(v) for k, v in ba.arguments.items()}
        d = {}
        for k, t in self.args.items():
            for t in _d(t).alts():
                v = a.get(k)
                if isinstance(t, TArr) and isinstance(v, Arr) and len(t.dims) == v.ndim:
                    d.update({n: s for n, s in zip(t.dims, v.shape) if isinstance(n, str) and "+" not in n})
        c = C(it.ctx, d, goal=True)
        it.ctx.contract_calls.add(self.name)
        ns = NS(snap_sym(a))
        if self.requires_at_call is not None:
            for nm, t in self.requires_at_call(c, ns):
                it.ctx.oblige(f"precondition of {self.name}: {nm}", c._b(t))
        if self.model is not None:
            return self.model(c, ns)
        for exc, cond in self.raises:
            c.goal = False
            if it.ctx.branch(to_bool(c._b(cond(c, ns)))):
                from .ctx import IRaise
                raise IRaise(exc())
        r = self.modular(c, ns)
        c.goal = False
        for _, t in self.spec(c, ns, r, ns):
            t = c._b(t)
            if it.ctx.loopvars and it.ctx.loop_pc is not None:
                # in a generic iteration: a fact about every iteration that gets here
                it.ctx.fact(b_or(b_not(b_and(*it.ctx.pc[it.ctx.loop_pc:])), t))
            else:
                it.ctx.assume(t)
        return r
