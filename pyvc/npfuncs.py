"""Handlers for numpy / numpy.ma / builtins on symbolic values."""

from __future__ import annotations

import logging
import math
import warnings

import numpy as np
import z3
from numpy import ma

from . import core, npm
from .core import (
    Arr, Fn, S, Unsupported, b_and, b_ite, b_not, b_or, dim_eq, dnorm, is_one, is_z, kmax,
    s_abs, s_arith, s_bit, s_cmp, s_fun, s_ite, s_max, s_min, s_pow, to_bool, to_int, to_real, ufun,
)
from . import ctx as C
from .ctx import ConcSel, IRaise, quant, quant_nd, sum_term
from .npm import (
    _strip, as_arr, b_to_int, binop, broadcast_shapes, bfn, cmpop, coord_arr, count_true,
    ew, extremum, getitem, is_masked_const, reduce_bool, reduce_mean, reduce_sum, setitem,
    uninterp, unop, unwrap,
)

H = {}


def reg(*fs):
    def d(h):
        for f in fs:
            H[f] = h
        return h
    return d


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt in (float, "f4", "f8", "float", "float32", "float64"):
        return "f"
    if dt in (int, "i4", "i8", "int", "int32", "int64"):
        return "i"
    if dt in (bool, "bool", np.bool_):
        return "b"
    try:
        k = np.dtype(dt).kind
    except TypeError:
        raise Unsupported(f"dtype {dt}") from None
    if k == "u":
        k = "i"
    if k not in "bif":
        raise Unsupported(f"dtype {dt}")
    return k


def dt_of(dt, kind):
    if dt is None:
        return None
    return np.dtype(dt)


def shape_of(ctx, sh):
    if isinstance(sh, (int, S, np.integer)):
        sh = (sh,)
    if isinstance(sh, Arr):
        sh = tuple(sh.get((i,)) for i in range(sh.shape[0]))
    out = []
    for d in sh:
        if isinstance(d, S):
            d = d.v
        if is_z(d):
            if not ctx.branch(d >= 0):
                raise IRaise(ValueError("negative dimensions are not allowed"))
        elif d < 0:
            raise IRaise(ValueError("negative dimensions are not allowed"))
        out.append(d)
    return tuple(out)


def const_arr(shape, kind, v, dtype=None, masked=False):
    s = S.of(v).cast(kind)
    return Arr(shape, kind, lambda idx: s, masked, True, dtype)


@reg(np.zeros)
def _zeros(ctx, shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    return const_arr(shape_of(ctx, shape), k, 0, dt_of(dtype, k))


@reg(ma.zeros)
def _mazeros(ctx, shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    return const_arr(shape_of(ctx, shape), k, 0, dt_of(dtype, k), True)


@reg(np.ones)
def _ones(ctx, shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    return const_arr(shape_of(ctx, shape), k, 1, dt_of(dtype, k))


@reg(ma.ones)
def _maones(ctx, shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    return const_arr(shape_of(ctx, shape), k, 1, dt_of(dtype, k), True)


@reg(np.empty)
def _empty(ctx, shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    sh = shape_of(ctx, shape)
    if not ctx.symbolic:
        return const_arr(sh, k, 0, dt_of(dtype, k))
    return ctx.fresh_arr("empty", k, sh, dtype=dt_of(dtype, k))


@reg(np.full)
def _full(ctx, shape, fill_value, dtype=None, **kw):
    v = fill_value
    sh = shape_of(ctx, shape)
    if isinstance(v, Arr):
        k = kind_of_dtype(dtype) or v.kind
        f = bfn(v, sh)
        return Arr(sh, k, lambda idx: _strip(f(idx)).cast(k), dtype=dt_of(dtype, k))
    s = S.of(v)
    k = kind_of_dtype(dtype) or s.k
    return const_arr(sh, k, s, dt_of(dtype, k))


@reg(ma.masked_all)
def _masked_all(ctx, shape, dtype=float):
    k = kind_of_dtype(dtype)
    sh = shape_of(ctx, shape)
    s = S(k, {"b": False, "i": 0, "f": 0.0}[k], False, True)
    return Arr(sh, k, lambda idx: s, True, False, dt_of(dtype, k))


@reg(ma.masked_all_like)
def _masked_all_like(ctx, a):
    a = as_arr(ctx, a)
    s = S(a.kind, {"b": False, "i": 0, "f": 0.0}[a.kind], False, True)
    return Arr(a.shape, a.kind, lambda idx: s, True, False, a.dtype)


def _like(v):
    def h(ctx, a, dtype=None, **kw):
        if isinstance(a, S):
            a = as_arr(ctx, a)
        a = as_arr(ctx, a)
        k = kind_of_dtype(dtype) or a.kind
        f = a.fn()
        if a.masked:
            fn = lambda idx: S(k, S.of(v).cast(k).v, False, f(idx).m)
            return unwrap(Arr(a.shape, k, fn, True, a.nomask, dt_of(dtype, k) or a.dtype))
        return Arr(a.shape, k, lambda idx: S.of(v).cast(k), dtype=dt_of(dtype, k) or a.dtype, sel=a.sel)
    return h


H[np.zeros_like] = H[ma.zeros_like] = _like(0)
H[np.ones_like] = H[ma.ones_like] = _like(1)


@reg(np.empty_like)
def _empty_like(ctx, a, dtype=None, **kw):
    a = as_arr(ctx, a)
    r = _like(0)(ctx, a, dtype)
    if not ctx.symbolic:
        return r
    return ctx.fresh_arr("empty", r.kind, r.shape, masked=False, dtype=r.dtype)


@reg(np.full_like)
def _full_like(ctx, a, fill_value, dtype=None, **kw):
    a = as_arr(ctx, a)
    r = _like(0)(ctx, a, dtype)
    f = r.fn()
    v = S.of(fill_value).cast(r.kind)
    return Arr(r.shape, r.kind, lambda idx: S(r.kind, v.v, v.nan, f(idx).m), r.masked, r.nomask, r.dtype)


@reg(np.array, np.asarray, np.asanyarray, np.ascontiguousarray)
def _array(ctx, a, dtype=None, copy=None, **kw):
    if isinstance(a, S):
        r = as_arr(ctx, S(a.k, a.v, a.nan))
        if dtype is not None:
            return astype(ctx, r, dtype)
        return r
    if isinstance(a, (list, tuple)) and not all(isinstance(x, (S, Arr, int, float, bool, np.generic, np.ndarray)) for x in a):
        if all(isinstance(x, (list, tuple)) for x in a):
            a = [as_arr(ctx, list(x)) for x in a]
        else:
            raise Unsupported("np.array of objects")
    a = as_arr(ctx, a)
    f = a.fn()
    r = Arr(a.shape, a.kind, lambda idx: _strip(f(idx)), dtype=a.dtype, sel=a.sel)
    if a.attrs.get("coord"):
        r.attrs["coord"] = a.attrs["coord"]
    return astype(ctx, r, dtype) if dtype is not None else r


_asarray_alias = H[np.asarray]


@reg(np.asarray)
def _asarray(ctx, a, dtype=None, **kw):
    if isinstance(a, Arr) and not a.masked and (dtype is None or kind_of_dtype(dtype) == a.kind):
        return a
    return _array(ctx, a, dtype)


@reg(np.copy)
def _npcopy(ctx, a, **kw):
    return _array(ctx, a)


class ObjVec(list):
    """1-d object array of arrays/scalars"""


def _objvec(data):
    """elements of ma.array(data, dtype=object), when they do not all have the same shape or are all scalars"""
    items = [x if isinstance(x, Arr) else S.of(x) for x in data]
    shapes = {x.ndim if isinstance(x, Arr) else 0 for x in items}
    if not items or (len(shapes) == 1 and shapes != {0}):
        raise Unsupported("object array of equally shaped arrays")
    if shapes == {0} and any(S.of(x).m is not False for x in items):
        raise Unsupported("object array of masked scalars")
    return ObjVec(S.of(x) if isinstance(x, Arr) and x.ndim == 0 else x for x in items)


def _objmul(ctx, a, b):
    w = [S.of(x) for x in (b if isinstance(b, (list, tuple)) else [b] * len(a))]
    if len(w) != len(a):
        raise Unsupported("object array broadcast")
    return ObjVec(binop(ctx, "*", x, y) for x, y in zip(a, w))


@reg(ma.array, ma.MaskedArray, ma.masked_array)
def _maarray(ctx, data, dtype=None, copy=False, mask=ma.nomask, keep_mask=True, **kw):
    if dtype is object:
        if mask is not ma.nomask or not isinstance(data, (list, tuple)):
            raise Unsupported("object array")
        return _objvec(data)
    a = as_arr(ctx, data)
    if dtype is not None:
        a = astype(ctx, a, dtype)
    f = a.fn()
    base_masked = a.masked and not a.nomask
    if isinstance(mask, (Arr, np.ndarray, list, S)) or isinstance(mask, (bool, np.bool_)) and mask is not ma.nomask and not isinstance(mask, np.bool_):
        if isinstance(mask, bool):
            fm = lambda idx: mask
        else:
            mk = as_arr(ctx, mask)
            if mk.ndim == 0:
                mv = mk.get(()).bool()
                fm = lambda idx: mv
            else:
                sh = broadcast_shapes(ctx, [mk.shape, a.shape])
                fmm = bfn(mk, sh)
                fm = lambda idx: fmm(idx).bool()
        if not keep_mask:
            fn = lambda idx: S(f(idx).k, f(idx).v, f(idx).nan, fm(idx))
        else:
            fn = lambda idx: S(f(idx).k, f(idx).v, f(idx).nan, b_or(f(idx).m, fm(idx)))
        return Arr(a.shape, a.kind, fn, True, False, a.dtype)
    return Arr(a.shape, a.kind, f, True, not base_masked, a.dtype, sel=a.sel)


@reg(ma.asarray, ma.asanyarray)
def _maasarray(ctx, a, dtype=None, **kw):
    if isinstance(a, Arr) and a.masked:
        return a
    return _maarray(ctx, a, dtype)


@reg(ma.copy)
def _macopy(ctx, a, *args, **kw):
    return _maasarray(ctx, as_arr(ctx, a)).copy()


def astype(ctx, a, dtype):
    k = kind_of_dtype(dtype)
    if isinstance(a, S):
        return a.cast(k)
    f = a.fn()
    if k == a.kind:
        r = Arr(a.shape, k, f, a.masked, a.nomask, np.dtype(dtype), sel=a.sel)
        if a.attrs.get("coord"):
            r.attrs["coord"] = a.attrs["coord"]
        return r
    def fn(idx):
        return f(idx).cast(k)
    return Arr(a.shape, k, fn, a.masked, a.nomask, np.dtype(dtype), sel=a.sel)


# -- elementwise
def u1(name):
    def h(ctx, a, **kw):
        if kw:
            raise Unsupported(f"{name} kwargs {sorted(kw)}")
        return ew(ctx, lambda x: s_fun(name, x), a, kind="f")
    return h


def u1ma(name, dom):
    """numpy.ma unary with domain: masked outside domain / non-finite."""
    def h(ctx, a, **kw):
        def f(x):
            r = s_fun(name, x)
            bad = r.nan
            if not is_z(r.v) and isinstance(r.v, float) and math.isinf(r.v):
                bad = True
            return S("f", s_ite(b_or(bad, x.m), S("f", x.cast("f").v), S("f", r.v)).v if (is_z(bad) or is_z(x.m) or bad or x.m) else r.v, False, b_or(x.m, bad))
        a = as_arr(ctx, a)
        return ew(ctx, f, a, kind="f", masked=True)
    return h


def u1np(name, dom):
    """plain ufunc: applied to a masked array numpy masks the domain violations."""
    plain = u1(name)
    def h(ctx, a, out=None, where=None, **kw):
        if out is not None or where is not None or kw:
            raise Unsupported(f"{name} out/where")
        if isinstance(a, Arr) and a.masked:
            def f(x):
                r = s_fun(name, x)
                if not dom:
                    return S("f", r.v, r.nan, x.m)
                bad = b_and(b_not(x.nan), r.nan)
                if not is_z(r.v) and isinstance(r.v, float) and math.isinf(r.v):
                    bad = True
                return S("f", r.v if not (bad is True) else 1.0, b_and(r.nan, b_not(bad)), b_or(x.m, bad))
            return ew(ctx, f, a, kind="f")
        return ew(ctx, lambda x: s_fun(name, x), a, kind="f")
    return h


for _n in ("log10", "log", "sqrt"):
    H[getattr(np, _n)] = u1np(_n, True)
    H[getattr(ma, _n)] = u1ma(_n, True)
for _n in ("exp", "cos", "sin", "tan"):
    H[getattr(np, _n)] = u1np(_n, False)
    H[getattr(ma, _n)] = u1np(_n, False)
try:
    import scipy.special as _sps
    H[_sps.gamma] = u1np("gamma", False)
except ImportError:
    pass
for _n in ("log10", "log", "sqrt", "exp", "cos", "sin", "tan"):
    def _mk(n):
        def h(ctx, x):
            x = S.of(x)
            r = s_fun(n, x)
            if n in ("log10", "log", "sqrt"):
                if ctx.branch(r.nan):
                    raise IRaise(ValueError("math domain error"))
            return S("f", r.v, x.nan)
        return h
    H[getattr(math, _n)] = _mk(_n)


@reg(math.isnan)
def _misnan(ctx, x):
    return S("b", S.of(x).nan)


@reg(math.isclose)
def _misclose(ctx, a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = S.of(a), S.of(b)
    tol = s_max(s_arith("*", rel_tol, s_max(s_abs(a), s_abs(b))), S.of(abs_tol))
    return s_cmp("<=", s_abs(a - b), tol)


@reg(np.isclose, ma.isclose if hasattr(ma, "isclose") else np.isclose)
def _isclose(ctx, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        return s_cmp("<=", s_abs(x - y), s_arith("+", atol, s_arith("*", rtol, s_abs(y))))
    return ew(ctx, f, a, b, kind="b")


@reg(np.deg2rad, np.radians)
def _deg2rad(ctx, a):
    return ew(ctx, lambda x: s_arith("*", x.cast("f"), math.pi / 180), a, kind="f")


@reg(math.radians)
def _mrad(ctx, a):
    return S.of(a).cast("f") * (math.pi / 180)


@reg(np.abs, np.absolute, ma.abs, ma.absolute, abs, np.fabs)
def _abs(ctx, a):
    return ew(ctx, s_abs, a)


@reg(np.floor)
def _floor(ctx, a, **kw):
    def f(x):
        if x.k != "f":
            return x.cast("f")
        if not is_z(x.v):
            return S("f", float(math.floor(x.v)), x.nan, x.m)
        return S("f", z3.ToReal(z3.ToInt(x.v)), x.nan, x.m)
    return ew(ctx, f, a, kind="f")


def s_floor_int(x):
    x = S.of(x)
    if x.k != "f":
        return x.cast("i")
    if not is_z(x.v):
        return S("i", math.floor(x.v))
    return S("i", z3.ToInt(x.v))


def s_ceil_int(x):
    x = S.of(x)
    if x.k != "f":
        return x.cast("i")
    if not is_z(x.v):
        return S("i", math.ceil(x.v))
    return S("i", -z3.ToInt(-x.v))


@reg(np.ceil)
def _ceil(ctx, a, **kw):
    return ew(ctx, lambda x: S("f", s_ceil_int(S(x.k, x.v)).cast("f").v, x.nan, x.m), a, kind="f")


@reg(math.floor)
def _mfloor(ctx, a):
    return s_floor_int(a)


@reg(math.ceil)
def _mceil(ctx, a):
    return s_ceil_int(a)


def s_round(x):
    """round half to even."""
    x = S.of(x)
    if x.k != "f":
        return x.cast("i")
    if not is_z(x.v):
        return S("i", round(x.v))
    v = x.v
    fl = z3.ToInt(v)
    frac = v - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    r = z3.If(frac < half, fl, z3.If(frac > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return S("i", r)


@reg(np.round, np.around, np.rint, ma.round)
def _round(ctx, a, decimals=0, **kw):
    if decimals != 0:
        raise Unsupported("round decimals")
    return ew(ctx, lambda x: S("f", s_round(S(x.k, x.v)).cast("f").v, x.nan, x.m) if x.k == "f" else x, a)


@reg(round)
def _bround(ctx, a, nd=None):
    if nd is not None:
        raise Unsupported("round ndigits")
    return s_round(a)


@reg(np.isnan)
def _isnan(ctx, a, **kw):
    return ew(ctx, lambda x: S("b", x.nan if x.k == "f" else False, False, x.m), a, kind="b")


def _inf(x):
    if not is_z(x.v) and isinstance(x.v, float):
        return math.isinf(x.v)
    return False


@reg(np.isfinite)
def _isfinite(ctx, a, **kw):
    return ew(ctx, lambda x: S("b", b_and(b_not(x.nan), not _inf(x)) if x.k == "f" else True, False, x.m), a, kind="b")


@reg(np.isinf)
def _isinf(ctx, a, **kw):
    return ew(ctx, lambda x: S("b", _inf(x), False, x.m), a, kind="b")


@reg(np.logical_and, ma.logical_and)
def _land(ctx, a, b, **kw):
    return ew(ctx, lambda x, y: S("b", b_and(x.bool(), y.bool()), False, b_or(x.m, y.m)), a, b, kind="b")


@reg(np.logical_or, ma.logical_or)
def _lor(ctx, a, b, **kw):
    return ew(ctx, lambda x, y: S("b", b_or(x.bool(), y.bool()), False, b_or(x.m, y.m)), a, b, kind="b")


@reg(np.logical_xor)
def _lxor(ctx, a, b, **kw):
    return ew(ctx, lambda x, y: S("b", b_not(core._beq(x.bool(), y.bool())), False, b_or(x.m, y.m)), a, b, kind="b")


@reg(np.logical_not, ma.logical_not)
def _lnot(ctx, a, **kw):
    return ew(ctx, lambda x: S("b", b_not(x.bool()), False, x.m), a, kind="b")


@reg(np.invert, np.bitwise_not)
def _inv(ctx, a):
    return unop(ctx, "~", a)


for _f, _op in ((np.bitwise_and, "&"), (np.bitwise_or, "|"), (np.bitwise_xor, "^"), (np.add, "+"),
                (np.subtract, "-"), (np.multiply, "*"), (np.divide, "/"), (np.true_divide, "/"),
                (np.power, "**"), (ma.multiply, "*"), (ma.add, "+"), (ma.subtract, "-"), (ma.divide, "/"),
                (np.mod, "%"), (np.floor_divide, "//"), (ma.power, "**")):
    H[_f] = (lambda op: lambda ctx, a, b, **kw: binop(ctx, op, _lift(ctx, a), _lift(ctx, b)))(_op)
for _f, _op in ((np.less, "<"), (np.less_equal, "<="), (np.greater, ">"), (np.greater_equal, ">="),
                (np.equal, "=="), (np.not_equal, "!="), (ma.less, "<"), (ma.greater, ">"), (ma.equal, "==")):
    H[_f] = (lambda op: lambda ctx, a, b, **kw: cmpop(ctx, op, _lift(ctx, a), _lift(ctx, b)))(_op)


_mul = H[ma.multiply]
H[ma.multiply] = H[np.multiply] = lambda ctx, a, b, **kw: _objmul(ctx, a, b) if isinstance(a, ObjVec) and not kw else _mul(ctx, a, b, **kw)


def _divide(ctx, a, b, out=None, where=None, **kw):
    if out is None and where is None:
        return binop(ctx, "/", _lift(ctx, a), _lift(ctx, b))
    if out is None or where is None or kw:
        raise Unsupported("divide keywords")
    a, b, out, w = (as_arr(ctx, x) for x in (a, b, out, where))
    q = binop(ctx, "/", Arr(a.shape, a.kind, a.fn()), Arr(b.shape, b.kind, b.fn()))
    masked = a.masked or b.masked
    if masked != out.masked:
        raise Unsupported("divide: mixed masked output")
    zero = S.of(0.0)

    def cell(q, o, w, y, m):
        v = s_ite(w.bool(), S("f", q.v, q.nan), S("f", o.cast("f").v, o.nan))
        if masked:  # numpy.ma masks the domain of the division whatever `where` says
            z = s_cmp("==", S(y.k, y.v), 0).v
            m = b_or(m, z)
            v = s_ite(z, S("f", 1.0), v)
            return S("f", v.v, b_and(v.nan, b_not(m)), m)
        return v
    res = ew(ctx, lambda x, y, qq, o, ww: cell(qq, o, ww, y, b_or(x.m, y.m)), a, b, q, out, w, kind="f", masked=masked)
    return res


H[np.divide] = H[np.true_divide] = _divide


@reg(np.gradient)
def _gradient(ctx, a, *sp, axis=None, **kw):
    a = as_arr(ctx, a)
    if sp or kw or a.masked:
        raise Unsupported("gradient arguments")
    f = a.fn()

    def one(ax):
        n = a.shape[ax]
        if ctx.branch(to_int(n) < 2 if is_z(n) else n < 2):
            raise IRaise(ValueError("Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required."))

        def get(idx):
            j = idx[ax]
            at = lambda q: f(tuple(idx[:ax]) + (q,) + tuple(idx[ax + 1:])).cast("f")
            if not is_z(j) and not is_z(n):
                if j == 0:
                    return at(1) - at(0)
                return at(n - 1) - at(n - 2) if j == n - 1 else (at(j + 1) - at(j - 1)) / S("f", 2.0)
            J, N = to_int(j), to_int(n)
            mid = (at(z3.simplify(J + 1)) - at(z3.simplify(J - 1))) / S("f", 2.0)
            return s_ite(J == 0, at(1) - at(0), s_ite(J == N - 1, at(z3.simplify(N - 1)) - at(z3.simplify(N - 2)), mid))
        return Arr(a.shape, "f", get)
    axes = range(a.ndim) if axis is None else [axis % a.ndim]
    out = [one(ax) for ax in axes]
    return out[0] if len(out) == 1 else tuple(out)


def _lift(ctx, a):
    if isinstance(a, (list, tuple)):
        return as_arr(ctx, a)
    return a


@reg(np.maximum, ma.maximum, np.fmax)
def _maximum(ctx, a, b, **kw):
    return ew(ctx, lambda x, y: _mm(s_max, x, y), a, b)


@reg(np.minimum, ma.minimum, np.fmin)
def _minimum(ctx, a, b, **kw):
    return ew(ctx, lambda x, y: _mm(s_min, x, y), a, b)


def _mm(f, x, y):
    r = f(S(x.k, x.v), S(y.k, y.v))
    return S(kmax(x.k, y.k), r.cast(kmax(x.k, y.k)).v, b_or(x.nan, y.nan), b_or(x.m, y.m))


@reg(np.clip, ma.clip)
def _clip(ctx, a, a_min=None, a_max=None, **kw):
    r = a
    if a_min is not None:
        r = ew(ctx, lambda x, y: _mm(s_max, x, y), r, a_min)
    if a_max is not None:
        r = ew(ctx, lambda x, y: _mm(s_min, x, y), r, a_max)
    return r


@reg(np.sign)
def _sign(ctx, a):
    def f(x):
        r = s_ite(s_cmp(">", S(x.k, x.v), 0), S(x.k, 1), s_ite(s_cmp("<", S(x.k, x.v), 0), S(x.k, -1), S(x.k, 0)))
        return S(x.k, r.v, x.nan, x.m)
    return ew(ctx, f, a)


@reg(np.hypot)
def _hypot(ctx, a, b):
    return ew(ctx, lambda x, y: s_fun("sqrt", x * x + y * y), a, b, kind="f")


@reg(np.arctan2, ma.arctan2)
def _arctan2(ctx, a, b):
    return ew(ctx, core.s_arctan2, a, b, kind="f")


@reg(np.where)
def _where(ctx, cond, *ab):
    cond = as_arr(ctx, cond) if not isinstance(cond, S) else cond
    if not ab:
        c = as_arr(ctx, cond)
        c = Arr(c.shape, "b", (lambda g: lambda idx: S("b", g(idx).bool()))(c.fn()), sel=c.sel)
        sel = ctx.selection(c)
        return tuple(coord_arr(ctx, sel, d) for d in range(c.ndim))
    a, b = ab
    return ew(ctx, lambda c, x, y: s_ite(c.bool(), x, y), cond, _lift(ctx, a), _lift(ctx, b), masked=False,
              kind=kmax(_kind(a), _kind(b)))


def _kind(a):
    if isinstance(a, Arr):
        return a.kind
    if isinstance(a, np.ndarray):
        return {"b": "b", "i": "i", "u": "i", "f": "f"}[a.dtype.kind]
    if isinstance(a, (list, tuple)):
        return {"b": "b", "i": "i", "u": "i", "f": "f"}[np.array(a).dtype.kind]
    return S.of(a).k


@reg(np.nonzero, ma.nonzero)
def _nonzero(ctx, a):
    a = as_arr(ctx, a)
    if a.masked:
        f = a.fn()
        a = Arr(a.shape, "b", lambda idx: S("b", b_and(f(idx).bool(), b_not(f(idx).m))))
    return _where(ctx, a)


@reg(np.flatnonzero)
def _flatnz(ctx, a):
    return _where(ctx, a)[0]


@reg(ma.where)
def _mawhere(ctx, cond, *ab):
    if not ab:
        return _nonzero(ctx, cond)
    a, b = ab
    k = kmax(_kind(a) if not is_masked_const(a) else "b", _kind(b) if not is_masked_const(b) else "b")
    def f(c, x, y):
        r = s_ite(c.bool(), x, y)
        return S(r.k, r.v, r.nan, b_or(r.m, c.m))
    av = S(k, 0, False, True) if is_masked_const(a) else a
    bv = S(k, 0, False, True) if is_masked_const(b) else b
    r = ew(ctx, f, as_arr(ctx, cond), av, bv, kind=k, masked=True)
    if isinstance(r, Arr):
        r = Arr(r.shape, r.kind, r.fn(), True, False)
    return r


# masking helpers
def _mask_by(ctx, a, cond):
    a = as_arr(ctx, a)
    cond = as_arr(ctx, cond)
    if cond.ndim == 0 and a.ndim:
        cv = cond.get(())
        cond = Arr(a.shape, "b", lambda idx: cv)
    else:
        for p, q in zip(a.shape, cond.shape):
            if not ctx.same_dim(p, q):
                raise IRaise(IndexError("Inconsistent shape between the condition and the input"))
    f, g = a.fn(), cond.fn()
    def fn(idx):
        s, c = f(idx), g(idx)
        cm = b_and(c.bool(), True) if c.m is False else b_or(c.bool(), c.m)
        return S(s.k, s.v, s.nan, b_or(s.m, cm))
    return Arr(a.shape, a.kind, fn, True, False, a.dtype, sel=a.sel)


@reg(ma.masked_where)
def _masked_where(ctx, cond, a, copy=True):
    return _mask_by(ctx, a, cond)


for _f, _op in ((ma.masked_less, "<"), (ma.masked_less_equal, "<="), (ma.masked_greater, ">"),
                (ma.masked_greater_equal, ">="), (ma.masked_equal, "=="), (ma.masked_not_equal, "!="),
                (ma.masked_values, "==")):
    def _mk2(op):
        def h(ctx, a, value, copy=True):
            a = as_arr(ctx, a)
            f = a.fn()
            raw = Arr(a.shape, a.kind, lambda idx: _strip(f(idx)))
            return _mask_by(ctx, a, cmpop(ctx, op, raw, value))
        return h
    H[_f] = _mk2(_op)


@reg(ma.masked_outside)
def _mout(ctx, a, v1, v2, copy=True):
    a = as_arr(ctx, a)
    f = a.fn()
    raw = Arr(a.shape, a.kind, lambda idx: _strip(f(idx)))
    return _mask_by(ctx, a, ew(ctx, lambda x: s_bit("|", s_cmp("<", x, v1), s_cmp(">", x, v2)), raw))


@reg(ma.masked_inside)
def _min_(ctx, a, v1, v2, copy=True):
    a = as_arr(ctx, a)
    f = a.fn()
    raw = Arr(a.shape, a.kind, lambda idx: _strip(f(idx)))
    return _mask_by(ctx, a, ew(ctx, lambda x: s_bit("&", s_cmp(">=", x, v1), s_cmp("<=", x, v2)), raw))


@reg(ma.masked_invalid, ma.fix_invalid)
def _minvalid(ctx, a, copy=True, **kw):
    a = as_arr(ctx, a)
    f = a.fn()
    fn = lambda idx: S(f(idx).k, f(idx).v, f(idx).nan, b_or(f(idx).m, f(idx).nan, _inf(f(idx))))
    return Arr(a.shape, a.kind, fn, True, False, a.dtype)


@reg(ma.getmaskarray, ma.getmask)
def _getmask(ctx, a):
    a = as_arr(ctx, a)
    f = a.fn()
    return Arr(a.shape, "b", lambda idx: S("b", f(idx).m), sel=a.sel)


@reg(ma.getmask)
def _getmask2(ctx, a):
    a = as_arr(ctx, a)
    if a.nomask:
        return ma.nomask
    return _getmask(ctx, a)


@reg(ma.getdata)
def _getdata(ctx, a, **kw):
    if isinstance(a, (np.ndarray,)) and not isinstance(a, ma.MaskedArray):
        return a
    a = as_arr(ctx, a)
    return data_view(a)


def data_view(a):
    if not a.masked:
        return a
    f = a.fn()
    return Arr(a.shape, a.kind, lambda idx: _strip(f(idx)), dtype=a.dtype, sel=a.sel)


@reg(ma.filled)
def _filled(ctx, a, fill_value=None):
    a = as_arr(ctx, a)
    if not a.masked:
        return a
    if fill_value is None:
        raise Unsupported("default fill value")
    v = S.of(fill_value).cast(a.kind)
    f = a.fn()
    return Arr(a.shape, a.kind, lambda idx: s_ite(f(idx).m, v, _strip(f(idx))), dtype=a.dtype, sel=a.sel)


@reg(ma.is_masked)
def _is_masked(ctx, a):
    a = as_arr(ctx, a)
    f = a.fn()
    return S("b", quant_nd("E", a.shape, lambda idx: f(idx).m))


@reg(ma.isMaskedArray, ma.isMA, ma.isarray)
def _ismaa(ctx, a):
    return isinstance(a, Arr) and a.masked or isinstance(a, ma.MaskedArray)


@reg(ma.count)
def _count(ctx, a, axis=None):
    a = as_arr(ctx, a)
    return reduce_sum(ctx, ew(ctx, lambda x: S("i", b_to_int(b_not(x.m))), a, kind="i", masked=False), axis, kind="i")


@reg(ma.count_masked)
def _countm(ctx, a, axis=None):
    a = as_arr(ctx, a)
    return reduce_sum(ctx, ew(ctx, lambda x: S("i", b_to_int(x.m)), a, kind="i", masked=False), axis, kind="i")


@reg(ma.compressed)
def _compressed(ctx, a):
    a = as_arr(ctx, a)
    f = a.fn()
    m = Arr(a.shape, "b", lambda idx: S("b", b_not(f(idx).m)))
    return getitem(ctx, data_view(a), m)


# reductions
@reg(np.any, ma.any)
def _any(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("any kwargs")
    return reduce_bool(ctx, a, "E", axis)


@reg(np.all, ma.all, ma.allequal)
def _all(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("all kwargs")
    return reduce_bool(ctx, a, "A", axis)


@reg(np.sum, ma.sum)
def _sum(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("sum kwargs")
    return reduce_sum(ctx, a, axis)


@reg(np.nansum)
def _nansum(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("sum kwargs")
    return reduce_sum(ctx, ew(ctx, lambda x: S(x.k, s_ite(x.nan, S(x.k, 0), S(x.k, x.v)).v, False, x.m), a), axis)


@reg(ma.sum)
def _masum(ctx, a, axis=None, **kw):
    r = reduce_sum(ctx, a, axis)
    if isinstance(r, Arr) and not r.masked:
        r = Arr(r.shape, r.kind, r.fn(), True, True, sel=r.sel)
    return r


@reg(np.mean, ma.mean, np.average, ma.average)
def _mean(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("mean kwargs")
    return reduce_mean(ctx, a, axis)


@reg(np.count_nonzero)
def _cnz(ctx, a, axis=None):
    a = as_arr(ctx, a)
    f = a.fn()
    b = Arr(a.shape, "b", lambda idx: S("b", f(idx).bool()), sel=a.sel)
    return count_true(ctx, b, axis)


@reg(np.max, ma.max, np.amax)
def _max(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("max kwargs")
    return extremum(ctx, a, "max", axis)


@reg(np.min, ma.min, np.amin)
def _min(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("min kwargs")
    return extremum(ctx, a, "min", axis)


@reg(np.nanmax)
def _nanmax(ctx, a, axis=None):
    return extremum(ctx, a, "max", axis, nanskip=True)


@reg(np.nanmin)
def _nanmin(ctx, a, axis=None):
    return extremum(ctx, a, "min", axis, nanskip=True)


def _opaque(name, npf, maf):
    def h(ctx, a, axis=None, **kw):
        a = as_arr(ctx, a)
        if a.is_conc():
            x = a.to_numpy()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = (maf if a.masked else npf)(x, axis=axis, **kw)
            return unwrap(Arr.from_numpy(r)) if isinstance(r, np.ndarray) and r.ndim else S.of(r)
        if kw:
            raise Unsupported(f"{name} kwargs")
        if axis is None or a.ndim == 1:
            r = uninterp(ctx, name, a)
            f = a.fn()
            if name == "median" and a.ndim == 1 and (not a.masked or a.nomask) and ("medfact", r.v.get_id()) not in ctx.memo:
                # a median lies between two of the values
                ctx.memo["medfact", r.v.get_id()] = r.v
                lo, hi = z3.Int(ctx.name("medlo")), z3.Int(ctx.name("medhi"))
                n = to_int(a.shape[0])
                fl, fh = f((lo,)), f((hi,))
                if fl.nan is False:
                    ctx.assume(z3.Implies(n > 0, z3.And(lo >= 0, lo < n, hi >= 0, hi < n, fl.cast("f").real() <= r.v, r.v <= fh.cast("f").real())))
            m = quant_nd("A", a.shape, lambda idx: f(idx).m) if a.masked and not a.nomask else False
            return S("f", r.v, False, m)
        ax = axis if axis >= 0 else axis + a.ndim
        shape = a.shape[:ax] + a.shape[ax + 1:]
        r = uninterp(ctx, name + f"_ax{ax}", a, shape=shape)
        f = a.fn()
        if a.masked and not a.nomask:
            g = r.fn()
            def fn(idx):
                m = quant("A", a.shape[ax], lambda k: f(tuple(idx[:ax]) + (k,) + tuple(idx[ax:])).m)
                return S("f", g(idx).v, False, m)
            return Arr(shape, "f", fn, True, False)
        return r
    return h


H[np.median] = _opaque("median", np.median, ma.median)
H[ma.median] = _opaque("median", ma.median, ma.median)


@reg(np.std, ma.std)
def _std(ctx, a, axis=None, **kw):
    if kw:
        raise Unsupported("std kwargs")
    return npm.reduce_std(ctx, a, axis)


def _binned_statistic(ctx, x, values, statistic="mean", bins=10, **kw):
    """scipy.stats.binned_statistic with given edges; the last bin includes its right edge"""
    x, v, e = as_arr(ctx, x), as_arr(ctx, values), as_arr(ctx, bins)
    if kw or x.ndim != 1 or v.ndim != 1 or e.ndim != 1 or statistic not in ("mean", "max", "std", "sum", "count") or ctx.loopvars:
        raise Unsupported("binned_statistic")
    if x.is_conc() and v.is_conc() and e.is_conc():
        r = _sst.binned_statistic(x.to_numpy(), v.to_numpy(), statistic=statistic, bins=e.to_numpy())
        return tuple(Arr.from_numpy(q) for q in r)
    f, g, h = x.fn(), v.fn(), e.fn()
    if ctx.branch(S("b", dim_eq(x.shape[0], 0))):
        raise IRaise(ValueError("zero-size array"))
    n = e.shape[0]
    N = to_int(n) - 1
    srt = quant("A", N, lambda i: s_cmp("<", h((i,)), h((to_int(i) + 1,))).v)
    ctx.oblige("binned_statistic: edges increase", to_bool(srt))
    bare = lambda q: S(q.k, q.v, q.nan)

    def fn(idx):
        j = to_int(idx[0])

        def one(ix):
            a, lo, hi = bare(f(ix)), bare(h((j,))), bare(h((j + 1,)))
            use = b_and(s_cmp(">=", a, lo).v, b_or(s_cmp("<", a, hi).v, b_and(j == N - 1, s_cmp("==", a, hi).v)))
            q = g(ix)
            return S("f", q.cast("f").v, q.nan, b_not(use))
        arr = Arr(x.shape, "f", one, True, False, sel=x.sel)
        if statistic == "count":
            return count_true(ctx, Arr(x.shape, "b", lambda ix: S("b", b_not(one(ix).m)), sel=x.sel)).cast("f")
        if statistic == "sum":
            r = reduce_sum(ctx, arr)
            return S("f", b_ite(r.m, z3.RealVal(0), core.to_real(r.v)), r.nan)
        r = {"mean": reduce_mean, "std": npm.reduce_std, "max": lambda c, b: extremum(c, b, "max")}[statistic](ctx, arr)
        return S("f", r.v, b_or(r.nan, r.m))
    m = shape_of(ctx, (S("i", N),))[0]
    return (Arr((m,), "f", fn), e, None)


import scipy.stats as _sst
H[_sst.binned_statistic] = _binned_statistic


import scipy.ndimage as _ndi


@reg(_ndi.generate_binary_structure)
def _gbs(ctx, rank, connectivity):
    return Arr.from_numpy(_ndi.generate_binary_structure(int(S.of(rank).v), int(S.of(connectivity).v)))


@reg(_ndi.binary_dilation)
def _dilation(ctx, a, structure=None, iterations=1, **kw):
    """the structure (odd sides, centred) laid on every true cell, repeatedly"""
    if kw:
        raise Unsupported("binary_dilation options")
    a = as_arr(ctx, a)
    st = _ndi.generate_binary_structure(a.ndim, 1) if structure is None else as_arr(ctx, structure).to_numpy()
    it = S.of(iterations)
    if is_z(it.v) or int(it.v) < 1 or int(it.v) > 4 or st.ndim != a.ndim or any(k % 2 == 0 for k in st.shape):
        raise Unsupported("binary_dilation")
    offs = [tuple(int(x) - k // 2 for x, k in zip(p, st.shape)) for p in zip(*np.nonzero(st))]
    out = a
    for _ in range(int(it.v)):
        g = out.fn()

        def fn(idx, g=g, shape=a.shape):
            hits = []
            for o in offs:
                ix = tuple(dnorm(to_int(i) - k) if k else i for i, k in zip(idx, o))
                inside = [dim_ok(i, n) for i, n, k in zip(ix, shape, o) if k]
                hits.append(guard_and(inside, lambda ix=ix: g(ix).bool()))
            return S("b", b_or(*hits))
        out = Arr(a.shape, "b", fn)
    return out


def dim_ok(i, n):
    if is_z(i) or is_z(n):
        return b_and(to_int(i) >= 0, to_int(i) < to_int(n))
    return 0 <= int(i) < int(n)


def guard_and(conds, f):
    c = b_and(*conds)
    return False if c is False else b_and(c, f())


@reg(np.digitize)
def _digitize(ctx, x, bins, right=False):
    if right:
        raise Unsupported("digitize right")
    return _searchsorted(ctx, bins, x, side="right")


@reg(np.bincount)
def _bincount(ctx, x, weights=None, minlength=0):
    x = as_arr(ctx, x)
    if x.is_conc() and weights is None and not isinstance(minlength, S):
        return Arr.from_numpy(np.bincount(x.to_numpy().astype(int), minlength=int(minlength)))
    if weights is not None or x.ndim != 1:
        raise Unsupported("bincount")
    f = x.fn()
    ctx.oblige("bincount: no negative value", to_bool(reduce_bool(ctx, ew(ctx, lambda s: S("b", s_cmp(">=", s, 0).v), x, kind="b"), "A").v))
    ml = S.of(minlength).v
    L = ctx.fresh("nbins", "i").v
    ctx.fact(L >= to_int(ml))
    small = reduce_bool(ctx, ew(ctx, lambda s: S("b", s_cmp("<", s, S("i", L)).v), x, kind="b"), "A")
    last = reduce_bool(ctx, ew(ctx, lambda s: S("b", s_cmp("==", s, S("i", L - 1)).v), x, kind="b"), "E")
    ctx.fact(to_bool(small.v))
    ctx.fact(z3.Or(L == to_int(ml), to_bool(last.v)))

    def fn(idx):
        j = S("i", idx[0])
        return Arr(x.shape, "b", lambda ix: S("b", s_cmp("==", f(ix), j).v), sel=x.sel)
    if ctx.loopvars:
        return Arr((L,), "i", lambda idx: count_true(ctx, fn(idx)))
    r = ctx.fresh_arr("bincount", "i", (L,))
    j, i = z3.Int("qj"), z3.Int("qi")
    cnt = lambda k: r.get((k,)).v
    b = npm.expand(ctx, x, 0)
    y = x if b is None else b
    g, N = y.fn(), to_int(y.shape[0])
    if b is None and y.sel and any(y.sel):
        raise Unsupported("bincount of a selection")
    w = z3.Function(ctx.name("bin_sample"), z3.IntSort(), z3.IntSort())
    at = lambda k: (to_int(g((k,)).v), to_bool(b_not(g((k,)).m if b is not None else False)))
    v, ok = at(w(j))
    ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L), z3.And(cnt(j) >= 0, z3.Implies(cnt(j) > 0, z3.And(w(j) >= 0, w(j) < N, ok, v == j)))), patterns=[cnt(j)]))
    v, ok = at(i)
    pats = C._apps_of(v, [i], [])
    ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N, ok), cnt(v) > 0), **({"patterns": pats} if pats else {})))
    ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L), cnt(j) == to_int(count_true(ctx, fn((j,))).v)), patterns=[cnt(j)]))
    return r
H[np.var] = _opaque("var", np.var, ma.var)
H[ma.var] = _opaque("var", ma.var, ma.var)
H[np.nanmedian] = _opaque("nanmedian", np.nanmedian, np.nanmedian)
H[np.nanmean] = _opaque("nanmean", np.nanmean, np.nanmean)
H[np.nanstd] = _opaque("nanstd", np.nanstd, np.nanstd)


# shapes
@reg(np.shape, ma.shape)
def _shape(ctx, a):
    a = as_arr(ctx, a)
    return tuple(S("i", d) if is_z(d) else d for d in a.shape)


@reg(np.ndim)
def _ndim(ctx, a):
    if isinstance(a, S):
        return 0
    return as_arr(ctx, a).ndim


@reg(np.size)
def _size(ctx, a):
    n = as_arr(ctx, a).size()
    return S("i", n) if is_z(n) else n


@reg(np.isscalar)
def _isscalar(ctx, a):
    return not isinstance(a, Arr)


@reg(np.transpose, ma.transpose)
def _transpose(ctx, a, axes=None):
    a = as_arr(ctx, a)
    if axes is not None and list(axes) != list(range(a.ndim))[::-1]:
        raise Unsupported("transpose axes")
    if a.ndim < 2:
        return a
    return Arr(a.shape[::-1], a.kind, None, a.masked, a.nomask, a.dtype,
               view=(a, lambda idx: tuple(idx[::-1]), lambda b: (True, tuple(b[::-1]))),
               sel=a.sel[::-1] if a.sel else None)


@reg(np.atleast_1d, ma.atleast_1d)
def _atleast1d(ctx, a):
    if isinstance(a, Arr) and a.ndim:
        return a
    s = S.of(a)
    masked = isinstance(a, Arr) and a.masked
    return Arr((1,), s.k, lambda idx: s, masked, masked and s.m is False)


@reg(np.squeeze, ma.squeeze)
def _squeeze(ctx, a, axis=None):
    a = as_arr(ctx, a)
    keep = []
    for i, d in enumerate(a.shape):
        if is_z(d):
            if ctx.branch(d == 1):
                raise Unsupported("squeeze of symbolic dim one")
            keep.append(i)
        elif d != 1:
            keep.append(i)
    def fwd(idx):
        out = [0] * a.ndim
        for p, i in zip(keep, idx):
            out[p] = i
        return tuple(out)
    return unwrap(Arr([a.shape[i] for i in keep], a.kind, None, a.masked, a.nomask, a.dtype,
                      view=(a, fwd, lambda b: (True, tuple(b[i] for i in keep)))))


@reg(np.expand_dims, ma.expand_dims)
def _expand(ctx, a, axis):
    a = as_arr(ctx, a)
    key = [slice(None)] * a.ndim
    if axis < 0:
        axis += a.ndim + 1
    key.insert(axis, None)
    return getitem(ctx, a, tuple(key))


@reg(np.broadcast_to)
def _bto(ctx, a, shape, **kw):
    a = as_arr(ctx, a)
    sh = shape_of(ctx, shape)
    out = broadcast_shapes(ctx, [a.shape, sh])
    f = bfn(a, out)
    return Arr(out, a.kind, lambda idx: _strip(f(idx)), False, True, a.dtype)


@reg(np.tile)
def _tile(ctx, a, reps):
    a = as_arr(ctx, a)
    if isinstance(reps, (tuple, list)):
        if len(reps) == 2 and a.ndim == 1:
            n, m = reps
            if not isinstance(m, S) and m == 1:
                (n,) = shape_of(ctx, (n,))
                f = a.fn()
                return Arr((n, a.shape[0]), a.kind, lambda idx: f((idx[1],)), a.masked, a.nomask, a.dtype)
        if len(reps) == 2 and a.ndim == 2:
            n, m = reps
            if not isinstance(m, S) and m == 1 and is_one(a.shape[0]):
                (n,) = shape_of(ctx, (n,))
                f = a.fn()
                return Arr((n, a.shape[1]), a.kind, lambda idx: f((0, idx[1])), a.masked, a.nomask, a.dtype)
            if not isinstance(n, S) and n == 1 and is_one(a.shape[1]):
                (m,) = shape_of(ctx, (m,))
                f = a.fn()
                return Arr((a.shape[0], m), a.kind, lambda idx: f((idx[0], 0)), a.masked, a.nomask, a.dtype)
        raise Unsupported("tile reps")
    if a.ndim == 1 or a.ndim == 0:
        (n,) = shape_of(ctx, (reps,))
        f = a.fn()
        if a.ndim == 0:
            return Arr((n,), a.kind, lambda idx: f(()), a.masked, a.nomask)
        L = a.shape[0]
        tot = n * L if not (is_z(n) or is_z(L)) else to_int(n) * to_int(L)
        return Arr((tot,), a.kind, lambda idx: f((s_arith("%", S("i", idx[0]), S("i", L)).v,)), a.masked, a.nomask)
    raise Unsupported("tile")


@reg(np.repeat, ma.repeat)
def _repeat(ctx, a, repeats, axis=None):
    a = as_arr(ctx, a)
    if isinstance(repeats, Arr):
        raise Unsupported("repeat by array")
    (r,) = shape_of(ctx, (repeats,))
    f = a.fn()
    if a.ndim == 0 or (a.ndim == 1 and is_one(a.shape[0])):
        return Arr((r,), a.kind, lambda idx: f((0,) if a.ndim else ()), a.masked, a.nomask)
    if a.ndim == 1:
        L = a.shape[0]
        tot = r * L if not (is_z(r) or is_z(L)) else to_int(r) * to_int(L)
        return Arr((tot,), a.kind, lambda idx: f((s_arith("//", S("i", idx[0]), S("i", r)).v,)), a.masked, a.nomask)
    raise Unsupported("repeat")


@reg(np.arange)
def _arange(ctx, *args, dtype=None, **kw):
    args = [S.of(x) for x in args]
    if all(x.conc() for x in args):
        return Arr.from_numpy(np.arange(*[x.v for x in args], dtype=dtype))
    if len(args) == 1:
        lo, hi, st = S("i", 0), args[0], S("i", 1)
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], S("i", 1)
    else:
        lo, hi, st = args
    if lo.k == "i" and hi.k == "i" and st.k == "i" and not is_z(st.v) and st.v >= 1:
        n = to_int(hi.v) - to_int(lo.v)
        if st.v != 1:
            n = (n + st.v - 1) / st.v
        n = z3.simplify(n)
        if not ctx.valid_quick(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return Arr((n,), "i", lambda idx: S("i", dnorm(to_int(lo.v) + st.v * to_int(idx[0]))))
    if not is_z(st.v) and st.v > 0:
        L = s_ceil_int((hi - lo).cast("f") / st).v
        n = z3.simplify(z3.If(L >= 0, L, z3.IntVal(0)))
        return Arr((n,), "f", lambda idx: lo + S("i", idx[0]) * st)
    raise Unsupported("arange")


@reg(np.linspace)
def _linspace(ctx, start, stop, num=50, endpoint=True, **kw):
    start, stop, num = S.of(start), S.of(stop), S.of(num)
    if kw:
        raise Unsupported("linspace kw")
    if start.conc() and stop.conc() and num.conc():
        return Arr.from_numpy(np.linspace(start.v, stop.v, num.v, endpoint=endpoint))
    div = num - 1 if endpoint else num
    (n,) = shape_of(ctx, (num,))
    if ctx.branch(s_cmp("<=", div, 0)):
        return Arr((n,), "f", lambda idx: start.cast("f"))
    start, stop = start.cast("f"), stop.cast("f")
    step = (stop - start) / div
    if ctx.loopvars or any(x.nan is not False or x.m is not False for x in (start, stop)) or num.conc():
        return Arr((n,), "f", lambda idx: start + S("i", idx[0]) * step)
    # evenly spaced values as a function symbol: its definition, monotonicity and end points as facts
    nf = [z3.simplify(x.term(), som=True, arith_lhs=True) for x in (start, stop)]
    key = ("linspace", nf[0].get_id(), nf[1].get_id(), core.ikey(n), endpoint)
    r = ctx.memo.get(key)
    if r is None:
        ctx.keep.extend(nf)
        r = ctx.fresh_arr("linspace", "f", (n,))
        k, j = z3.Int("qk"), z3.Int("qj")
        N, v = to_int(n), lambda i: r.get((i,)).v
        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), v(k) == (start + S("i", k) * step).v), patterns=[v(k)]))
        lt = lambda a, b: z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < N), a(v(j), v(k))), patterns=[z3.MultiPattern(v(j), v(k))])
        a, b = start.term(), stop.term()
        ctx.fact(z3.If(a < b, lt(lambda x, y: x < y, 0), z3.If(a > b, lt(lambda x, y: x > y, 0), lt(lambda x, y: x == y, 0))))
        ctx.fact(z3.And(v(z3.IntVal(0)) == a, *([v(N - 1) == b] if endpoint else [])))
        for (start2, stop2, r2) in ctx.memo.setdefault(("linspaces", core.ikey(n), endpoint), []):
            w = lambda i, r2=r2: r2.get((i,)).v
            ctx.fact(z3.Implies(z3.And(a == start2, b == stop2), z3.And(z3.ForAll([k], v(k) == w(k), patterns=[v(k)]), z3.ForAll([k], v(k) == w(k), patterns=[w(k)]))))
        ctx.memo[("linspaces", core.ikey(n), endpoint)].append((a, b, r))
        ctx.memo[key] = r
    return r


@reg(np.diff, ma.diff if hasattr(ma, "diff") else np.diff)
def _diff(ctx, a, n=1, axis=-1, prepend=None, append=None):
    a = as_arr(ctx, a)
    if n != 1:
        raise Unsupported("diff n")
    if prepend is not None or append is not None:
        parts = []
        ax = axis if axis >= 0 else axis + a.ndim
        if a.ndim != 1:
            raise Unsupported("diff prepend nd")
        for p in (prepend, a, append):
            if p is None:
                continue
            p = as_arr(ctx, p)
            if p.ndim == 0:
                pv = p.get(())
                p = Arr((1,), pv.k, (lambda v: lambda idx: v)(pv))
            parts.append(p)
        a = concat(ctx, parts, 0)
    ax = axis if axis >= 0 else axis + a.ndim
    f = a.fn()
    L = a.shape[ax]
    if is_z(L):
        m = to_int(L) - 1
        if not ctx.valid_quick(to_int(L) >= 1):
            m = z3.If(to_int(L) >= 1, m, z3.IntVal(0))
    else:
        m = max(0, L - 1)
    shape = a.shape[:ax] + (m,) + a.shape[ax + 1:]

    def fn(idx):
        i = idx[ax]
        j = i + 1 if not is_z(i) else z3.simplify(i + 1)
        x = f(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:]))
        y = f(idx)
        if a.kind == "b":
            return S("b", b_not(core._beq(x.v, y.v)), False, b_or(x.m, y.m))
        return x - y
    return Arr(shape, a.kind, fn, a.masked, a.nomask)


def concat(ctx, parts, axis=0, masked=None):
    parts = [as_arr(ctx, p) for p in parts]
    parts = [p if p.ndim else Arr((1,), p.kind, (lambda v: lambda idx: v)(p.get(())), p.masked, p.nomask) for p in parts]
    k = parts[0].kind
    for p in parts:
        if p.ndim != parts[0].ndim:
            raise IRaise(ValueError("all the input arrays must have same number of dimensions"))
        k = kmax(k, p.kind)
        for d in range(p.ndim):
            if d != axis and not ctx.same_dim(p.shape[d], parts[0].shape[d]):
                raise IRaise(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    if masked is None:
        masked = any(p.masked for p in parts)
    fs = [p.fn() for p in parts]
    offs = [0]
    for p in parts:
        offs.append(dnorm(to_int(offs[-1]) + to_int(p.shape[axis])))

    def fn(idx):
        i = idx[axis]
        def at(j):
            ii = dnorm(to_int(i) - to_int(offs[j])) if is_z(i) or is_z(offs[j]) else i - offs[j]
            s = fs[j](tuple(idx[:axis]) + (ii,) + tuple(idx[axis + 1:])).cast(k)
            return s if masked else _strip(s)
        if not is_z(i):
            for j in range(len(parts)):
                if not is_z(offs[j + 1]) and i < offs[j + 1]:
                    return at(j)
                if is_z(offs[j + 1]):
                    break
        r = at(len(parts) - 1)
        for j in range(len(parts) - 2, -1, -1):
            if not is_z(parts[j].shape[axis]) and parts[j].shape[axis] == 0:
                continue
            r = s_ite(to_int(i) < to_int(offs[j + 1]), at(j), r)
        return r
    shape = list(parts[0].shape)
    shape[axis] = offs[-1]
    return Arr(shape, k, fn, masked, all(p.nomask for p in parts))


@reg(np.concatenate)
def _concat(ctx, parts, axis=0, **kw):
    return concat(ctx, parts, axis, masked=False)


@reg(ma.concatenate)
def _maconcat(ctx, parts, axis=0):
    return concat(ctx, parts, axis, masked=True)


@reg(np.append)
def _append(ctx, a, b, axis=None):
    a, b = as_arr(ctx, a), as_arr(ctx, b)
    if axis is None and (a.ndim > 1 or b.ndim > 1):
        raise Unsupported("append ravel")
    return concat(ctx, [a, b], axis or 0, masked=False)


@reg(ma.append)
def _maappend(ctx, a, b, axis=None):
    return concat(ctx, [a, b], axis or 0, masked=True)


@reg(np.hstack)
def _hstack(ctx, parts):
    parts = [as_arr(ctx, p) for p in parts]
    return concat(ctx, parts, 0 if parts[0].ndim <= 1 else 1, masked=False)


@reg(np.vstack)
def _vstack(ctx, parts):
    parts = [as_arr(ctx, p) for p in parts]
    parts = [p if p.ndim == 2 else getitem(ctx, p, (None, slice(None))) for p in parts]
    return concat(ctx, parts, 0, masked=False)


@reg(np.insert)
def _insert(ctx, a, pos, val, axis=None):
    a = as_arr(ctx, a)
    if a.masked or isinstance(pos, (list, tuple, Arr)):
        raise Unsupported("insert")
    pos = S.of(pos)
    if a.ndim != 1 and axis is None:
        raise Unsupported("insert ravel")
    ax = 0 if a.ndim == 1 else axis % a.ndim
    val = as_arr(ctx, val)
    if not (pos.conc() and pos.v == 0) or val.ndim > max(0, a.ndim - 1):
        if a.ndim != 1 or val.ndim:
            raise Unsupported("insert")
    if val.ndim == a.ndim - 1 and val.ndim:
        for d, e in zip(val.shape, [d for i, d in enumerate(a.shape) if i != ax]):
            if not is_one(d) and not ctx.same_dim(d, e):
                raise IRaise(ValueError("could not broadcast input array"))
    f, g = a.fn(), val.fn()
    n = a.shape[ax]
    p0 = pos.v if not (pos.conc() and pos.v < 0) else dnorm(to_int(n) + int(pos.v))

    def fn(idx):
        i = idx[ax]
        rest = tuple(x for j, x in enumerate(idx) if j != ax)
        if val.ndim:
            rest = tuple(0 if is_one(d) else x for d, x in zip(val.shape, rest))
        else:
            rest = ()
        v = _strip(g(rest).cast(a.kind))
        if not is_z(i) and not is_z(p0):
            return v if i == p0 else f(idx) if i < p0 else f(idx[:ax] + (i - 1,) + idx[ax + 1:])
        hi = f(idx[:ax] + (dnorm(to_int(i) - 1),) + idx[ax + 1:])
        r = s_ite(dim_eq(i, p0), v, hi)
        if not is_z(p0) and p0 == 0:
            return r
        return s_ite(to_int(i) < to_int(p0), f(idx), r)
    return Arr(a.shape[:ax] + (dnorm(to_int(n) + 1),) + a.shape[ax + 1:], a.kind, fn)


@reg(np.stack)
def _stack(ctx, parts, axis=0):
    a = npm.stack_list(ctx, [as_arr(ctx, p) for p in parts])
    if axis == 0:
        return a
    raise Unsupported("stack axis")


@reg(np.meshgrid)
def _meshgrid(ctx, x, y, indexing="xy", **kw):
    x, y = as_arr(ctx, x), as_arr(ctx, y)
    f, g = x.fn(), y.fn()
    if indexing == "ij":
        sh = (x.shape[0], y.shape[0])
        return [Arr(sh, x.kind, lambda i: f((i[0],))), Arr(sh, y.kind, lambda i: g((i[1],)))]
    sh = (y.shape[0], x.shape[0])
    return [Arr(sh, x.kind, lambda i: f((i[1],))), Arr(sh, y.kind, lambda i: g((i[0],)))]


@reg(np.outer)
def _outer(ctx, x, y):
    x, y = as_arr(ctx, x), as_arr(ctx, y)
    f, g = x.fn(), y.fn()
    return Arr((x.shape[0], y.shape[0]), kmax(x.kind, y.kind), lambda i: f((i[0],)) * g((i[1],)))


@reg(np.isin, np.in1d if hasattr(np, "in1d") else np.isin)
def _isin(ctx, a, vals, **kw):
    vals = list(vals) if isinstance(vals, (list, tuple, set, range)) else vals
    if isinstance(vals, (Arr, np.ndarray)):
        va = as_arr(ctx, vals)
        g = va.fn()
        return ew(ctx, lambda x: S("b", quant("E", va.shape[0], lambda k: s_cmp("==", x, g((k,))).v), False, x.m), a, kind="b")
    return ew(ctx, lambda x: S("b", b_or(*[s_cmp("==", x, v).v for v in vals]), False, x.m), a, kind="b")


@reg(np.array_equal)
def _array_equal(ctx, a, b):
    a, b = as_arr(ctx, a), as_arr(ctx, b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape, b.shape):
        if not ctx.same_dim(p, q):
            return False
    f, g = a.fn(), b.fn()
    return S("b", quant_nd("A", a.shape, lambda idx: s_cmp("==", _strip(f(idx)), _strip(g(idx))).v))


def _argext(which, first=True):
    def h(ctx, a, axis=None, **kw):
        a = as_arr(ctx, a)
        if a.is_conc():
            return _wrapres(getattr(ma if a.masked else np, "arg" + which)(a.to_numpy(), axis=axis))
        if kw:
            raise Unsupported("argext kw")
        f = a.fn()
        op = "<" if which == "min" else ">"
        ope = "<=" if which == "min" else ">="
        lt = lambda x, y: s_cmp(op, x, y).v
        le = lambda x, y: s_cmp(ope, x, y).v
        if a.kind == "b":
            conv = lambda s: S("i", b_to_int(s.bool()))
        else:
            conv = lambda s: S(s.k, s.v)
        masked = a.masked and not a.nomask
        if axis is None and a.ndim == 1:
            axis = 0
        if axis is None:
            raise Unsupported("argext flat nd")
        if axis < 0:
            axis += a.ndim
        n = a.shape[axis]
        if not ctx.branch(n > 0):
            raise IRaise(ValueError("attempt to get argmin/argmax of an empty sequence"))
        shape = a.shape[:axis] + a.shape[axis + 1:]
        key = ("arg", which, axis, npm._canon(ctx, a))
        w = ctx.memo.get(key)
        if w is None:
            w = ctx.fresh_arr("nn", "i", shape)
            ctx.memo[key] = w
            full = lambda idx, k: tuple(idx[:axis]) + (k,) + tuple(idx[axis:])
            def ax(idx):
                at = w.get(idx).v
                fa = f(full(idx, at))
                va = conv(fa)
                base = [at >= 0, at < to_int(n)]
                if masked:
                    def better(k):
                        fk = f(full(idx, k))
                        v = conv(fk)
                        # masked elements never win unless all are masked
                        return b_and(b_or(fk.m, b_and(b_not(fa.m), le(va, v))),
                                     b_or(b_not(k < at), fk.m, lt(va, v)))
                    return b_and(*base, quant("A", n, better))
                return b_and(*base, quant("A", n, lambda k: b_and(le(va, conv(f(full(idx, k)))), b_or(b_not(k < at) if is_z(at) else k >= at, lt(va, conv(f(full(idx, k))))))))
            ctx.fact(quant_nd("A", shape, ax))
        return unwrap(w)
    return h


H[np.argmin] = _argext("min")
H[np.argmax] = _argext("max")
H[ma.argmin] = H[np.argmin]
H[ma.argmax] = H[np.argmax]


def _wrapres(r):
    if isinstance(r, np.ndarray) and r.ndim:
        return Arr.from_numpy(r)
    return S.of(r)


@reg(np.searchsorted)
def _searchsorted(ctx, a, v, side="left", **kw):
    a = as_arr(ctx, a)
    va = as_arr(ctx, v)
    if a.is_conc() and va.is_conc():
        return _wrapres(np.searchsorted(a.to_numpy(), va.to_numpy() if va.ndim else va.get(()).v, side=side))
    if kw:
        raise Unsupported("searchsorted kw")
    # precondition of searchsorted: a is sorted (obligation)
    f = a.fn()
    n = a.shape[0]
    srt = quant("A", n, lambda i: quant("A", n, lambda j: b_or(b_not(to_int(i) <= to_int(j)), s_cmp("<=", f((i,)), f((j,))).v)))
    ctx.oblige("searchsorted: array is sorted", to_bool(srt))
    g = va.fn()
    key = ("ss", side, npm._canon(ctx, a), npm._canon(ctx, va))
    r = ctx.memo.get(key)
    if r is None:
        r = ctx.fresh_arr("nn", "i", va.shape)
        ctx.memo[key] = r
        op = "<" if side == "left" else "<="
        def ax(idx):
            p = r.get(idx).v
            x = g(idx)
            return b_and(p >= 0, p <= to_int(n), quant("A", n, lambda k: core._beq(to_int(k) < p, s_cmp(op, f((k,)), S(x.k, x.v)).v)))
        ctx.fact(quant_nd("A", va.shape, ax))
    return unwrap(r)


def rec_facts(ctx, r, shape, ax, first, step):
    """r[.., 0, ..] = first(idx); r[.., j, ..] = step(idx, r[.., j-1, ..]).  The recursion is triggered by
    pairs of cells that occur, so that instantiation does not run down the axis by itself."""
    ks = [z3.Int(f"rf?{d}") for d in range(len(shape))]
    p = z3.Int("rf?p")
    rng = [z3.And(k >= 0, k < to_int(n)) for k, n in zip(ks, shape)]
    idx = tuple(ks)
    prev = tuple(ks[:ax]) + (p,) + tuple(ks[ax + 1:])
    rk, rp = r.get(idx), r.get(prev)
    nlv = len(ctx.loopvars)
    lv = list(ctx.loopvars)

    def unfold(app):
        """one-level unfolding at a term of the goal"""
        ch = app.children()
        t = ch[nlv:]
        if nlv and not all(u.eq(v) for u, v in zip(ch[:nlv], lv)):
            return True
        pr = (*t[:ax], t[ax] - 1, *t[ax + 1:])
        ok = z3.And(*[z3.And(k >= 0, k < to_int(n)) for k, n in zip(t, shape)])
        return z3.Implies(ok, z3.If(t[ax] == 0, to_bool(s_cmp("==", r.get(t), first(tuple(t))).v),
                                    to_bool(s_cmp("==", r.get(t), step(tuple(t), r.get(pr))).v)))
    if z3.is_app(rk.v):
        ctx.recs[rk.v.decl().name()] = unfold
    ctx.fact(z3.ForAll(ks, z3.Implies(z3.And(*rng, ks[ax] == 0), to_bool(s_cmp("==", rk, first(idx)).v)), patterns=[rk.v]))
    ctx.fact(z3.ForAll(ks + [p], z3.Implies(z3.And(*rng, p >= 0, p == ks[ax] - 1), to_bool(s_cmp("==", rk, step(idx, rp)).v)),
                       patterns=[z3.MultiPattern(rk.v, rp.v)]))


def rec_array(ctx, name, a, base, step, kind=None):
    """1-D recursively defined array: r[0]=base(a[0]); r[k]=step(r[k-1], a[k])."""
    if a.ndim != 1:
        raise Unsupported(f"{name} nd")
    kind = kind or a.kind
    key = ("rec", name, npm._canon(ctx, a))
    r = ctx.memo.get(key)
    if r is None:
        r = ctx.fresh_arr(name, kind, a.shape)
        ctx.memo[key] = r
        f = a.fn()
        rec_facts(ctx, r, a.shape, 0, lambda i: base(f(i)), lambda i, prev: step(prev, f(i)))
    return r


def _cummono(ctx, a, r, z, ax):
    """lemma (induction on the axis): sums of non-negative terms do not decrease"""
    f = a.fn()
    rest = [n for d, n in enumerate(a.shape) if d != ax]

    def at(o, j):
        o = list(o)
        o.insert(ax, j)
        return tuple(o)

    def mono(idx):
        o, i, j = idx[:-2], idx[-2], idx[-1]
        return z3.And(z3.Implies(to_int(i) <= to_int(j), to_real(r.get(at(o, i)).v) <= to_real(r.get(at(o, j)).v)),
                      to_real(r.get(at(o, i)).v) >= 0)
    n = a.shape[ax]
    k = tuple(z3.Int(f"cm?{d}") for d in range(a.ndim))
    gen = z3.And(*[z3.And(i >= 0, i < to_int(d)) for i, d in zip(k, a.shape)])
    if ctx.valid_quick(z3.Implies(gen, to_real(z(f(k)).v) >= 0)):
        ctx.fact(quant_nd("A", (*rest, n, n), mono))
        return

    def row(o):
        pos = quant("A", n, lambda j: to_bool(s_cmp(">=", z(f(at(o, j))), S.of(0)).v))
        return z3.Implies(to_bool(pos), to_bool(quant_nd("A", (n, n), lambda ij: mono((*o, *ij)))))
    ctx.fact(quant_nd("A", tuple(rest), row) if rest else row(()))


@reg(np.cumsum)
def _cumsum(ctx, a, axis=None, **kw):
    a = as_arr(ctx, a)
    if a.is_conc():
        return Arr.from_numpy((ma.cumsum if a.masked else np.cumsum)(a.to_numpy(), axis=axis))
    if kw:
        raise Unsupported("cumsum kw")
    if a.ndim == 1:
        k = "i" if a.kind in "bi" else "f"
        z = lambda s: s_ite(s.m, S(k, 0), S(k, s.cast(k).v, s.nan)) if s.m is not False else s.cast(k)
        new = ("rec", "cumsum", npm._canon(ctx, a)) not in ctx.memo
        r = rec_array(ctx, "cumsum", a, z, lambda p, x: p + z(x), kind=k)
        if new:
            _cummono(ctx, a, r, z, 0)
        if a.masked:
            f, g = a.fn(), r.fn()
            return Arr(a.shape, k, lambda idx: S(k, g(idx).v, g(idx).nan, f(idx).m), True, a.nomask)
        return r
    ax = axis if axis >= 0 else axis + a.ndim
    if a.ndim == 2:
        k = "i" if a.kind in "bi" else "f"
        f = a.fn()
        key = ("cumsum2", ax, npm._canon(ctx, a))
        r = ctx.memo.get(key)
        if r is None:
            r = ctx.fresh_arr("cumsum", k, a.shape)
            ctx.memo[key] = r
            z = lambda s: s_ite(s.m, S(k, 0), S(k, s.cast(k).v)) if s.m is not False else S(k, s.cast(k).v)
            if f(tuple(z3.Int(f"cs?{d}") for d in range(2))).nan is not False:
                raise Unsupported("cumsum of values that may be NaN")
            rec_facts(ctx, r, a.shape, ax, lambda i: z(f(i)), lambda i, prev: prev + z(f(i)))
            _cummono(ctx, a, r, z, ax)
        g = r.fn()
        return Arr(a.shape, k, lambda idx: S(k, g(idx).v, False, f(idx).m), a.masked, a.nomask)
    raise Unsupported("cumsum")


@reg(ma.cumsum)
def _macumsum(ctx, a, axis=None, **kw):
    r = _cumsum(ctx, a, axis, **kw)
    return r if r.masked else Arr(r.shape, r.kind, r.fn(), True, True)


@reg(np.maximum.accumulate)
def _maxacc(ctx, a, axis=0):
    a = as_arr(ctx, a)
    if a.is_conc():
        return Arr.from_numpy(np.maximum.accumulate(a.to_numpy(), axis=axis))
    if a.masked and a.nomask:
        f = a.fn()
        r = _maxacc(ctx, Arr(a.shape, a.kind, f), axis)
        return Arr(r.shape, r.kind, r.fn(), True, True)
    if a.masked or a.kind == "b":
        raise Unsupported("maximum.accumulate of this kind")
    ax = axis if axis >= 0 else axis + a.ndim
    key = ("maxacc", ax, npm._canon(ctx, a))
    r = ctx.memo.get(key)
    if r is not None:
        return r
    r = ctx.fresh_arr("maxacc", a.kind, a.shape)
    w = ctx.fresh_arr("maxacc_w", "i", a.shape)
    ctx.memo[key] = r
    f = a.fn()

    def at(idx, j):
        return tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:])

    def wit(idx):
        j = to_int(idx[ax])
        wv = w.get(idx).v
        return b_and(wv >= 0, wv <= j, s_cmp("==", r.get(idx), f(at(idx, wv))).v)

    def upper(idx):
        k = idx[-1]
        i = tuple(idx[:-1])
        return z3.Implies(to_int(k) <= to_int(i[ax]), to_bool(s_cmp("<=", f(at(i, k)), r.get(i)).v))
    ctx.fact(quant_nd("A", a.shape, wit))
    rec_facts(ctx, r, a.shape, ax, f, lambda i, prev: s_max(prev, f(i)))
    ctx.fact(quant_nd("A", (*a.shape, a.shape[ax]), upper))
    return r


def _app_of(t, k):
    """[t] when t is an uninterpreted function applied to k: usable as a trigger"""
    ok = is_z(t) and t.num_args() >= 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(x.eq(k) or not (x.num_args() or z3.is_var(x)) for x in t.children())
    return [t] if ok and any(x.eq(k) for x in t.children()) else []


@reg(np.argsort)
def _argsort(ctx, a, **kw):
    a = as_arr(ctx, a)
    if a.is_conc():
        return Arr.from_numpy(np.argsort(a.to_numpy(), **kw))
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    n = a.shape[0]
    f = a.fn()
    nm = ctx.name("nn")
    if ctx.loopvars:
        raise Unsupported("argsort in loop")
    p = z3.Function(nm, z3.IntSort(), z3.IntSort())
    q = z3.Function(nm + "_inv", z3.IntSort(), z3.IntSort())
    k, j = z3.Int("qk"), z3.Int("qj")
    N = to_int(n)
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(p(k) >= 0, p(k) < N, q(p(k)) == k)), patterns=[p(k)]))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(q(k) >= 0, q(k) < N, p(q(k)) == k)), patterns=[q(k), *_app_of(f((k,)).v, k)]))
    def val(i):
        s = f((i,))
        return s
    le = to_bool(s_cmp("<=", S(a.kind, val(p(k)).v), S(a.kind, val(p(j)).v)).v)
    # (masked values are sorted last by numpy.ma: not modelled)
    if a.masked and not a.nomask:
        raise Unsupported("argsort masked")
    ctx.fact(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j < N), le), patterns=[z3.MultiPattern(p(k), p(j))]))
    r = Arr((n,), "i", lambda idx: S("i", p(to_int(idx[0]))))
    r.attrs["perm"] = (p, q)
    return r


@reg(np.unique)
def _unique(ctx, a, return_index=False, **kw):
    a = as_arr(ctx, a)
    if a.is_conc():
        r = np.unique(a.to_numpy(), return_index=return_index, **kw)
        return tuple(_wrapres(x) for x in r) if isinstance(r, tuple) else _wrapres(r)
    if a.ndim != 1 or kw or (a.masked and not a.nomask) or ctx.loopvars:
        raise Unsupported("np.unique")
    n, f = a.shape[0], a.fn()
    if f((z3.Int("qi"),)).nan is not False:
        raise Unsupported("np.unique of nan")
    key = ("unique", npm._canon(ctx, a))
    r = ctx.memo.get(key)
    if r is None:
        m = ctx.fresh("nuniq", "i").v
        N = to_int(n)
        u = ctx.fresh_arr("uniq", a.kind, (m,))
        ix = ctx.fresh_arr("uniq_index", "i", (m,))
        q = z3.Function(ctx.name("uniq_inv"), z3.IntSort(), z3.IntSort())
        ctx.fact(z3.And(m >= 0, m <= N, (m == 0) == (N == 0)))
        j, k, i = z3.Int("qj"), z3.Int("qk"), z3.Int("qi")
        uj, ij = u.get((j,)), ix.get((j,)).v
        val = lambda i: S(a.kind, f((i,)).v)
        eq = lambda x, y: to_bool(s_cmp("==", x, y).v)
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(ij >= 0, ij < N, eq(val(ij), uj))), patterns=[ij]))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), eq(val(ij), uj)), patterns=[uj.v]))
        ctx.fact(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), to_bool(s_cmp("<", uj, u.get((k,))).v)), patterns=[z3.MultiPattern(uj.v, u.get((k,)).v)]))
        ctx.fact(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), to_bool(s_cmp("<", val(ij), val(ix.get((k,)).v)).v)), patterns=[z3.MultiPattern(ij, ix.get((k,)).v)]))
        ctx.fact(z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < m, i >= 0, i < ij), z3.Not(eq(val(i), val(ij))))))
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(q(i) >= 0, q(i) < m, eq(u.get((q(i),)), val(i)), eq(val(ix.get((q(i),)).v), val(i)))), patterns=[q(i), *_app_of(val(i).v, i)]))
        r = ctx.memo[key] = (u, ix)
    u, ix = r
    return (u, ix) if return_index else u


# builtins
@reg(len)
def _len(ctx, a):
    if isinstance(a, Arr):
        if a.ndim == 0:
            raise IRaise(TypeError("len() of unsized object"))
        d = a.shape[0]
        return S("i", d) if is_z(d) else d
    raise Unsupported(f"len of {type(a)}")


@reg(float)
def _float(ctx, a=0.0):
    a = unwrap(a) if isinstance(a, Arr) else a
    if isinstance(a, Arr):
        if all(is_one(d) for d in a.shape):
            return a.get((0,) * a.ndim).cast("f")
        raise IRaise(TypeError("only 0-dimensional arrays can be converted to Python scalars"))
    s = S.of(a)
    if s.m is not False:
        s = s.cast("f")
        return S("f", s.v, b_or(s.nan, s.m))
    return s.cast("f")


@reg(int)
def _int(ctx, a=0, *rest):
    s = S.of(unwrap(a) if isinstance(a, Arr) else a)
    return S(s.k, s.v).cast("i")


@reg(bool)
def _bool(ctx, a=False):
    if isinstance(a, Arr):
        if a.ndim == 1 and is_one(a.shape[0]):
            return S("b", a.get((0,)).bool())
        raise Unsupported("bool(array)")
    s = S.of(a)
    return S("b", b_and(s.bool(), b_not(s.m)))


@reg(min)
def _bmin(ctx, *args, **kw):
    return _bmm(ctx, s_cmp, "<", args, kw)


@reg(max)
def _bmax(ctx, *args, **kw):
    return _bmm(ctx, s_cmp, ">", args, kw)


def _bmm(ctx, cmp, op, args, kw):
    if kw:
        raise Unsupported("min/max kw")
    if len(args) == 1:
        if isinstance(args[0], Arr):
            if args[0].ndim == 1:
                return extremum(ctx, args[0], "min" if op == "<" else "max")
            raise Unsupported("min of nd array")
        args = list(args[0])
    r = S.of(args[0])
    for x in args[1:]:
        x = S.of(x)
        k = kmax(r.k, x.k)
        c = s_cmp(op, x, r)
        r = s_ite(c.bool(), x.cast(k), r.cast(k))
    return r


@reg(sum)
def _bsum(ctx, it, start=0):
    if isinstance(it, Arr):
        return reduce_sum(ctx, it)
    r = start
    for x in it:
        r = binop(ctx, "+", r, x)
    return r


@reg(any)
def _bany(ctx, it):
    if isinstance(it, Arr):
        return reduce_bool(ctx, ew(ctx, lambda x: S("b", truthy(ctx, x)), it, kind="b", masked=False), "E")
    for x in it:
        if ctx.branch(truthy(ctx, x)):
            return True
    return False


@reg(all)
def _ball(ctx, it):
    if isinstance(it, Arr):
        return reduce_bool(ctx, ew(ctx, lambda x: S("b", truthy(ctx, x)), it, kind="b", masked=False), "A")
    for x in it:
        if not ctx.branch(truthy(ctx, x)):
            return False
    return True


def truthy(ctx, x):
    """S/py truth value."""
    if isinstance(x, S):
        return b_and(x.bool(), b_not(x.m))
    if isinstance(x, Arr):
        if x.ndim == 0:
            return x.get(()).bool()
        if all(is_one(d) for d in x.shape):
            return x.get((0,) * x.ndim).bool()
        raise IRaise(ValueError("The truth value of an array with more than one element is ambiguous"))
    if isinstance(x, np.ndarray):
        try:
            return bool(x)
        except ValueError as e:
            raise IRaise(e) from e
    return bool(x)


def _ufunc_reduce(ufn):
    return None


@reg(np.logical_or.reduce, np.bitwise_or.reduce)
def _lorr(ctx, a, axis=0):
    return reduce_bool(ctx, a, "E", axis)


@reg(np.logical_and.reduce, np.bitwise_and.reduce)
def _landr(ctx, a, axis=0):
    return reduce_bool(ctx, a, "A", axis)


@reg(np.r_.__class__)
def _r(ctx, *a):
    raise Unsupported("np.r_")


@reg(np.ma.set_fill_value)
def _sfv(ctx, *a, **k):
    return None


@reg(np.flip)
def _flip(ctx, a, axis=None):
    a = as_arr(ctx, a)
    ax = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    return getitem(ctx, a, tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim)))


@reg(np.flipud)
def _flipud(ctx, a):
    return _flip(ctx, a, 0)


@reg(np.fliplr)
def _fliplr(ctx, a):
    return _flip(ctx, a, 1)


@reg(np.nan_to_num)
def _n2n(ctx, a, nan=0.0, **kw):
    return ew(ctx, lambda x: s_ite(x.nan, S(x.k, S.of(nan).cast(x.k).v, False, x.m), S(x.k, x.v, False, x.m)), a)


@reg(np.ediff1d)
def _ed(ctx, a):
    return _diff(ctx, a)


# --- array attributes & methods
def arr_attr(ctx, a: Arr, name):
    if name == "shape":
        return tuple(S("i", d) if is_z(d) else d for d in a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        n = a.size()
        return S("i", n) if is_z(n) else n
    if name == "T":
        return _transpose(ctx, a)
    if name == "dtype":
        return a.dtype
    if name == "mask":
        if not a.masked:
            raise IRaise(AttributeError("mask"))
        if a.nomask:
            return np.False_ if False else ma.nomask
        f = a.fn()
        return Arr(a.shape, "b", lambda idx: S("b", f(idx).m), sel=a.sel)
    if name == "data":
        if not a.masked:
            return BoundMethod(a, "data")
        return data_view(a)
    if name in METHODS:
        return BoundMethod(a, name)
    if name == "fill_value":
        return 1e20
    raise IRaise(AttributeError(name)) if not hasattr(np.ma.MaskedArray if a.masked else np.ndarray, name) else Unsupported(f"array attribute {name}")


class BoundMethod:
    def __init__(self, a, name):
        self.a, self.name = a, name

    def __call__(self, ctx, *args, **kw):
        return METHODS[self.name](ctx, self.a, *args, **kw)


def _m_fill(ctx, a, v):
    setitem(ctx, a, slice(None) if a.ndim == 1 else (slice(None),) * a.ndim, v)


def _m_filled(ctx, a, fill_value=None):
    return _filled(ctx, a, fill_value)


def _m_reshape(ctx, a, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if a.ndim == 1 and len(shape) == 2:
        if shape == (-1, 1):
            return getitem(ctx, a, (slice(None), None))
        if shape == (1, -1):
            return getitem(ctx, a, (None, slice(None)))
    raise Unsupported("reshape")


def _m_tolist(ctx, a):
    if a.ndim == 1 and not a.conc_shape() and not a.masked:
        from .interp import SymList
        return SymList(a.copy())
    if not a.conc_shape() or a.ndim != 1:
        raise Unsupported("tolist symbolic")
    return [a.get((i,)) for i in range(a.shape[0])]


def _m_item(ctx, a, *args):
    if all(is_one(d) for d in a.shape):
        return a.get((0,) * a.ndim)
    raise Unsupported("item")


def _m_astype(ctx, a, dtype, **kw):
    return astype(ctx, a, dtype)


def _m_flatten(ctx, a, *args):
    if a.ndim == 1:
        return a.copy()
    raise Unsupported("flatten nd")


def _m_mean(ctx, a, axis=None, **kw):
    return _mean(ctx, a, axis, **kw)


METHODS = {
    "copy": lambda ctx, a, *x: a.copy(),
    "any": _any,
    "all": _all,
    "sum": lambda ctx, a, axis=None, **kw: (_masum if a.masked else _sum)(ctx, a, axis, **kw),
    "mean": _m_mean,
    "max": _max,
    "min": _min,
    "std": lambda ctx, a, axis=None: H[np.std](ctx, a, axis),
    "argmin": lambda ctx, a, axis=None: H[np.argmin](ctx, a, axis),
    "argmax": lambda ctx, a, axis=None: H[np.argmax](ctx, a, axis),
    "astype": _m_astype,
    "filled": _m_filled,
    "fill": _m_fill,
    "compressed": _compressed,
    "reshape": _m_reshape,
    "tolist": _m_tolist,
    "item": _m_item,
    "flatten": _m_flatten,
    "ravel": _m_flatten,
    "squeeze": _squeeze,
    "transpose": _transpose,
    "nonzero": lambda ctx, a: _nonzero(ctx, a),
    "round": _round,
    "count": _count,
    "cumsum": _cumsum,
    "diff": _diff,
    "clip": _clip,
    "argsort": _argsort,
    "searchsorted": _searchsorted,
    "repeat": _repeat,
    "unshare_mask": lambda ctx, a: None,
}
