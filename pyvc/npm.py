"""Model of the numpy / numpy.ma operations used by cloudnetpy."""

from __future__ import annotations

import math

import numpy as np
import z3
from numpy import ma

from . import core
from .core import (
    Arr, Fn, S, Unsupported, b_and, b_ite, b_not, b_or, dnorm, is_one, is_z, kmax,
    s_abs, s_arith, s_bit, s_cmp, s_fun, s_ite, s_pow, to_bool, to_int, to_real, ufun,
)
from .ctx import ConcSel, IRaise, Sel, quant, quant_nd, sum_term
from . import ctx as C

MASKED = S("f", 0.0, False, True)


def is_masked_const(x):
    return x is ma.masked or (isinstance(x, S) and x.m is True)


def as_arr(ctx, x, masked=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, S):
        return Arr((), x.k, lambda idx: x, x.m is not False, x.m is False)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biuf":
            return Arr.from_numpy(x)
        raise Unsupported(f"array dtype {x.dtype}")
    if isinstance(x, (list, tuple)):
        return stack_list(ctx, x)
    if isinstance(x, (bool, int, float, np.generic)) or x is ma.masked:
        s = S.of(x)
        return Arr((), s.k, lambda idx: s, s.m is not False, s.m is False)
    if isinstance(x, range):
        return Arr.from_numpy(np.array(x))
    raise Unsupported(f"array from {type(x)}")


def stack_list(ctx, x):
    items = list(x)
    if not items:
        return Arr.from_numpy(np.array([]))
    if all(isinstance(i, (bool, int, float, np.generic)) for i in items):
        return Arr.from_numpy(np.array(items))
    arrs = [as_arr(ctx, i) for i in items]
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh):
            raise Unsupported("ragged list")
        for p, q in zip(a.shape, sh):
            if not ctx.same_dim(p, q):
                raise Unsupported("ragged list")
    k = arrs[0].kind
    for a in arrs:
        k = kmax(k, a.kind)
    fs = [a.fn() for a in arrs]

    def fn(idx):
        i = idx[0]
        if not is_z(i):
            return fs[int(i)](tuple(idx[1:])).cast(k)
        r = fs[-1](tuple(idx[1:])).cast(k)
        for j in range(len(fs) - 2, -1, -1):
            r = s_ite(i == j, fs[j](tuple(idx[1:])).cast(k), r)
        return r

    # np.array(list of masked) drops masks
    return Arr((len(arrs), *sh), k, lambda idx: _strip(fn(idx)))


def _strip(s):
    return S(s.k, s.v, s.nan) if s.m is not False else s


def unwrap(a):
    """0-d Arr -> S."""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.get(())
    return a


def broadcast_shapes(ctx, shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0:
                continue
            n = s[j]
            if is_one(n):
                continue
            if is_one(cur):
                cur = n
                continue
            t = core.dim_eq(cur, n)
            if t is True:
                continue
            if t is False:
                raise IRaise(ValueError("operands could not be broadcast together"))
            if ctx.valid_quick(t):
                continue
            # symbolic dims: may be equal, or one of them 1
            if ctx.branch(t):
                continue
            if ctx.branch(to_int(n) == 1):
                raise Unsupported(f"broadcast of a symbolic dimension equal to one: {cur} {n}")
            if ctx.branch(to_int(cur) == 1):
                raise Unsupported(f"broadcast of a symbolic dimension equal to one: {cur} {n}")
            raise IRaise(ValueError("operands could not be broadcast together"))
        out.append(cur)
    return tuple(out)


def bfn(a: Arr, shape):
    """element function of a broadcast to shape."""
    f = a.fn()
    off = len(shape) - a.ndim
    ones = [is_one(d) and not is_one(shape[off + i]) for i, d in enumerate(a.shape)]
    if off == 0 and not any(ones):
        return f
    return lambda idx: f(tuple(0 if ones[i] else idx[off + i] for i in range(a.ndim)))


def merge_sel(arrs, shape):
    sel = [None] * len(shape)
    for a in arrs:
        if a.sel:
            off = len(shape) - a.ndim
            for i, s in enumerate(a.sel):
                if s is not None and not is_one(a.shape[i]):
                    sel[off + i] = s
    return sel if any(s is not None for s in sel) else None


def ew(ctx, f, *args, kind=None, masked=None, keepsel=True):
    """elementwise application; f works on S."""
    if not any(isinstance(a, (Arr, np.ndarray, list, tuple)) for a in args):
        return f(*[S.of(a) for a in args])
    arrs = [as_arr(ctx, a) for a in args]
    shape = broadcast_shapes(ctx, [a.shape for a in arrs])
    fs = [bfn(a, shape) for a in arrs]
    if masked is None:
        masked = any(a.masked for a in arrs)
    nomask = all(a.nomask for a in arrs)
    g = lambda idx: f(*[h(idx) for h in fs])
    if kind is None:
        probe = f(*[_probe(a.kind) for a in arrs])
        kind = probe.k
    if masked:
        fn = lambda idx: g(idx).cast(kind)
    else:
        fn = lambda idx: _strip(g(idx).cast(kind))
    return unwrap(Arr(shape, kind, fn, masked, nomask, sel=merge_sel(arrs, shape)))


def _probe(k):
    return S(k, {"b": True, "i": 1, "f": 1.0}[k])


# ------------------------------------------------------------ binary operators
def _isarr(x):
    return isinstance(x, (Arr, np.ndarray))


def _ma_arith(op):
    def f(a, b):
        r = s_arith(op, a, b)
        m = r.m
        if op in ("/", "//", "%"):
            # numpy.ma domained operation: non-finite results are masked
            m = b_or(m, r.nan)
            if not is_z(r.v) and isinstance(r.v, float) and math.isinf(r.v):
                m = True
            if m is True:
                return S(r.k, a.cast(r.k).v, False, True)
            return s_ite(b_and(m), S(r.k, a.cast(r.k).v, False, True), S(r.k, r.v, False, m)) if m is not False else S(r.k, r.v, r.nan, False)
        if m is False:
            return r
        if m is True:
            return S(r.k, a.cast(r.k).v, a.nan, True)
        keep = s_ite(m, S(r.k, a.cast(r.k).v, a.nan), S(r.k, r.v, r.nan))
        return S(r.k, keep.v, keep.nan, m)
    return f


def binop(ctx, op, a, b):
    arr = _isarr(a) or _isarr(b) or isinstance(a, S) or isinstance(b, S)
    if isinstance(a, (list, tuple)) and not _isarr(b) and not isinstance(b, S):
        return None
    masked = any(isinstance(x, Arr) and x.masked or isinstance(x, ma.MaskedArray) for x in (a, b))
    anyarr = _isarr(a) or _isarr(b)
    if op in ("+", "-", "*", "/", "//", "%"):
        if not anyarr:
            x, y = S.of(a), S.of(b)
            if op in ("/", "//", "%") and x.m is False and y.m is False:
                if ctx.branch(s_cmp("==", y, 0)):
                    # python scalars raise, numpy scalars warn; treat as exceptional
                    if x.k == "f" or y.k == "f" or op == "/":
                        return S("f", 0.0, True)
                    raise IRaise(ZeroDivisionError("division by zero"))
                r = s_arith(op, x, y)
                return S(r.k, r.v, b_or(x.nan, y.nan), False)
            return s_arith(op, x, y)
        if masked and op in ("+", "-", "*", "/", "//"):
            return _boolfix(ctx, op, a, b, _ma_arith(op))
        if masked and op == "%":
            return _boolfix(ctx, op, a, b, _ma_arith(op))
        return _boolfix(ctx, op, a, b, lambda x, y: s_arith(op, x, y))
    if op == "**":
        if masked:
            def f(x, y):
                r = s_pow(x, y)
                m = b_or(r.m, r.nan)
                return S(r.k, r.v, False, m)
            return ew(ctx, f, a, b)
        return ew(ctx, s_pow, a, b)
    if op in ("&", "|", "^"):
        return ew(ctx, lambda x, y: s_bit(op, x, y), a, b)
    if op in ("<<", ">>"):
        raise Unsupported("symbolic shift")
    raise Unsupported(op)


def _boolfix(ctx, op, a, b, f):
    """numpy bool arithmetic: + is or, * is and (when both are boolean arrays)."""
    def kind(x):
        if isinstance(x, Arr):
            return x.kind
        if isinstance(x, np.ndarray):
            return {"b": "b", "i": "i", "u": "i", "f": "f"}[x.dtype.kind]
        if isinstance(x, (list, tuple)):
            return None
        return S.of(x).k
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        if op == "+":
            return ew(ctx, lambda x, y: s_bit("|", x, y), a, b)
        if op == "*":
            return ew(ctx, lambda x, y: s_bit("&", x, y), a, b)
        if op == "-":
            raise IRaise(TypeError("numpy boolean subtract"))
    return ew(ctx, f, a, b)


def cmpop(ctx, op, a, b):
    anyarr = _isarr(a) or _isarr(b)
    if not anyarr and not (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))):
        return s_cmp(op, S.of(a), S.of(b))
    masked = any(isinstance(x, Arr) and x.masked or isinstance(x, ma.MaskedArray) for x in (a, b))
    if masked and op in ("==", "!="):
        def f(x, y):
            r = s_cmp(op, S(x.k, x.v, x.nan), S(y.k, y.v, y.nan))
            m = b_or(x.m, y.m)
            if m is False:
                return r
            both = core._beq(x.m, y.m)
            alt = both if op == "==" else b_not(both)
            return S("b", b_ite(m, alt, r.v), False, m)
        return ew(ctx, f, a, b, kind="b")
    return ew(ctx, lambda x, y: s_cmp(op, x, y), a, b, kind="b")


def unop(ctx, op, a):
    if isinstance(a, np.ndarray):
        a = Arr.from_numpy(a)
    if op == "~":
        return ew(ctx, lambda x: ~x, a)
    if op == "-":
        return ew(ctx, lambda x: s_arith("-", 0, x) if x.k != "b" else x, a)
    if op == "+":
        return a
    raise Unsupported(op)


# ------------------------------------------------------------ indexing
def norm_index(ctx, i, n, what="index"):
    """S/py int index on a dimension n; bounds are obligations (IndexError path)."""
    if isinstance(i, S):
        if i.m is not False:
            raise Unsupported("masked index")
        i = i.v
    if isinstance(i, np.integer):
        i = int(i)
    if not is_z(i):
        i = int(i)
        if i < 0:
            ok = (to_int(n) + i >= 0) if is_z(n) else (n + i >= 0)
            if not ctx.branch(ok):
                raise IRaise(IndexError(what))
            return dnorm(to_int(n) + i) if is_z(n) else n + i
        ok = (to_int(n) > i) if is_z(n) else (n > i)
        if not ctx.branch(ok):
            raise IRaise(IndexError(what))
        return i
    inb = z3.And(i >= 0, i < to_int(n))
    if ctx.valid_quick(inb):
        return i
    if ctx.branch(i >= 0):
        if not ctx.branch(i < to_int(n)):
            raise IRaise(IndexError(what))
        return i
    if not ctx.branch(i + to_int(n) >= 0):
        raise IRaise(IndexError(what))
    return z3.simplify(i + to_int(n))


def _sv(x):
    if isinstance(x, S):
        if x.k == "f":
            raise IRaise(TypeError("slice indices must be integers"))
        return x.v
    if isinstance(x, np.integer):
        return int(x)
    return x


def imin(a, b):
    if not is_z(a) and not is_z(b):
        return min(a, b)
    a, b = to_int(a), to_int(b)
    return z3.If(a <= b, a, b)


def imax(a, b):
    if not is_z(a) and not is_z(b):
        return max(a, b)
    a, b = to_int(a), to_int(b)
    return z3.If(a >= b, a, b)


def slice_bounds(ctx, s, n):
    """(lo, length, step) for a slice object on dimension n."""
    start, stop, step = _sv(s.start), _sv(s.stop), _sv(s.step)
    if step is None:
        step = 1
    if is_z(step):
        raise Unsupported("symbolic step")
    if not is_z(n) and not is_z(start) and not is_z(stop):
        lo, hi, st = slice(start, stop, step).indices(n)
        return lo, len(range(lo, hi, st)), st
    if step == -1 and start is None and stop is None:
        return to_int(n) - 1, n, -1
    if step < 1:
        raise Unsupported("negative step")

    def clampv(v, default):
        if v is None:
            return default
        if not is_z(v):
            if v >= 0:
                if v == 0:
                    return 0
                if ctx.valid_quick(to_int(n) >= v):
                    return v
                return imin(v, n)
            if ctx.valid_quick(to_int(n) >= -v):
                return to_int(n) + v
            return imax(0, to_int(n) + v)
        if ctx.valid_quick(z3.And(v >= 0, v <= to_int(n))):
            return v
        w = z3.If(v < 0, v + to_int(n), v)
        return imax(0, imin(w, n))

    lo = clampv(start, 0)
    hi = clampv(stop, n)
    lo, hi = dnorm(lo), dnorm(hi)
    if not is_z(lo) and lo == 0:
        ln = hi
    else:
        ln = dnorm(to_int(hi) - to_int(lo))
        if is_z(ln):
            if not ctx.valid_quick(ln >= 0):
                ln = imax(0, ln)
        else:
            ln = max(0, ln)
    if step != 1:
        ln = (ln + step - 1) // step if not is_z(ln) else (ln + (step - 1)) / step
    return lo, dnorm(ln), step


def expand_key(arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nax = 0
    for k in key:
        if k is Ellipsis or k is None:
            continue
        if isinstance(k, (Arr, np.ndarray)) and _karr(k).kind == "b":
            nax += _karr(k).ndim
        else:
            nax += 1
    out = []
    seen = False
    for k in key:
        if k is Ellipsis and not seen:
            out.extend([slice(None)] * (arr.ndim - nax))
            seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (arr.ndim - nax))
    return out


def _karr(k):
    return Arr.from_numpy(k) if isinstance(k, np.ndarray) else k


def _prep_key(ctx, key):
    out = []
    for k in key:
        if isinstance(k, np.ndarray):
            k = Arr.from_numpy(k)
        if isinstance(k, (list, tuple)):
            if len(k) == 0:
                k = Arr((0,), "i", lambda idx: S("i", 0))
            else:
                k = as_arr(ctx, list(k))
        if isinstance(k, Arr) and k.ndim == 0:
            k = k.get(())
        if isinstance(k, S) and k.k == "b":
            raise Unsupported("boolean scalar index")
        if isinstance(k, S) and k.k == "f":
            raise IRaise(IndexError("float index"))
        if isinstance(k, Arr) and k.kind == "f":
            if not is_z(k.shape[0]) and k.shape[0] == 0:
                k = Arr((0,), "i", lambda idx: S("i", 0))
            else:
                raise IRaise(IndexError("arrays used as indices must be of integer (or boolean) type"))
        out.append(k)
    return out


def getitem(ctx, a: Arr, key):
    if a.ndim == 0 and (key == () or key is Ellipsis):
        return a.get(())
    if key is ma.masked:
        raise Unsupported("index by masked")
    kb = _boolscalar(key)
    if kb is not None:
        if is_z(kb):
            raise Unsupported("get by a symbolic boolean scalar")
        if kb:
            return getitem(ctx, a, (None, Ellipsis)) if a.ndim else Arr((1,), a.kind, lambda i: a.get(()), a.masked, a.nomask)
        f = a.fn()
        return Arr((0, *a.shape), a.kind, lambda i: f(tuple(i[1:])), a.masked, a.nomask)
    key = expand_key(a, key)
    key = _prep_key(ctx, key)
    n_ax = sum((k.ndim if isinstance(k, Arr) and k.kind == "b" else 0 if k is None else 1) for k in key)
    if n_ax > a.ndim:
        raise IRaise(IndexError("too many indices"))
    if not any(isinstance(k, Arr) for k in key):
        return _basic(ctx, a, key)
    return _fancy_get(ctx, a, key)


def _boolscalar(key):
    """value of a 0-d boolean index, else None"""
    if isinstance(key, (bool, np.bool_)):
        return bool(key)
    if isinstance(key, S) and key.k == "b":
        return key.bool()
    if isinstance(key, Arr) and key.ndim == 0 and key.kind == "b":
        return key.get(()).bool()
    return None


def _basic(ctx, a, key):
    shape, plan, sel = [], [], []
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            sel.append(None)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            lo, ln, st = slice_bounds(ctx, k, n)
            plan.append(("s", lo, st, len(shape), ln))
            shape.append(ln)
            sel.append(a.sel[ax] if a.sel and lo is not None and not is_z(lo) and lo == 0 and st == 1 and core.dim_eq(ln, n) is True else None)
        else:
            if not isinstance(k, (int, np.integer, S)):
                raise Unsupported(f"index {type(k)}")
            plan.append(("i", norm_index(ctx, k, n)))
        ax += 1

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == "i":
                out.append(p[1])
            else:
                _, lo, st, pos, _ = p
                i = idx[pos]
                if st == 1 and not is_z(lo) and lo == 0:
                    out.append(i)
                elif not is_z(lo) and not is_z(i):
                    out.append(int(lo) + st * int(i))
                else:
                    out.append(z3.simplify(to_int(lo) + (to_int(i) * st if st != 1 else to_int(i))))
        return tuple(out)

    rank = len(shape)
    new_axes = [i for i in range(rank) if i not in [p[3] for p in plan if p[0] == "s"]]

    def inv(bidx):
        conds = []
        loc = [0] * rank
        for p, b in zip(plan, bidx):
            if p[0] == "i":
                conds.append(_ieq(b, p[1]))
            else:
                _, lo, st, pos, ln = p
                if st == 1:
                    if not is_z(lo) and lo == 0 and core.dim_eq(ln, a.shape[plan.index(p)]) is True:
                        loc[pos] = b
                        continue
                    if not is_z(b) and not is_z(lo) and not is_z(ln):
                        conds.append(lo <= b < lo + ln)
                        loc[pos] = b - lo
                    else:
                        conds.append(z3.And(to_int(b) >= to_int(lo), to_int(b) < to_int(lo) + to_int(ln)))
                        loc[pos] = z3.simplify(to_int(b) - to_int(lo))
                else:
                    if not is_z(b) and not is_z(lo) and not is_z(ln):
                        q, r = divmod(b - lo, st)
                        conds.append(r == 0 and 0 <= q < ln)
                        loc[pos] = q
                    else:
                        d = (to_int(b) - to_int(lo)) if st > 0 else (to_int(lo) - to_int(b))
                        ast = abs(st)
                        q = d / ast if ast != 1 else d
                        c = [q >= 0, q < to_int(ln)]
                        if ast != 1:
                            c.append(d % ast == 0)
                        conds.append(z3.And(*c))
                        loc[pos] = z3.simplify(q)
        return b_and(*conds), tuple(loc)

    if rank == 0:
        s = a.get(fwd(()))
        return s
    r = Arr(shape, a.kind, None, a.masked, a.nomask, a.dtype, view=(a, fwd, inv), sel=sel if any(sel) else None)
    return r


def _ieq(a, b):
    if not is_z(a) and not is_z(b):
        return int(a) == int(b)
    t = to_int(a) == to_int(b)
    if to_int(a).eq(to_int(b)):
        return True
    return t


class SelIdx:
    """joint selection over axes [ax, ax+nd) of the array"""
    def __init__(self, sel, ax, nd):
        self.sel, self.ax, self.nd = sel, ax, nd


def coord_arr(ctx, sel, d):
    """index array of coordinate d of a selection."""
    a = Arr((sel.n,), "i", lambda idx: S("i", sel.coords(idx[0])[d]), sel=[sel])
    a.attrs["coord"] = (sel, d)
    return a


def _analyse_fancy(ctx, a, key):
    """-> list of axis plans. kinds: ('i',v) ('s',lo,ln,st) ('sel',Sel,nd) ('arr',Arr) ('new',)"""
    plans = []
    ax = 0
    j = 0
    while j < len(key):
        k = key[j]
        if k is None:
            plans.append(("new",))
            j += 1
            continue
        if isinstance(k, Arr) and k.kind == "b":
            for d in range(k.ndim):
                if not ctx.same_dim(k.shape[d], a.shape[ax + d]):
                    raise IRaise(IndexError("boolean index did not match"))
            plans.append(("sel", ctx.selection(_plainmask(k)), k.ndim))
            ax += k.ndim
            j += 1
            continue
        if isinstance(k, Arr):
            co = k.attrs.get("coord")
            if co is not None:
                sel, d = co
                nd = len(sel.shape)
                if nd == 1 and ctx.same_dim(sel.shape[0], a.shape[ax]):
                    plans.append(("sel", sel, 1))
                    ax += 1
                    j += 1
                    continue
                # joint coordinates
                ok = d == 0 and j + nd <= len(key)
                for q in range(nd):
                    if not ok:
                        break
                    kk = key[j + q]
                    c2 = kk.attrs.get("coord") if isinstance(kk, Arr) else None
                    ok = c2 is not None and c2[0] is sel and c2[1] == q and ctx.same_dim(sel.shape[q], a.shape[ax + q])
                if ok:
                    plans.append(("sel", sel, nd))
                    ax += nd
                    j += nd
                    continue
            plans.append(("arr", k, a.shape[ax]))
            ax += 1
            j += 1
            continue
        if isinstance(k, slice):
            lo, ln, st = slice_bounds(ctx, k, a.shape[ax])
            plans.append(("s", lo, ln, st, a.shape[ax]))
        else:
            plans.append(("i", norm_index(ctx, k, a.shape[ax])))
        ax += 1
        j += 1
    return plans


def _plainmask(k):
    """boolean index: numpy uses the raw data of a masked boolean array."""
    if not k.masked:
        return k
    f = k.fn()
    return Arr(k.shape, "b", lambda idx: _strip(f(idx)))


def _fancy_get(ctx, a, key):
    plans = _analyse_fancy(ctx, a, key)
    nadv = [p for p in plans if p[0] in ("sel", "arr")]
    # several index arrays are broadcast together; supported: one sel, or several arrs 1-D/2-D joint
    f = a.fn()
    shape, sel = [], []
    steps = []
    if len(nadv) == 1 or all(p[0] == "arr" for p in nadv):
        if len(nadv) > 1:
            jshape = broadcast_shapes(ctx, [p[1].shape for p in nadv])
            # adjacency: advanced indices (ints count as advanced) contiguous
            pos = [i for i, p in enumerate(plans) if p[0] in ("arr", "i")]
            contiguous = pos == list(range(pos[0], pos[-1] + 1))
        else:
            jshape = None
            pos = [i for i, p in enumerate(plans) if p[0] in ("arr", "sel", "i")]
            contiguous = pos == list(range(pos[0], pos[-1] + 1))
        if not contiguous:
            raise Unsupported("non adjacent advanced indices")
        jpos = None
        for p in plans:
            if p[0] == "new":
                shape.append(1)
                sel.append(None)
            elif p[0] == "i":
                steps.append(("i", p[1]))
            elif p[0] == "s":
                steps.append(("s", p[1], p[3], len(shape)))
                shape.append(p[2])
                sel.append(None)
            elif p[0] == "sel":
                steps.append(("sel", p[1], len(shape)))
                shape.append(p[1].n)
                sel.append(p[1])
            else:
                k = p[1]
                _check_bounds(ctx, k, p[2])
                if jshape is None:
                    steps.append(("arr", k.fn(), len(shape), k.ndim, p[2], [False] * k.ndim))
                    shape.extend(k.shape)
                    sel.extend(k.sel or [None] * k.ndim)
                else:
                    if jpos is None:
                        jpos = len(shape)
                        shape.extend(jshape)
                        sel.extend([None] * len(jshape))
                    steps.append(("arr", bfn(k, jshape), jpos, len(jshape), p[2], None))
    else:
        raise Unsupported("mixed advanced indexing")

    def fn(idx):
        out = []
        for st in steps:
            if st[0] == "i":
                out.append(st[1])
            elif st[0] == "s":
                lo, step, pos = st[1], st[2], st[3]
                i = idx[pos]
                if not is_z(lo) and not is_z(i):
                    out.append(int(lo) + step * int(i))
                else:
                    out.append(z3.simplify(to_int(lo) + to_int(i) * step))
            elif st[0] == "sel":
                out.extend(st[1].coords(idx[st[2]]))
            else:
                v = st[1](tuple(idx[st[2]: st[2] + st[3]]))
                n = st[4]
                w = v.v
                if is_z(w):
                    if not st_nonneg(ctx, w):
                        w = z3.If(w < 0, w + to_int(n), w)
                else:
                    w = int(w)
                    if w < 0:
                        w = dnorm(to_int(n) + w) if is_z(n) else n + w
                out.append(w)
        return f(tuple(out))

    return Arr(shape, a.kind, fn, a.masked, a.nomask, a.dtype, sel=sel if any(sel) else None)


def st_nonneg(ctx, w):
    # structurally non-negative index terms (coordinates of a selection, constants)
    if z3.is_int_value(w):
        return w.as_long() >= 0
    if z3.is_app(w) and w.decl().name().startswith(("sel!", "nn!")):
        return True
    return ctx.valid_quick(w >= 0)


def _check_bounds(ctx, k, n):
    """every element of the index array k is a valid index for dimension n."""
    def p(idx):
        v = k.get(idx)
        w = to_int(v.v)
        if not is_z(v.v):
            return (to_int(n) > v.v) if v.v >= 0 else (to_int(n) + v.v >= 0)
        return z3.And(w < to_int(n), w >= -to_int(n))
    t = quant_nd("A", k.shape, p)
    if not is_z(t):
        if not t:
            raise IRaise(IndexError("index out of bounds"))
        return
    t = to_bool(t)
    if z3.is_true(z3.simplify(t)) if not C.has_quant(t) else False:
        return
    ctx.index_checks = getattr(ctx, "index_checks", [])
    if getattr(ctx, "catching", 0):
        # inside try/except IndexError: both outcomes are paths of the program
        if not ctx.branch(t):
            raise IRaise(IndexError("index out of bounds"))
        return
    # obligation: in bounds (an out-of-bounds access would raise IndexError)
    ctx.oblige("index in bounds", t)
    ctx.assume(t)


def masked_setval(a, kind):
    return None


def setitem(ctx, a: Arr, key, val):
    if isinstance(val, np.ndarray) and val is not ma.masked:
        val = Arr.from_numpy(val)
    if isinstance(val, (list, tuple)):
        val = as_arr(ctx, val)
    mconst = val is ma.masked or (isinstance(val, S) and val.m is True)
    if isinstance(val, Arr) and val.ndim == 0:
        val = val.get(())
    if mconst and not a.masked:
        raise Unsupported("assigning masked to a plain array")
    if isinstance(val, S) and val.m is not False and not a.masked:
        val = _strip(val)
    # numpy.ma: an assignment through a masked array leaves the mask of the target as it is
    keep = isinstance(key, Arr) and key.masked and not (isinstance(val, Arr) and val.masked) and not mconst and a.masked
    kb = _boolscalar(key)
    if kb is not None:
        if kb is False:
            return
        if isinstance(val, Arr):
            while val.ndim > a.ndim and is_one(val.shape[0]):
                val = getitem(ctx, val, 0)
            if isinstance(val, Arr) and is_z(kb):
                raise Unsupported("set an array by a symbolic boolean scalar")
        if kb is True:
            key = Ellipsis
        elif a.ndim == 0:
            if isinstance(val, Arr) or mconst:
                raise Unsupported("set a 0-d array by a symbolic boolean")
            old0, new0 = a.get(()), S.of(val).cast(a.kind)
            v0 = s_ite(kb, new0, old0)
            a.set_fn(lambda idx: v0, mask_touched=v0.m is not False)
            return
        else:
            key = Arr(a.shape, "b", lambda idx: S("b", kb))
    if isinstance(key, tuple) and not isinstance(val, Arr):
        # a nested 1-tuple of a 1-d index array selects through a (1, n) array: for a scalar value the same cells
        key = tuple(k[0] if isinstance(k, (tuple, list)) and len(k) == 1 and isinstance(k[0], Arr) and k[0].ndim == 1 and k[0].kind == "i" else k for k in key)
    key = expand_key(a, key)
    key = _prep_key(ctx, key)
    old = a.fn()
    kind = a.kind
    if kind == "i" and isinstance(val, (float,)):
        val = S.of(val).cast("i")

    if a.ndim == 0:
        v = S.of(val).cast(kind)
        a.set_fn(lambda idx: v, mask_touched=v.m is not False)
        return

    # plan per axis
    plans = _analyse_fancy(ctx, a, key)
    rshape = []
    for p in plans:
        if p[0] == "s":
            rshape.append(("s", p[2]))
        elif p[0] == "sel":
            rshape.append(("sel", p[1].n))
        elif p[0] == "new":
            rshape.append(("new", 1))
        elif p[0] == "arr":
            if p[1].ndim != 1:
                raise Unsupported("setitem with n-d index array")
            rshape.append(("arr", p[1].shape[0]))
    adv = [p for p in plans if p[0] in ("sel", "arr")]
    joint = None
    if len(adv) > 1:
        joint = adv
        if isinstance(val, Arr):
            raise Unsupported("setitem array through several index arrays")

    def locate(idx):
        """(cond, list of result coordinates) for base index idx."""
        conds, loc = [], []
        ax = 0
        for p in plans:
            if p[0] == "i":
                conds.append(_ieq(idx[ax], p[1]))
                ax += 1
            elif p[0] == "s":
                lo, ln, st, n = p[1], p[2], p[3], p[4]
                b = idx[ax]
                if st == 1 and not is_z(lo) and lo == 0 and core.dim_eq(ln, n) is True:
                    loc.append(b)
                elif not is_z(b) and not is_z(lo) and not is_z(ln):
                    q, r = divmod(b - lo, st)
                    conds.append(r == 0 and 0 <= q < ln)
                    loc.append(q)
                else:
                    if st < 0:
                        d = to_int(lo) - to_int(b)
                    else:
                        d = to_int(b) - to_int(lo)
                    ast = abs(st)
                    q = d / ast if ast != 1 else d
                    c = [q >= 0, q < to_int(ln)]
                    if ast != 1:
                        c.append(d % ast == 0)
                    conds.append(z3.And(*c))
                    loc.append(z3.simplify(q))
                ax += 1
            elif p[0] == "sel":
                sel, nd = p[1], p[2]
                sub = tuple(idx[ax: ax + nd])
                if isinstance(sel, ConcSel):
                    if any(is_z(i) for i in sub):
                        c = b_or(*[b_and(*[_ieq(x, y) for x, y in zip(sub, row)]) for row in sel.idxs])
                        conds.append(c)
                        loc.append(("conc", sel, sub))
                    else:
                        hit = tuple(int(i) for i in sub) in sel._rank
                        conds.append(hit)
                        loc.append(sel.rank(sub) if hit else 0)
                else:
                    conds.append(to_bool(sel.maskfn(sub)))
                    loc.append(("rank", sel, sub))
                ax += nd
            elif p[0] == "arr":
                if joint is None:
                    k, n = p[1], p[2]
                    b = idx[ax]
                    def eqk(kk, k=k, b=b, n=n):
                        v = k.get((kk,)).v
                        if not is_z(v):
                            v = int(v)
                            if v < 0:
                                v = dnorm(to_int(n) + v) if is_z(n) else n + v
                            return _ieq(b, v)
                        if not st_nonneg(ctx, v):
                            v = z3.If(v < 0, v + to_int(n), v)
                        return _ieq(b, v)
                    cnt = k.shape[0]
                    conds.append(quant("E", cnt, eqk))
                    if not is_z(cnt) and cnt <= 64:
                        # last write wins
                        pos = 0
                        for kk in range(int(cnt)):
                            c = eqk(kk)
                            if not is_z(c):
                                pos = kk if c else pos
                            else:
                                pos = z3.If(c, z3.IntVal(kk), to_int(pos))
                        loc.append(pos)
                    else:
                        loc.append(("exists", k, b))
                ax += 1
        if joint is not None:
            axes = []
            ax2 = 0
            for p in plans:
                if p[0] == "arr":
                    axes.append((p[1], ax2, p[2]))
                ax2 += p[2] if p[0] == "sel" else (0 if p[0] == "new" else 1)
            if any(p[0] == "sel" for p in joint):
                raise Unsupported("setitem mask and index array")
            js = broadcast_shapes(ctx, [k.shape for k, _, _ in axes])
            if len(js) != 1:
                raise Unsupported("joint n-d")
            fs = [(bfn(k, js), q, n) for k, q, n in axes]
            def eqj(kk):
                cs = []
                for g, q, n in fs:
                    v = g((kk,)).v
                    if is_z(v) and not st_nonneg(ctx, v):
                        v = z3.If(v < 0, v + to_int(n), v)
                    elif not is_z(v) and v < 0:
                        v = dnorm(to_int(n) + v)
                    cs.append(_ieq(idx[q], v))
                return b_and(*cs)
            conds.append(quant("E", js[0], eqj))
        return b_and(*conds), loc

    for p in plans:
        if p[0] == "arr":
            _check_bounds(ctx, p[1], p[2])

    masked_target = a.masked
    if isinstance(val, Arr):
        vsh = val.shape
        vf = val.fn()
        rs = [r for r in rshape]
        off = len(rs) - len(vsh)
        if off < 0:
            # allow leading ones in value
            extra = -off
            if all(is_one(d) for d in vsh[:extra]):
                vf0 = vf
                vf = lambda idx: vf0(tuple([0] * extra) + tuple(idx))
                vsh = vsh[extra:]
                off = 0
            else:
                raise IRaise(ValueError("could not broadcast"))
        ones = []
        for i, d in enumerate(vsh):
            tgt = rs[off + i][1]
            if is_one(d) and not is_one(tgt):
                ones.append(True)
                continue
            ones.append(False)
            if not ctx.same_dim(d, tgt):
                raise IRaise(ValueError("shape mismatch in assignment"))

        def fn(idx):
            cond, loc = locate(idx)
            if cond is False:
                return old(idx)
            vi = []
            for i in range(len(vsh)):
                l = loc[off + i]
                if ones[i]:
                    vi.append(0)
                elif isinstance(l, tuple):
                    if l[0] == "rank":
                        vi.append(l[1].rank(l[2]))
                    else:
                        raise Unsupported("array value through an index array")
                else:
                    vi.append(l)
            v = vf(tuple(vi)).cast(kind)
            if not masked_target:
                v = _strip(v)
            o = old(idx)
            if keep:
                v = S(v.k, v.v, v.nan, o.m)
            return s_ite(cond, v, o)

        a.set_fn(fn, mask_touched=val.masked and not val.nomask, )
        return
    sv = S.of(val) if not mconst else None

    def fn(idx):
        cond, _ = locate(idx)
        if cond is False:
            return old(idx)
        o = old(idx)
        if mconst:
            return S(o.k, o.v, o.nan, b_or(o.m, cond))
        v = sv.cast(kind)
        if keep:
            v = S(v.k, v.v, v.nan, o.m)
        return s_ite(cond, v, o)

    a.set_fn(fn, mask_touched=mconst or (sv is not None and sv.m is not False))


# ------------------------------------------------------------ reductions
def _axis(a, axis):
    if isinstance(axis, S):
        axis = axis.v
    if axis is None:
        return None
    if axis < 0:
        axis += a.ndim
    return axis


def _uses(t, name):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() == name:
                return True
            st.extend(x.children())
    return False


def expand(ctx, a, axis):
    """an array over selected positions, as a masked array over all positions (the unselected are masked):
    a reduction that skips masked elements gives the same.  None when there is nothing to expand."""
    if not ctx.symbolic or not a.sel or not any(isinstance(s, Sel) for s in a.sel):
        return None
    axes = range(a.ndim) if axis is None else [axis]
    axes = [x for x in axes if isinstance(a.sel[x], Sel)]
    if not axes or any(len(a.sel[x].shape) != 1 for x in axes) and a.ndim != 1:
        return None
    shape = list(a.shape)
    if a.ndim == 1:
        shape = list(a.sel[0].shape)
    else:
        for x in axes:
            shape[x] = a.sel[x].shape[0]
    f = a.fn()

    def fn(idx):
        if a.ndim == 1:
            s = a.sel[0]
            r, c = f((s.rank(idx),)), s.maskfn(tuple(idx))
        else:
            jx, c = list(idx), True
            for x in axes:
                jx[x] = a.sel[x].rank((idx[x],))
                c = b_and(c, a.sel[x].maskfn((idx[x],)))
            r = f(tuple(jx))
        return S(r.k, r.v, r.nan, b_or(r.m, b_not(c)))
    probe = fn(tuple(z3.Int(f"ex?{i}") for i in range(len(shape))))
    names = [a.sel[x].rf.name() for x in axes]
    if any(is_z(t) and _uses(t, nm) for t in (probe.v, probe.nan, probe.m) for nm in names):
        return None
    sel = [None if i in axes else s for i, s in enumerate(a.sel)] if a.ndim > 1 else None
    return Arr(tuple(shape), a.kind, fn, True, False, sel=sel if sel and any(sel) else None)


def reduce_bool(ctx, a, kind, axis=None):
    """np.any ('E') / np.all ('A')"""
    a = as_arr(ctx, a)
    axis = _axis(a, axis)
    b = expand(ctx, a, axis)
    if b is not None:
        r = reduce_bool(ctx, b, kind, axis)
        if a.masked and not a.nomask:
            return r
        return _nomask(r)
    f = a.fn()

    def p(idx):
        s = f(idx)
        t = s.bool()
        # masked entries do not count (numpy.ma any/all)
        if s.m is not False:
            t = b_and(b_not(s.m), t) if kind == "E" else b_or(s.m, t)
        return t
    if axis is None:
        m = False
        if a.masked and not a.nomask:
            m = quant_nd("A", a.shape, lambda idx: f(idx).m)
        return S("b", quant_nd(kind, a.shape, p), False, m)
    shape = a.shape[:axis] + a.shape[axis + 1:]
    n = a.shape[axis]

    def fn(idx):
        t = quant(kind, n, lambda k: p(tuple(idx[:axis]) + (k,) + tuple(idx[axis:])))
        m = False
        if a.masked and not a.nomask:
            m = quant("A", n, lambda k: f(tuple(idx[:axis]) + (k,) + tuple(idx[axis:])).m)
        return S("b", t, False, m)
    sel = None
    if a.sel:
        sel = [s for i, s in enumerate(a.sel) if i != axis]
    return unwrap(Arr(shape, "b", fn, a.masked, a.nomask, sel=sel if sel and any(sel) else None))


def _nomask(r):
    if isinstance(r, S):
        return S(r.k, r.v, r.nan)
    f = r.fn()

    def fn(idx):
        s = f(idx)
        return S(s.k, s.v, s.nan)
    return Arr(r.shape, r.kind, fn, False, True, sel=r.sel)


def count_true(ctx, a, axis=None):
    def one(s):
        return S("i", b_to_int(s.bool()), False, s.m)
    return reduce_sum(ctx, ew(ctx, one, a, kind="i"), axis, kind="i")


def b_to_int(t):
    if not is_z(t):
        return int(bool(t))
    return z3.If(t, z3.IntVal(1), z3.IntVal(0))


def reduce_sum(ctx, a, axis=None, kind=None):
    a = as_arr(ctx, a)
    axis = _axis(a, axis)
    if a.ndim == 0:
        return a.get(())
    b = expand(ctx, a, axis)
    if b is not None:
        r = reduce_sum(ctx, b, axis if a.ndim > 1 else None, kind)
        if a.masked and not a.nomask:
            return r
        r = _nomask(r)
        if a.masked and isinstance(r, Arr):
            r.masked = True
        return r
    f = a.fn()
    outk = kind or ("i" if a.kind in "bi" else "f")

    def term(idx):
        s = f(idx)
        s2 = S(s.k, s.v, s.nan).cast(outk)
        if s.m is not False:
            s2 = s_ite(s.m, S(outk, 0 if outk == "i" else 0.0), s2)
        return s2

    def fin(s, m):
        if outk == "i" and s.k == "f":
            if is_z(s.v):
                return S("i", z3.ToInt(s.v), False, m)
            return S("i", int(s.v), False, m)
        if outk == "f" and s.k == "i":
            s = s.cast("f")
        return S(outk, s.v, s.nan, m)

    if axis is None:
        if a.ndim == 1:
            s = sum_term(a.shape[0], lambda k: term((k,)))
        elif a.ndim == 2:
            s = sum_term(a.shape[0], lambda i: sum_term(a.shape[1], lambda j: term((i, j))))
        else:
            raise Unsupported("sum over 3 dims")
        m = False
        if a.masked and not a.nomask:
            m = quant_nd("A", a.shape, lambda idx: f(idx).m)
        return fin(s, m)
    shape = a.shape[:axis] + a.shape[axis + 1:]

    def fn(idx):
        full = lambda k: tuple(idx[:axis]) + (k,) + tuple(idx[axis:])
        s = sum_term(a.shape[axis], lambda k: term(full(k)))
        m = False
        if a.masked and not a.nomask:
            m = quant("A", a.shape[axis], lambda k: f(full(k)).m)
        return fin(s, m)
    sel = [s for i, s in enumerate(a.sel) if i != axis] if a.sel else None
    return unwrap(Arr(shape, outk, fn, a.masked, a.nomask, sel=sel if sel and any(sel) else None))


def reduce_mean(ctx, a, axis=None):
    a = as_arr(ctx, a)
    ax = _axis(a, axis)
    b = expand(ctx, a, ax)
    if b is not None and a.masked and not a.nomask:
        return reduce_mean(ctx, b, ax if a.ndim > 1 else None)
    s = reduce_sum(ctx, a if a.kind == "f" else ew(ctx, lambda x: x.cast("f"), a), axis)
    f = a.fn()
    if b is not None and not (a.masked and not a.nomask):
        cnt = reduce_sum(ctx, ew(ctx, lambda x: S("i", b_to_int(b_not(x.m))), Arr(b.shape, b.kind, b.fn(), True, False), kind="i", masked=False), ax if a.ndim > 1 else None, kind="i")
        div = lambda x, c: s_arith("/", x, S(c.k, c.v))
        r = ew(ctx, div, s, cnt, kind="f") if isinstance(s, Arr) else div(s, cnt)
        return r
    if a.masked and not a.nomask:
        cnt = reduce_sum(ctx, ew(ctx, lambda x: S("i", b_to_int(b_not(x.m))), Arr(a.shape, a.kind, a.fn(), True, False), kind="i", masked=False), axis, kind="i")
        def div(x, c):
            r = s_arith("/", S(x.k, x.v, x.nan), S(c.k, c.v))
            return S("f", r.v, b_and(r.nan, b_not(x.m)), b_or(x.m, s_cmp("==", c, 0).v))
        return ew(ctx, div, s, cnt, kind="f", masked=True) if isinstance(s, Arr) else div(s, cnt)
    n = a.size() if ax is None else a.shape[ax]
    return ew(ctx, lambda x: s_arith("/", x, S("i", n)), s, kind="f") if isinstance(s, Arr) else s_arith("/", s, S("i", n))


def reduce_std(ctx, a, axis=None):
    a = as_arr(ctx, a)
    ax = _axis(a, axis)
    if a.is_conc():
        r = (ma.std if a.masked else np.std)(a.to_numpy(), axis=axis)
        return unwrap(Arr.from_numpy(r)) if isinstance(r, np.ndarray) else (S("f", 0.0, False, True) if r is ma.masked else S.of(r))
    m = reduce_mean(ctx, a, axis)
    f = a.fn()

    def sq(idx):
        x = f(idx)
        c = m if isinstance(m, S) else m.fn()(tuple(i for n, i in enumerate(idx) if n != ax))
        d = s_arith("-", S(x.k, x.v, x.nan).cast("f"), S(c.k, c.v, c.nan))
        d = s_arith("*", d, d)
        return S("f", d.v, d.nan, x.m)
    v = reduce_mean(ctx, Arr(a.shape, "f", sq, a.masked, a.nomask, sel=a.sel), axis)
    root = lambda x: S("f", (y := core.s_fun("sqrt", S("f", x.v, x.nan))).v, y.nan, x.m)
    return root(v) if isinstance(v, S) else ew(ctx, root, v, kind="f", masked=v.masked)


def extremum(ctx, a, which, axis=None, nanskip=False):
    """max/min with (assumed) attained-and-bounds characterisation.

    Result for a slice with no counted element: masked (ma) or IRaise for an
    empty plain array (axis None)."""
    a = as_arr(ctx, a)
    axis = _axis(a, axis)
    if a.ndim == 1 and axis == 0:
        axis = None
    f = a.fn()
    op = "<=" if which == "max" else ">="
    if a.conc_shape() and all(f(i).conc() for i in a.indices()):
        arr = a.to_numpy()
        fnn = {("max", 0): np.max, ("min", 0): np.min, ("max", 1): np.nanmax, ("min", 1): np.nanmin}[(which, int(nanskip))]
        if a.masked:
            fnn = ma.max if which == "max" else ma.min
        try:
            r = fnn(arr, axis=axis)
        except ValueError as e:
            raise IRaise(e) from e
        return unwrap(Arr.from_numpy(r)) if isinstance(r, np.ndarray) else S.of(r)
    b = expand(ctx, a, axis)
    if b is not None:
        r = extremum(ctx, b, which, axis if a.ndim > 1 else None, nanskip)
        if a.masked and not a.nomask:
            return r
        none = reduce_bool(ctx, Arr(b.shape, "b", lambda idx: S("b", b.get(idx).m)), "A", axis if a.ndim > 1 else None)
        if isinstance(none, Arr):
            none = reduce_bool(ctx, none, "E")
        if ctx.branch(to_bool(none.v)):
            if a.masked and (a.ndim == 1 or axis is None):
                return S(a.kind, 0, False, True)
            raise IRaise(ValueError("zero-size array to reduction operation"))
        r = _nomask(r)
        if a.masked and isinstance(r, Arr):
            r.masked = True
        return r
    if axis is None:
        nonempty = b_and(*[(to_int(d) > 0) if is_z(d) else d > 0 for d in a.shape])
        if not ctx.branch(nonempty):
            if a.masked:
                return S(a.kind, 0, False, True)
            raise IRaise(ValueError("zero-size array to reduction operation"))
        counted = lambda idx: b_and(b_not(f(idx).m), b_not(f(idx).nan) if nanskip else True)
        anyc = quant_nd("E", a.shape, counted)
        key = ("ext", which, nanskip, _canon(ctx, a))
        r = ctx.memo.get(key)
        if r is None:
            r = ctx.fresh(which, a.kind)
            w = [ctx.fresh(which + "_at", "i").v for _ in a.shape]
            inr = b_and(*[b_and(x >= 0, x < to_int(d)) for x, d in zip(w, a.shape)])
            at = f(tuple(w))
            ctx.fact(z3.Implies(to_bool(anyc), to_bool(b_and(inr, counted(tuple(w)), s_cmp("==", S(at.k, at.v), S(r.k, r.v)).v))))
            ctx.fact(quant_nd("A", a.shape, lambda idx: b_or(b_not(counted(idx)), s_cmp(op, S(a.kind, f(idx).v), r).v)))
            ctx.memo[key] = r
        nan = False if nanskip else quant_nd("E", a.shape, lambda idx: b_and(f(idx).nan, b_not(f(idx).m)))
        return S(a.kind, r.v, nan, b_not(anyc) if a.masked and not a.nomask else False)
    shape = a.shape[:axis] + a.shape[axis + 1:]
    n = a.shape[axis]
    full = lambda idx, k: tuple(idx[:axis]) + (k,) + tuple(idx[axis:])
    key = ("exta", which, axis, nanskip, _canon(ctx, a))
    r = ctx.memo.get(key)
    if r is None:
        r = ctx.fresh_arr(which, a.kind, shape)
        w = ctx.fresh_arr(which + "_at", "i", shape)
        ctx.memo[key] = (r, w)

        def ax(idx):
            at = w.get(idx).v
            fa = f(full(idx, at))
            cnt = lambda k: b_and(b_not(f(full(idx, k)).m), b_not(f(full(idx, k)).nan) if nanskip else True)
            anyc = quant("E", n, cnt)
            return b_and(
                b_or(b_not(anyc), b_and(at >= 0, at < to_int(n), cnt(at), s_cmp("==", S(fa.k, fa.v), r.get(idx)).v)),
                quant("A", n, lambda k: b_or(b_not(cnt(k)), s_cmp(op, S(a.kind, f(full(idx, k)).v), r.get(idx)).v)))
        ctx.fact(quant_nd("A", shape, ax))
    else:
        r, w = r

    def fn(idx):
        m = quant("A", n, lambda k: f(full(idx, k)).m) if a.masked and not a.nomask else False
        nan = False if nanskip else quant("E", n, lambda k: b_and(f(full(idx, k)).nan, b_not(f(full(idx, k)).m)))
        return S(a.kind, r.get(idx).v, nan, m)
    return Arr(shape, a.kind, fn, a.masked, a.nomask)


def _canon(ctx, a):
    """canonical identity of an array's content."""
    idx = tuple(z3.Int(f"cn?{i}") for i in range(a.ndim))
    s = a.get(idx)
    t = [x for x in (s.term(), to_bool(s.nan), to_bool(s.m))]
    ctx.keep.extend(t)
    return tuple(x.get_id() for x in t) + tuple(core.ikey(d) for d in a.shape)


def uninterp(ctx, name, a, kind="f", shape=()):
    """an opaque deterministic statistic of a whole array (median, std, ...)."""
    key = ("unint", name, _canon(ctx, a))
    r = ctx.memo.get(key)
    if r is None:
        r = ctx.fresh(name, kind) if shape == () else ctx.fresh_arr(name, kind, shape)
        ctx.memo[key] = r
    ctx.assumptions.add(f"{name}: uninterpreted (any value), deterministic in its argument")
    return r
