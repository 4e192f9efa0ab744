"""Symbolic values.

``S``   a scalar: kind ('b','i','f'), value (python number or z3 term), nan flag,
        mask flag (numpy.ma scalar).
``Arr`` an n-d array: shape (python ints / z3 Ints), kind, an index->S function,
        masked (is it a numpy.ma.MaskedArray), nomask.

Everything works the same with concrete python numbers inside, so the very same
interpreter is cross-checked against CPython on concrete inputs.
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

Z = z3.ExprRef


class Unsupported(Exception):
    """Construct outside the modelled fragment (never a verdict by itself)."""


class PathAbort(Exception):
    """Path condition became infeasible."""


def is_z(x):
    return isinstance(x, Z)


# ---------------------------------------------------------------- terms
_REALCACHE: dict = {}


def realval(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    x = float(x)
    r = _REALCACHE.get(x)
    if r is None:
        r = z3.RealVal(repr(x)) if "e" not in repr(x) else z3.RealVal(Fraction(repr(x)))
        _REALCACHE[x] = r
    return r


def to_real(v):
    if is_z(v):
        s = v.sort_kind() if hasattr(v, "sort_kind") else v.sort().kind()
        if s == z3.Z3_INT_SORT:
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if s == z3.Z3_BOOL_SORT:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        return v
    return realval(v)


# an infinite value chosen by a condition: a marker that may only be chosen between and compared with <, <=, >, >=
INF, NINF = z3.Real("$infinity"), z3.Real("$-infinity")
_INF_USED = [False]


def inf_leaf(v):
    """the if-tree of v has an infinite leaf"""
    if not _INF_USED[0] or not is_z(v) or v.sort_kind() != z3.Z3_REAL_SORT:
        return False
    todo = [v]
    while todo:
        x = todo.pop()
        if x.eq(INF) or x.eq(NINF):
            return True
        if x.decl().kind() == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
    return False


def _inf_cmp(op, x, y):
    for t, f in ((x, lambda u: _inf_cmp(op, u, y)), (y, lambda u: _inf_cmp(op, x, u))):
        if inf_leaf(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), f(t.arg(1)), f(t.arg(2)))
    rank = lambda t: 1 if t.eq(INF) else -1 if t.eq(NINF) else 0
    p, q = rank(x), rank(y)
    if p or q:
        return z3.BoolVal({"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op])
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def no_inf(*vs):
    if _INF_USED[0] and any(inf_leaf(v) for v in vs):
        raise Unsupported("arithmetic with an infinite value")


def to_int(v):
    if is_z(v):
        if v.sort().kind() == z3.Z3_BOOL_SORT:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    return z3.IntVal(int(v))


def to_bool(v):
    if is_z(v):
        k = v.sort().kind()
        if k == z3.Z3_BOOL_SORT:
            return v
        return v != 0
    return z3.BoolVal(bool(v))


def b_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if is_z(x):
            if z3.is_true(x):
                continue
            if z3.is_false(x):
                return False
            if any(x.eq(o) for o in out):
                continue
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if is_z(x):
            if z3.is_false(x):
                continue
            if z3.is_true(x):
                return True
            if any(x.eq(o) for o in out):
                continue
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_not(x):
    if is_z(x):
        if z3.is_true(x):
            return False
        if z3.is_false(x):
            return True
        if z3.is_not(x):
            return x.arg(0)
        return z3.Not(x)
    return not x


def b_ite(c, a, b):
    if not is_z(c):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or (is_z(a) and is_z(b) and a.eq(b)):
        return a
    if not is_z(a) and not is_z(b):
        if type(a) is bool and type(b) is bool:
            if a == b:
                return a
            return c if a else b_not(c)
    # booleans
    if _isbool(a) and _isbool(b):
        if a is True:
            return b_or(c, b)
        if a is False:
            return b_and(b_not(c), b)
        if b is True:
            return b_or(b_not(c), a)
        if b is False:
            return b_and(c, a)
        return z3.If(c, to_bool(a), to_bool(b))
    raise AssertionError


def _isbool(x):
    if is_z(x):
        return x.sort().kind() == z3.Z3_BOOL_SORT
    return isinstance(x, (bool, np.bool_))


KORD = {"b": 0, "i": 1, "f": 2}


def kmax(a, b):
    return a if KORD[a] >= KORD[b] else b


# ------------------------------------------------------------ uninterpreted
R1 = {}
CONC = {
    "log10": lambda x: math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan),
    "log": lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
    "exp": lambda x: math.exp(x) if x < 700 else math.inf,
    "pow10": lambda x: 10.0**x if x < 300 else math.inf,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "cos": math.cos,
    "sin": math.sin,
    "tan": math.tan,
    "gamma": lambda x: math.gamma(x),
}


def ufun(name, *sorts):
    key = (name, tuple(s.sexpr() for s in sorts))
    f = R1.get(key)
    if f is None:
        f = z3.Function(name, *sorts)
        R1[key] = f
    return f


def real1(name, x):
    return ufun("m_" + name, z3.RealSort(), z3.RealSort())(x)


class S:
    """Scalar."""

    __slots__ = ("k", "v", "nan", "m")
    __array_priority__ = 1000

    def __init__(self, k, v, nan=False, m=False):
        self.k = k
        self.v = v
        self.nan = nan
        self.m = m

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (bool, np.bool_)):
            return S("b", bool(x))
        if isinstance(x, (int, np.integer)):
            return S("i", int(x))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if math.isnan(x):
                return S("f", 0.0, True)
            return S("f", x)
        if x is np.ma.masked:
            return S("f", 0.0, False, True)
        if isinstance(x, Fraction):
            return S("f", x)
        if is_z(x):
            k = x.sort().kind()
            if k == z3.Z3_BOOL_SORT:
                return S("b", x)
            if k == z3.Z3_INT_SORT:
                return S("i", x)
            return S("f", x)
        if isinstance(x, np.ma.MaskedArray) and x.ndim == 0:
            if bool(np.ma.getmaskarray(x)):
                return S({"b": "b", "i": "i", "u": "i"}.get(x.dtype.kind, "f"), 0, False, True)
            return S.of(x.data[()])
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return S.of(x[()])
        if isinstance(x, Arr) and x.ndim == 0:
            return x.get(())
        raise Unsupported(f"scalar from {type(x)}")

    def conc(self):
        return not (is_z(self.v) or is_z(self.nan) or is_z(self.m))

    def py(self):
        """Concrete python value (nan as float nan, masked as ma.masked)."""
        assert self.conc()
        if self.m:
            return np.ma.masked
        if self.nan:
            return math.nan
        return self.v

    # -- typed terms
    def real(self):
        return to_real(self.v)

    def int(self):
        return to_int(self.v)

    def bool(self):
        """z3/py truth of a boolean (not looking at mask)."""
        if self.k == "b":
            return self.v if is_z(self.v) else bool(self.v)
        if is_z(self.v):
            return b_or(self.nan, self.v != 0)
        return b_or(self.nan, bool(self.v))

    def term(self):
        return {"b": to_bool, "i": to_int, "f": to_real}[self.k](self.v)

    def cast(self, k):
        if k == self.k:
            return self
        if k == "f":
            if is_z(self.v):
                return S("f", to_real(self.v), self.nan, self.m)
            return S("f", float(self.v), self.nan, self.m)
        if k == "i":
            if self.k == "b":
                return S("i", from_bits([self.v]) if is_z(self.v) else int(self.v), False, self.m)
            if is_z(self.v):
                v = self.v
                return S("i", z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), False, self.m)
            if math.isinf(self.v):
                return S("i", 0, False, self.m)
            return S("i", int(self.v), False, self.m)
        if k == "b":
            return S("b", self.bool(), False, self.m)
        raise Unsupported(k)

    def __repr__(self):
        return f"S<{self.k} {self.v} nan={self.nan} m={self.m}>"

    def __bool__(self):
        if self.conc():
            return bool(self.v) and not self.m or bool(self.nan)
        raise Unsupported("truth of a symbolic scalar used natively")

    # -- operators (raw ufunc semantics: nan/mask are or-ed)
    def __add__(self, o):
        return s_arith("+", self, o)

    def __radd__(self, o):
        return s_arith("+", o, self)

    def __sub__(self, o):
        return s_arith("-", self, o)

    def __rsub__(self, o):
        return s_arith("-", o, self)

    def __mul__(self, o):
        return s_arith("*", self, o)

    def __rmul__(self, o):
        return s_arith("*", o, self)

    def __truediv__(self, o):
        return s_arith("/", self, o)

    def __rtruediv__(self, o):
        return s_arith("/", o, self)

    def __floordiv__(self, o):
        return s_arith("//", self, o)

    def __mod__(self, o):
        return s_arith("%", self, o)

    def __rmod__(self, o):
        return s_arith("%", o, self)

    def __pow__(self, o):
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(o, self)

    def __neg__(self):
        return s_arith("-", 0, self)

    def __abs__(self):
        return s_abs(self)

    def __lt__(self, o):
        return s_cmp("<", self, o)

    def __le__(self, o):
        return s_cmp("<=", self, o)

    def __gt__(self, o):
        return s_cmp(">", self, o)

    def __ge__(self, o):
        return s_cmp(">=", self, o)

    def __eq__(self, o):
        return s_cmp("==", self, o)

    def __ne__(self, o):
        return s_cmp("!=", self, o)

    __hash__ = object.__hash__

    def __and__(self, o):
        return s_bit("&", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return s_bit("|", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return s_bit("^", self, o)

    def __invert__(self):
        if self.k == "b":
            return S("b", b_not(self.v), False, self.m)
        if self.k == "i":
            return s_arith("-", s_arith("-", 0, self), 1)
        raise Unsupported("~float")


def _num(x):
    """python numeric for concrete value."""
    return x


def s_arith(op, a, b):
    a, b = S.of(a), S.of(b)
    k = kmax(a.k, b.k)
    if k == "b":
        if op in "+*":
            # numpy bool + bool -> logical; python bool+bool -> int.  treat as int for
            # python scalars; array code handles numpy bool arithmetic itself
            k = "i"
        else:
            k = "i"
    nan = b_or(a.nan, b.nan)
    m = b_or(a.m, b.m)
    if op == "/":
        k = "f"
    av, bv = a.v, b.v
    no_inf(av, bv)
    if not is_z(av) and not is_z(bv):
        try:
            if k == "f" and not isinstance(av, Fraction) and not isinstance(bv, Fraction):
                av, bv = float(av), float(bv)
            elif k == "i":
                av, bv = int(av), int(bv)
            if op == "+":
                v = av + bv
            elif op == "-":
                v = av - bv
            elif op == "*":
                v = av * bv
            elif op == "/":
                if bv == 0:
                    if av == 0 or math.isnan(av):
                        return S("f", 0.0, True, m)
                    v = math.copysign(math.inf, av) * math.copysign(1, bv)
                else:
                    v = av / bv
            elif op == "//":
                if bv == 0:
                    return S("f", 0.0, True, m)
                v = av // bv
            elif op == "%":
                if bv == 0:
                    return S("f", 0.0, True, m)
                v = av % bv
            else:
                raise Unsupported(op)
        except OverflowError:
            v = math.inf
        if isinstance(v, float) and math.isnan(v):
            return S("f", 0.0, True, m)
        return S(k, v, nan, m)
    if k == "f":
        # light algebraic folding keeps terms small and syntactically equal
        x, y = to_real(av), to_real(bv)
        if op == "+":
            if not is_z(av) and av == 0:
                v = y
            elif not is_z(bv) and bv == 0:
                v = x
            else:
                v = x + y
        elif op == "-":
            v = x if (not is_z(bv) and bv == 0) else x - y
        elif op == "*":
            if not is_z(av) and av == 1:
                v = y
            elif not is_z(bv) and bv == 1:
                v = x
            else:
                v = x * y
        elif op == "/":
            if not is_z(bv):
                if bv == 0:
                    raise Unsupported("division by literal zero")
                v = x if bv == 1 else x * z3.RealVal(1 / Fraction(repr(float(bv))))
            else:
                # division by zero gives inf/nan in numpy; treat as nan (flag)
                nan = b_or(nan, y == 0)
                v = x / y
        elif op == "%":
            v = x - y * z3.ToReal(z3.ToInt(x / y))
        elif op == "//":
            v = z3.ToReal(z3.ToInt(x / y))
        else:
            raise Unsupported(op)
        return S("f", v, nan, m)
    if op == "*":
        for p, q in ((av, bv), (bv, av)):
            if not is_z(p) and int(p) > 0 and int(p) & (int(p) - 1) == 0:
                bq = bits_of(q) if is_z(q) else None
                if bq is not None:
                    return S("i", from_bits([False] * (int(p).bit_length() - 1) + bq), nan, m)
    x, y = to_int(av), to_int(bv)
    if op == "+":
        v = y if (not is_z(av) and av == 0) else x if (not is_z(bv) and bv == 0) else x + y
    elif op == "-":
        v = x if (not is_z(bv) and bv == 0) else x - y
    elif op == "*":
        v = x * y
    elif op == "//":
        if not is_z(bv):
            v = x / y if bv > 0 else (-x) / z3.IntVal(-bv)
        else:
            # floor division for symbolic divisor (divisor assumed non-zero: safety
            # obligation generated by the interpreter)
            v = z3.If(y > 0, x / y, (-x) / (-y))
    elif op == "%":
        if not is_z(bv):
            v = x % y if bv > 0 else -((-x) % z3.IntVal(-bv))
        else:
            v = z3.If(y > 0, x % y, -((-x) % (-y)))
    else:
        raise Unsupported(op)
    return S("i", v, nan, m)


def s_pow(a, b):
    a, b = S.of(a), S.of(b)
    nan, m = b_or(a.nan, b.nan), b_or(a.m, b.m)
    if a.conc() and b.conc():
        try:
            v = a.v**b.v
            if isinstance(v, complex):
                return S("f", 0.0, True, m)
        except ZeroDivisionError:
            v = math.inf
        except OverflowError:
            v = math.inf
        r = S.of(v)
        return S(r.k, r.v, b_or(nan, r.nan), m)
    if not is_z(b.v):
        if b.v == 2:
            return s_arith("*", a, a)
        if b.v == 1:
            return a
        if b.v == 3:
            return s_arith("*", s_arith("*", a, a), a)
        if b.v == 4:
            q = s_arith("*", a, a)
            return s_arith("*", q, q)
        if b.v == 0.5:
            return s_fun("sqrt", a)
        if b.v == -1:
            return s_arith("/", 1, a)
    if not is_z(a.v) and a.v == 10:
        return s_fun("pow10", b)
    if not is_z(a.v) and a.v == 2 and b.k == "i":
        raise Unsupported("2**symbolic")
    f = ufun("m_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    # negative base, non-integer exponent -> nan; zero base, negative exponent -> inf (not finite)
    if not is_z(b.v) and b.v != int(b.v):
        nan = b_or(nan, a.real() < 0) if is_z(a.v) else b_or(nan, a.v < 0)
    if not is_z(b.v) and b.v < 0:
        nan = b_or(nan, a.real() == 0) if is_z(a.v) else b_or(nan, a.v == 0)
    return S("f", f(a.real(), b.real()), nan, m)


def nonneg(x, depth=0):
    """syntactically not negative"""
    if z3.is_rational_value(x) or z3.is_int_value(x):
        return x.as_fraction() >= 0 if z3.is_rational_value(x) else x.as_long() >= 0
    if depth > 8 or not z3.is_app(x):
        return False
    k = x.decl().kind()
    ch = x.children()
    if k == z3.Z3_OP_ADD:
        return all(nonneg(y, depth + 1) for y in ch)
    if k == z3.Z3_OP_MUL:
        return (len(ch) == 2 and ch[0].eq(ch[1])) or all(nonneg(y, depth + 1) for y in ch)
    if k == z3.Z3_OP_ITE:
        return nonneg(ch[1], depth + 1) and nonneg(ch[2], depth + 1)
    if k == z3.Z3_OP_TO_REAL:
        return nonneg(ch[0], depth + 1)
    return x.decl().name() in ("m_sqrt", "m_exp", "m_pow10")


def s_fun(name, a):
    a = S.of(a)
    if a.conc():
        if a.nan:
            return S("f", 0.0, True, a.m)
        try:
            v = CONC[name](float(a.v))
        except (ValueError, OverflowError):
            v = math.nan
        if math.isnan(v):
            return S("f", 0.0, True, a.m)
        return S("f", v, False, a.m)
    no_inf(a.v)
    x = a.real()
    nan = a.nan
    if name in ("log10", "log"):
        nan = b_or(nan, x <= 0)  # -inf / nan, both "not finite"
    if name == "sqrt":
        nan = nan if nonneg(x) else b_or(nan, x < 0)
    # inverse pairs folded syntactically: pow10(log10(y)) and log10(pow10(y))
    if name == "log10" and z3.is_app(x) and x.decl().name() == "m_pow10":
        return S("f", x.arg(0), a.nan, a.m)
    return S("f", real1(name, x), nan, a.m)


def s_arctan2(a, b):
    a, b = S.of(a), S.of(b)
    nan, m = b_or(a.nan, b.nan), b_or(a.m, b.m)
    if a.conc() and b.conc():
        return S("f", 0.0 if nan else math.atan2(float(a.v), float(b.v)), nan, m)
    R = z3.RealSort()
    return S("f", ufun("m_arctan2", R, R, R)(a.real(), b.real()), nan, m)


def s_abs(a):
    a = S.of(a)
    if not is_z(a.v):
        return S(a.k if a.k != "b" else "b", abs(a.v), a.nan, a.m)
    if a.k == "i":
        return S("i", z3.If(a.v >= 0, a.v, -a.v), a.nan, a.m)
    x = a.real()
    return S("f", z3.If(x >= 0, x, -x), a.nan, a.m)


def s_cmp(op, a, b):
    a, b = S.of(a), S.of(b)
    m = b_or(a.m, b.m)
    nan = b_or(a.nan, b.nan)
    k = kmax(a.k, b.k)
    av, bv = a.v, b.v
    if not is_z(av) and not is_z(bv):
        v = {
            "<": av < bv,
            "<=": av <= bv,
            ">": av > bv,
            ">=": av >= bv,
            "==": av == bv,
            "!=": av != bv,
        }[op]
        v = bool(v)
    else:
        if k == "b":
            if op == "==":
                v = _beq(av, bv)
            elif op == "!=":
                v = b_not(_beq(av, bv))
            else:
                x, y = to_int(av), to_int(bv)
                v = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        else:
            conv = to_int if k == "i" else to_real
            if k == "i" and (isinstance(av, float) or isinstance(bv, float)):
                conv = to_real
            # infinities
            for side, w in (("a", av), ("b", bv)):
                if isinstance(w, float) and math.isinf(w):
                    big = w > 0
                    if side == "b":
                        v = {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
                    else:
                        v = {"<": not big, "<=": not big, ">": big, ">=": big, "==": False, "!=": True}[op]
                    if op == "!=":
                        return S("b", b_or(nan, v), False, m)
                    return S("b", b_and(b_not(nan), v), False, m)
            x, y = conv(av), conv(bv)
            v = None
            if _INF_USED[0] and (inf_leaf(x) or inf_leaf(y)):
                if op in ("==", "!="):
                    raise Unsupported("equality with an infinite value")
                v = z3.simplify(_inf_cmp(op, x, y))
            v = v if v is not None else {
                "<": lambda: x < y,
                "<=": lambda: x <= y,
                ">": lambda: x > y,
                ">=": lambda: x >= y,
                "==": lambda: x == y,
                "!=": lambda: x != y,
            }[op]()
            if z3.is_bool(v):
                if x.eq(y):
                    v = op in ("<=", ">=", "==")
    if op == "!=":
        return S("b", b_or(nan, v), False, m)
    return S("b", b_and(b_not(nan), v), False, m)


def _beq(a, b):
    if not is_z(a) and not is_z(b):
        return bool(a) == bool(b)
    if not is_z(a):
        return b if a else b_not(b)
    if not is_z(b):
        return a if b else b_not(a)
    if a.eq(b):
        return True
    return a == b


_BITS: dict = {}
_BITKEEP: list = []


def bits_of(v):
    """v as a list of bit terms (least significant first) when known, else None."""
    if not is_z(v):
        v = int(v)
        if v < 0:
            return None
        return [bool(v >> n & 1) for n in range(v.bit_length())]
    if v.sort().kind() == z3.Z3_BOOL_SORT:
        return [v]
    if z3.is_int_value(v):
        return bits_of(v.as_long())
    return _BITS.get(v.get_id())


def from_bits(bits):
    while bits and bits[-1] is False:
        bits = bits[:-1]
    if all(not is_z(b) for b in bits):
        return sum(1 << n for n, b in enumerate(bits) if b)
    ts = [z3.If(to_bool(b), z3.IntVal(1 << n), z3.IntVal(0)) for n, b in enumerate(bits) if b is not False]
    v = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _BITS[v.get_id()] = list(bits)
    _BITKEEP.append(v)
    return v


def _bitwise(op, x, y):
    n = max(len(x), len(y))
    x = list(x) + [False] * (n - len(x))
    y = list(y) + [False] * (n - len(y))
    if op == "&":
        return [b_and(p, q) for p, q in zip(x, y)]
    if op == "|":
        return [b_or(p, q) for p, q in zip(x, y)]
    return [b_not(_beq(p, q)) for p, q in zip(x, y)]


def _bitof(x, n):
    """bit n (const) of the int term x, as z3 Int 0/1."""
    return (x / (1 << n)) % 2


BITWIDTH = 32


def s_bit(op, a, b):
    a, b = S.of(a), S.of(b)
    m = b_or(a.m, b.m)
    if a.k == "b" and b.k == "b":
        if op == "&":
            return S("b", b_and(a.v, b.v), False, m)
        if op == "|":
            return S("b", b_or(a.v, b.v), False, m)
        return S("b", b_not(_beq(a.v, b.v)), False, m)
    if a.k == "f" or b.k == "f":
        raise Unsupported("bit op on floats")
    if op == "&" and (a.k == "b") != (b.k == "b"):
        x, y = (a, b) if a.k == "i" else (b, a)
        if is_z(x.v) or is_z(y.v):
            return s_ite(y.v, S("i", to_int(x.v) % 2, False, m), S("i", 0, False, m))
    a, b = a.cast("i"), b.cast("i")
    if not is_z(a.v) and not is_z(b.v):
        v = {"&": a.v & b.v, "|": a.v | b.v, "^": a.v ^ b.v}[op]
        return S("i", v, False, m)
    ba, bb = bits_of(a.v), bits_of(b.v)
    if ba is not None and bb is not None:
        return S("i", from_bits(_bitwise(op, ba, bb)), False, m)
    if not is_z(a.v):
        a, b = b, a
    if is_z(b.v):
        raise Unsupported("bit op between two symbolic ints")
    c = b.v
    x = a.v
    if c < 0:
        raise Unsupported("bit op with a negative constant")
    bits = [n for n in range(c.bit_length()) if c >> n & 1]
    if op == "&":
        if not bits:
            return S("i", 0, False, m)
        t = None
        for n in bits:
            u = _bitof(x, n) * (1 << n)
            t = u if t is None else t + u
        return S("i", t, False, m)
    if op == "|":
        t = x
        for n in bits:
            t = t + (1 - _bitof(x, n)) * (1 << n)
        return S("i", t, False, m)
    t = x
    for n in bits:
        t = t + (1 - 2 * _bitof(x, n)) * (1 << n)
    return S("i", t, False, m)


def _leaf(a):
    if a.k == "f" and isinstance(a.v, float) and math.isinf(a.v):
        _INF_USED[0] = True
        return INF if a.v > 0 else NINF
    return a.term()


def s_ite(c, a, b):
    """c: py/z3 bool or S."""
    if isinstance(c, S):
        c = c.bool()
    a, b = S.of(a), S.of(b)
    if not is_z(c):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    k = kmax(a.k, b.k)
    a, b = a.cast(k), b.cast(k)
    nan = b_ite(c, a.nan, b.nan)
    m = b_ite(c, a.m, b.m)
    if k == "b":
        v = b_ite(c, a.v, b.v)
    elif not is_z(a.v) and not is_z(b.v) and a.v == b.v:
        v = a.v
    else:
        x, y = _leaf(a), _leaf(b)
        v = x if x.eq(y) else z3.If(c, x, y)
        if k == "i" and not x.eq(y):
            bx, by = bits_of(a.v), bits_of(b.v)
            if bx is not None and by is not None and (is_z(a.v) or is_z(b.v)) and max(len(bx), len(by)) <= 32:
                n = max(len(bx), len(by))
                bx = list(bx) + [False] * (n - len(bx))
                by = list(by) + [False] * (n - len(by))
                v = from_bits([b_ite(c, p, q) for p, q in zip(bx, by)])
    return S(k, v, nan, m)


def s_min(a, b):
    return s_ite(s_cmp("<=", a, b), a, b)


def s_max(a, b):
    return s_ite(s_cmp(">=", a, b), a, b)


# ---------------------------------------------------------------- dims
def dim_eq(a, b):
    """python True/False when decidable syntactically, else z3 formula."""
    if isinstance(a, S):
        a = a.v
    if isinstance(b, S):
        b = b.v
    if not is_z(a) and not is_z(b):
        return int(a) == int(b)
    a, b = to_int(a), to_int(b)
    if a.eq(b):
        return True
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return a == b


def is_one(d):
    if is_z(d):
        return z3.is_int_value(d) and d.as_long() == 1
    return d == 1


def dnorm(d):
    if isinstance(d, S):
        d = d.v
    if is_z(d):
        d = z3.simplify(d)
        if z3.is_int_value(d):
            return d.as_long()
        return d
    return int(d)


def ikey(i):
    if is_z(i):
        return ("z", i.get_id())
    return i


class Fn:
    """memoised index -> S function."""

    __slots__ = ("f", "memo", "keep")

    def __init__(self, f):
        self.f = f
        self.memo = {}
        self.keep = []

    def __call__(self, idx):
        key = tuple(ikey(i) for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = self.f(idx)
            self.memo[key] = r
            self.keep.append(idx)
        return r


class Arr:
    _n = 0

    def __init__(self, shape, kind, fn, masked=False, nomask=True, dtype=None, view=None, sel=None):
        self.shape = tuple(dnorm(d) for d in shape)
        self.kind = kind
        self._fn = fn if isinstance(fn, Fn) or fn is None else Fn(fn)
        self.masked = masked
        self._nomask = nomask if masked else True
        self.dtype = dtype or np.dtype({"b": bool, "i": np.int64, "f": np.float64}[kind])
        self.view = view  # (base Arr, fwd, inv)
        self.sel = sel  # list per axis of Sel or None (axis indexes a selection)
        self.attrs = {}
        Arr._n += 1
        self.uid = Arr._n

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def nomask(self):
        if not self.masked:
            return True
        if self.view is not None:
            b = self.view[0]
            return b.nomask if b.masked else self._nomask
        return self._nomask

    def get(self, idx):
        if self.view is not None:
            base, fwd, _ = self.view
            return base.get(fwd(idx))
        return self._fn(idx)

    def __getitem__(self, idx):
        """spec-side access."""
        if not isinstance(idx, tuple):
            idx = (idx,)
        ii = []
        for n, i in enumerate(idx):
            if isinstance(i, S):
                i = i.v
            if isinstance(i, (int, np.integer)) and i < 0:
                d = self.shape[n]
                i = d + int(i)
            ii.append(int(i) if isinstance(i, np.integer) else i)
        return self.get(tuple(ii))

    def fn(self):
        """a frozen snapshot of the element function."""
        if self.view is not None:
            base, fwd, _ = self.view
            f = base.fn()
            return Fn(lambda idx: f(fwd(idx)))
        return self._fn

    def set_fn(self, fn, mask_touched=False, clear_mask=False):
        if self.view is not None:
            base, fwd, inv = self.view
            if inv is None:
                raise Unsupported("write through a non-invertible view")
            if not base.masked and self.masked and mask_touched:
                # ma view over plain data: mask not shared
                raise Unsupported("masking through a view of plain data")
            if base.masked and base.nomask and mask_touched:
                raise Unsupported("masking through a view of a nomask array")
            old = base.fn()

            def nf(idx):
                cond, loc = inv(idx)
                if cond is False:
                    return old(idx)
                new = fn(loc)
                return s_ite(cond, new, old(idx))

            base.set_fn(nf, mask_touched)
            return
        self._fn = fn if isinstance(fn, Fn) else Fn(fn)
        if mask_touched and self.masked:
            self._nomask = False

    def copy(self):
        a = Arr(self.shape, self.kind, self.fn(), self.masked, self.nomask, self.dtype, sel=self.sel)
        return a

    def snapshot(self):
        return self.copy()

    def size(self):
        n = 1
        for d in self.shape:
            if is_z(d) or is_z(n):
                n = to_int(n) * to_int(d)
            else:
                n = n * d
        return n

    def conc_shape(self):
        return all(not is_z(d) for d in self.shape)

    def indices(self):
        assert self.conc_shape()
        return np.ndindex(*[int(d) for d in self.shape])

    def is_conc(self):
        if not self.conc_shape():
            return False
        return all(self.get(i).conc() for i in self.indices())

    def to_numpy(self):
        """concrete array back to numpy."""
        assert self.conc_shape()
        sh = tuple(int(d) for d in self.shape)
        data = np.zeros(sh, dtype=self.dtype)
        mask = np.zeros(sh, dtype=bool)
        for i in self.indices():
            s = self.get(i)
            mask[i] = bool(s.m)
            data[i] = math.nan if (s.nan and self.kind == "f") else s.v
        if self.masked:
            return np.ma.array(data, mask=False if self.nomask and False else mask)
        return data

    @staticmethod
    def from_numpy(x):
        masked = isinstance(x, np.ma.MaskedArray)
        data = np.ma.getdata(x)
        mask = np.ma.getmaskarray(x) if masked else None
        nomask = masked and np.ma.getmask(x) is np.ma.nomask
        kd = data.dtype.kind
        if kd not in "biuf":
            raise Unsupported(f"dtype {data.dtype}")
        kind = {"b": "b", "i": "i", "u": "i", "f": "f"}[kd]
        data = np.array(data)

        if mask is not None:
            mask = np.array(mask)

        def fn(idx):
            if any(is_z(i) for i in idx):
                return _lookup(data, mask, kind, idx)
            s = S.of(data[tuple(int(i) for i in idx)])
            s = s.cast(kind) if s.k != kind else s
            if mask is not None:
                s = S(s.k, s.v, s.nan, bool(mask[tuple(int(i) for i in idx)]))
            return s

        return Arr(data.shape, kind, fn, masked, nomask, data.dtype)

    def __repr__(self):
        return f"Arr{self.shape}{self.kind}{'m' if self.masked else ''}#{self.uid}"


def _lookup(data, mask, kind, idx):
    """symbolic index into a concrete table (small tables only)."""
    if data.size > 64:
        raise Unsupported("symbolic index into a large constant table")
    out = None
    for c in np.ndindex(*data.shape):
        s = S.of(data[c])
        s = s.cast(kind) if s.k != kind else s
        if mask is not None:
            s = S(s.k, s.v, s.nan, bool(mask[c]))
        if out is None:
            out = s
        else:
            cond = b_and(*[
                (to_int(i) == int(j)) if is_z(i) else (int(i) == int(j)) for i, j in zip(idx, c)
            ])
            out = s_ite(cond, s, out)
    if out is None:
        raise Unsupported("empty table")
    return out
