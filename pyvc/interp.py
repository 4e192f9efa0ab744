"""Symbolic interpreter of the real cloudnetpy functions (python AST of the source
that CPython runs; nothing is rewritten by hand)."""

from __future__ import annotations

import ast
import builtins
import dataclasses
import functools
import inspect
import logging
import math
import textwrap
import types
import warnings

import numpy as np
import z3
from numpy import ma

from . import core, npfuncs, npm
from .core import Arr, Fn, S, Unsupported, b_and, b_not, b_or, dnorm, is_z, s_cmp, s_ite, to_bool, to_int
from .ctx import Ctx, IRaise, PathAbort, Poison, quant, quant_nd
from .npfuncs import BoundMethod, H, truthy


class Obj:
    """instance of a (real) class."""
    _n = 0

    def __init__(self, cls, attrs=None):
        Obj._n += 1
        object.__setattr__(self, "_uid", Obj._n)
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "attrs", attrs if attrs is not None else {})

    def __repr__(self):
        return f"Obj<{self.cls.__name__}>"

    # spec-side attribute access
    def __getattr__(self, name):
        try:
            return self.attrs[name]
        except KeyError:
            raise AttributeError(name) from None

    def __contains__(self, k):
        return k in self.attrs


class SymIter:
    def __init__(self, n, item):
        self.n, self.item = n, item


class SymList:
    """list built by a filter loop: Arr of values over a selection."""

    def __init__(self, arr):
        self.arr = arr

    def append(self, it, v):
        from .core import kmax
        if not isinstance(v, (S, int, float, bool)):
            raise Unsupported("append of a non-scalar to a symbolic list")
        if it.ctx.loopvars:
            raise Unsupported("append to a symbolic list inside another symbolic loop")
        it.log(("symlist", self, self.arr))
        v, f, n = S.of(v), self.arr.fn(), self.arr.shape[0]
        kind = kmax(self.arr.kind, v.k)
        self.arr = Arr((dnorm(to_int(n) + 1),), kind, lambda idx: s_ite(to_int(idx[0]) == to_int(n), v.cast(kind), f(idx).cast(kind)))


class Opaque:
    """value we know nothing about; any use raises Unsupported."""

    def __init__(self, what):
        self.what = what


class FnVal:
    """interpreted closure / lambda."""

    def __init__(self, node, env, glb, name, qual, defcls=None, defaults=None, kwdefaults=None):
        self.node, self.env, self.glb, self.name, self.qual = node, env, glb, name, qual
        self.defcls = defcls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}


class BoundFn:
    def __init__(self, obj, func, defcls):
        self.obj, self.func, self.defcls = obj, func, defcls


class SuperProxy:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "glb", "func", "self_obj", "defcls", "locals")

    def __init__(self, glb, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.glb = glb
        self.func = func
        self.self_obj = None
        self.defcls = None
        self.locals = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"use of {name}: {v.why}")
                return v
            if e.locals is not None and name in e.locals:
                raise IRaise(UnboundLocalError(name))
            e = e.parent
        if name in self.glb:
            return self.glb[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise IRaise(NameError(name))


_AST: dict = {}


def func_ast(f):
    key = f.__code__
    r = _AST.get(key)
    if r is None:
        try:
            src = textwrap.dedent(inspect.getsource(f))
        except (OSError, TypeError) as e:
            raise Unsupported(f"no source for {f}") from e
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Unsupported(f"cannot parse source of {f}: {e}") from e
        node = tree.body[0]
        if not isinstance(node, (ast.FunctionDef,)):
            raise Unsupported(f"source of {f} is not a def")
        n = 0
        for sub in ast.walk(node):
            if isinstance(sub, (ast.For, ast.While)):
                pass
        ord_ = [0]

        def number(x):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, (ast.For, ast.While)):
                    c._ordinal = ord_[0]
                    ord_[0] += 1
                number(c)
        number(node)
        _AST[key] = r = node
    return r


def assigned_names(node):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n is node:
                self.generic_visit(n)
            else:
                out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_NamedExpr(self, n):
            out.add(n.target.id)
            self.generic_visit(n)

    V().visit(node)
    glob = set()
    for s in ast.walk(node):
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            glob.update(s.names)
    return out - glob


_LOC: dict = {}


def is_sym(x, depth=0):
    if isinstance(x, (S, Arr, Obj, FnVal, BoundFn, BoundMethod, Opaque, SymList, SymIter, SuperProxy)):
        return True
    if depth > 4:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(is_sym(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return any(is_sym(i, depth + 1) for i in x.values()) or any(is_sym(i, depth + 1) for i in x)
    if isinstance(x, slice):
        return is_sym(x.start) or is_sym(x.stop) or is_sym(x.step)
    return False


def nativize(x):
    """fully concrete S/Arr to python/numpy; raises Unsupported otherwise."""
    if isinstance(x, S):
        if x.conc():
            return x.py()
        raise Unsupported("symbolic value passed to native code")
    if isinstance(x, Arr):
        if x.is_conc():
            return x.to_numpy()
        raise Unsupported("symbolic array passed to native code")
    if isinstance(x, list):
        return [nativize(i) for i in x]
    if isinstance(x, tuple):
        return tuple(nativize(i) for i in x)
    if isinstance(x, dict):
        return {nativize(k): nativize(v) for k, v in x.items()}
    if isinstance(x, (Obj, FnVal, BoundFn, BoundMethod, Opaque, SymList, SymIter)):
        raise Unsupported(f"{type(x).__name__} passed to native code")
    return x


IGNORE_MODULES = ("logging", "warnings")
PROJECT = ("cloudnetpy", "contracts")


class Interp:
    def __init__(self, ctx: Ctx, registry=None, loop_specs=None):
        self.ctx = ctx
        self.registry = registry or {}   # real function -> Contract used modularly
        self.overrides = {}              # real function -> handler (trusted stubs)
        self.loop_specs = loop_specs or {}
        self.depth = 0
        self.top = None
        self.spec_ctx = None
        self.envs = []

    # ------------------------------------------------------------ mutation log
    def log(self, undo):
        if self.ctx.record is not None:
            self.ctx.record.append(undo)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        ctx.steps += 1
        if ctx.steps > 200000:
            raise Unsupported("interpretation step limit")
        if isinstance(f, FnVal):
            return self.call_fnval(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return f(ctx, *args, **kwargs)
        if isinstance(f, BoundFn):
            return self.call(f.func, (f.obj, *args), kwargs, node)
        if isinstance(f, Opaque):
            return Opaque(f.what + "()")
        if isinstance(f, types.MethodType):
            # classmethod on a real class or native bound method
            if isinstance(f.__self__, type) and (f.__func__.__module__ or "").startswith(PROJECT):
                return self.call(f.__func__, (f.__self__, *args), kwargs, node)
        mod = getattr(f, "__module__", None) or ""
        if mod in IGNORE_MODULES or (isinstance(f, types.FunctionType) and mod == "logging"):
            return None
        if getattr(f, "__self__", None) is logging.getLogger():
            return None
        ov = self._override(f)
        if ov is not None:
            return ov(self, *args, **kwargs)
        # containers
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, "__self__", None), (list, dict, set, str, tuple)):
            return self.builtin_method(f, args, kwargs)
        if f is isinstance:
            return self.isinstance_(*args)
        if f is hasattr:
            return self.hasattr_(*args)
        if f is getattr:
            try:
                return self.getattr(args[0], args[1])
            except IRaise as e:
                if isinstance(e.exc, AttributeError) and len(args) == 3:
                    return args[2]
                raise
        if f is setattr:
            self.setattr(args[0], args[1], args[2])
            return None
        if f is super:
            raise Unsupported("super with args")
        if f is type and len(args) == 1:
            a = args[0]
            if isinstance(a, Obj):
                return a.cls
            if isinstance(a, Arr):
                return ma.MaskedArray if a.masked else np.ndarray
            if isinstance(a, S):
                return {"b": bool, "i": int, "f": float}[a.k]
            return type(a)
        if f in (list, tuple, set, enumerate, zip, range, reversed, sorted, dict, map, filter):
            return self.builtin_iter(f, args, kwargs)
        if f is dataclasses.fields and isinstance(args[0], Obj):
            return dataclasses.fields(args[0].cls)
        if f is dataclasses.is_dataclass and isinstance(args[0], Obj):
            return dataclasses.is_dataclass(args[0].cls)
        if f is len and isinstance(args[0], (list, tuple, dict, set, str)):
            return len(args[0])
        if f in (print,):
            return None
        if f is str:
            if args and is_sym(args[0]):
                return self.fmt(args[0])
        try:
            h = H.get(f)
        except TypeError:
            h = None
        if h is not None and (is_sym(args) or is_sym(kwargs)):
            return self.handler(h, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.FunctionType) and (mod.startswith(PROJECT) or f in self.registry):
            return self.call_real(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, (*f.args, *args), {**f.keywords, **kwargs})
        wrapped = getattr(f, "__wrapped__", None)
        if isinstance(wrapped, types.FunctionType) and (wrapped.__module__ or "").startswith(PROJECT):
            return self.call_real(wrapped, args, kwargs)
        if hasattr(f, "f") and hasattr(f, "__name__") and mod.startswith("numpy"):
            pass
        # native
        if is_sym(args) or is_sym(kwargs):
            if h is None:
                try:
                    nargs = nativize(tuple(args))
                    nkw = nativize(dict(kwargs))
                except Unsupported:
                    raise Unsupported(f"call of unmodelled function {getattr(f, '__qualname__', f)}") from None
                return self.native(f, nargs, nkw)
            return self.handler(h, args, kwargs)
        return self.native(f, args, kwargs)

    def _override(self, f):
        try:
            return self.overrides.get(f)
        except TypeError:
            return None

    def handler(self, h, args, kwargs):
        args = tuple(self._delist(a) for a in args)
        kwargs = {k: self._delist(v) for k, v in kwargs.items()}
        odd = {"out", "where", "keepdims", "initial", "casting"} & set(kwargs)
        if odd and not odd <= set(inspect.signature(h).parameters):
            raise Unsupported(f"keyword {sorted(odd)} of a library call")
        try:
            return h(self.ctx, *args, **kwargs)
        except TypeError as e:
            if "argument" in str(e):
                raise Unsupported(f"unmodelled call form: {e}") from e
            raise

    def _delist(self, a):
        if isinstance(a, SymList):
            return a.arr
        return a

    def native(self, f, args, kwargs):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(*args, **kwargs)
        except Unsupported:
            raise
        except IRaise:
            raise
        except Exception as e:  # noqa: BLE001
            raise IRaise(e) from e
        return self.wrap(r)

    def wrap(self, r):
        if isinstance(r, np.ndarray) and r.dtype.kind in "biuf" and r is not ma.masked:
            return Arr.from_numpy(r)
        if isinstance(r, tuple) and type(r) is tuple:
            return tuple(self.wrap(x) for x in r)
        return r

    def call_real(self, f, args, kwargs):
        c = self.registry.get(f)
        if c is not None and f is not self.top:
            return c.apply_at_call(self, args, kwargs)
        node = func_ast(f)
        for d in node.decorator_list:
            nm = ast.unparse(d)
            if nm not in ("staticmethod", "classmethod", "property", "override", "abstractmethod", "abc.abstractmethod"):
                raise Unsupported(f"decorator {nm}")
        self.ctx.functions.add(f"{f.__module__}:{f.__qualname__}")
        defcls = None
        q = f.__qualname__.split(".")
        if len(q) >= 2 and q[-2] != "<locals>":
            mod = inspect.getmodule(f)
            o = mod
            for p in q[:-1]:
                o = getattr(o, p, None)
            defcls = o if isinstance(o, type) else None
        fv = FnVal(node, None, f.__globals__, f.__name__, f.__qualname__, defcls,
                   list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}))
        if f.__closure__:
            env = Env(f.__globals__)
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                if nm == "__class__":
                    continue
                env.vars[nm] = cell.cell_contents
            fv.env = env
        return self.call_fnval(fv, args, kwargs)

    def call_fnval(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion depth")
        nenv = len(self.envs)
        try:
            env = Env(f.glb, f.env, f)
            self.envs.append(env)
            env.defcls = f.defcls
            a = f.node.args
            if isinstance(f.node, ast.FunctionDef):
                key = id(f.node)
                loc = _LOC.get(key)
                if loc is None:
                    loc = (f.node, assigned_names(f.node))
                    _LOC[key] = loc
                env.locals = loc[1]
            names = [x.arg for x in a.posonlyargs + a.args]
            vals = list(args)
            if len(vals) > len(names):
                if a.vararg is None:
                    raise IRaise(TypeError(f"{f.name}() takes {len(names)} positional arguments"))
                env.vars[a.vararg.arg] = tuple(vals[len(names):])
                vals = vals[:len(names)]
            elif a.vararg is not None:
                env.vars[a.vararg.arg] = ()
            for n, v in zip(names, vals):
                env.vars[n] = v
            kw = dict(kwargs)
            for n in names[len(vals):]:
                if n in kw:
                    env.vars[n] = kw.pop(n)
            d = f.defaults
            for n, v in zip(names[len(names) - len(d):], d):
                if n not in env.vars:
                    env.vars[n] = v
            for x in a.kwonlyargs:
                if x.arg in kw:
                    env.vars[x.arg] = kw.pop(x.arg)
                elif x.arg in f.kwdefaults:
                    env.vars[x.arg] = f.kwdefaults[x.arg]
            if a.kwarg is not None:
                env.vars[a.kwarg.arg] = kw
                kw = {}
            if kw:
                raise IRaise(TypeError(f"{f.name}() got unexpected keyword {sorted(kw)}"))
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in env.vars:
                    raise IRaise(TypeError(f"{f.name}() missing argument {n}"))
            if names:
                env.self_obj = env.vars.get(names[0])
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if any(isinstance(s, (ast.Yield, ast.YieldFrom)) for s in _own_walk(f.node)):
                raise Unsupported("generator function")
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            del self.envs[nenv:]

    def frames_vars(self):
        out, seen = [], set()
        for e in self.envs:
            while e is not None:
                if id(e) not in seen:
                    seen.add(id(e))
                    out.append(e.vars)
                e = e.parent
        return out

    def instantiate(self, cls, args, kwargs):
        mod = cls.__module__ or ""
        if issubclass(cls, BaseException):
            try:
                return cls(*[self.fmt(a) if is_sym(a) else a for a in args])
            except TypeError as e:
                raise IRaise(e) from e
        if mod.startswith(PROJECT) and not issubclass(cls, (int, str)):
            if issubclass(cls, tuple) and hasattr(cls, "_fields"):
                o = Obj(cls)
                vals = dict(zip(cls._fields, args))
                vals.update(kwargs)
                for k in cls._fields:
                    if k not in vals:
                        if k in cls._field_defaults:
                            vals[k] = cls._field_defaults[k]
                        else:
                            raise IRaise(TypeError(f"missing {k}"))
                o.attrs.update(vals)
                return o
            o = Obj(cls)
            init = None
            for c in cls.__mro__:
                if "__init__" in c.__dict__:
                    init = c.__dict__["__init__"]
                    break
            if dataclasses.is_dataclass(cls) and init is not None and not _has_source(init):
                fields = [f for f in dataclasses.fields(cls) if f.init]
                vals = dict(zip([f.name for f in fields], args))
                vals.update(kwargs)
                for f in dataclasses.fields(cls):
                    if f.name not in vals:
                        if f.default is not dataclasses.MISSING:
                            vals[f.name] = f.default
                        elif f.default_factory is not dataclasses.MISSING:
                            vals[f.name] = f.default_factory()
                        else:
                            raise IRaise(TypeError(f"missing {f.name}"))
                o.attrs.update(vals)
                return o
            if isinstance(init, types.FunctionType):
                self.call(init, (o, *args), kwargs)
            return o
        if is_sym(args) or is_sym(kwargs):
            if cls in (np.float32, np.float64, np.int32, np.int64):
                return H[float if "float" in cls.__name__ else int](self.ctx, *args)
            return self.native(cls, nativize(tuple(args)), nativize(dict(kwargs)))
        return self.native(cls, args, kwargs)

    def builtin_method(self, f, args, kwargs):
        obj, name = f.__self__, f.__name__
        if isinstance(obj, list):
            if name in ("append", "extend", "insert", "pop", "remove", "sort", "clear", "reverse"):
                saved = list(obj)
                self.log(("list", obj, saved))
                if name == "append":
                    self.on_append(obj, args[0])
                    return None
                if name == "extend":
                    obj.extend(self.iterate(args[0]))
                    return None
                if name in ("remove", "sort") and is_sym(obj):
                    raise Unsupported(f"list.{name} symbolic")
        if isinstance(obj, dict):
            if name in ("update", "pop", "setdefault", "clear", "popitem"):
                self.log(("dict", obj, dict(obj)))
            if name == "get" and isinstance(args[0], S):
                raise Unsupported("dict.get symbolic key")
        if isinstance(obj, set) and name in ("add", "update", "discard", "remove"):
            self.log(("set", obj, set(obj)))
            if is_sym(args):
                raise Unsupported("set of symbolic values")
        if isinstance(obj, str) and is_sym(args):
            if name == "join" or name == "format":
                return "<?>"
            raise Unsupported(f"str.{name} with symbolic argument")
        if isinstance(obj, list) and name in ("index", "count") and (is_sym(obj) or is_sym(args)):
            raise Unsupported("list search with symbolic")
        try:
            return f(*args, **kwargs)
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            raise IRaise(e) from e

    def on_append(self, lst, v):
        lst.append(v)

    def builtin_iter(self, f, args, kwargs):
        ctx = self.ctx
        if f is dict:
            d = {}
            if args:
                if isinstance(args[0], dict):
                    d.update(args[0])
                else:
                    for k, v in self.iterate(args[0]):
                        d[k] = v
            d.update(kwargs)
            return d
        if f is range:
            a = [S.of(x) for x in args]
            if all(x.conc() for x in a):
                if any(x.k == "f" for x in a):
                    raise IRaise(TypeError("float range"))
                return range(*[int(x.v) for x in a])
            if len(a) == 1:
                lo, hi, st = S("i", 0), a[0], 1
            elif len(a) == 2:
                lo, hi, st = a[0], a[1], 1
            else:
                lo, hi = a[0], a[1]
                if is_z(a[2].v):
                    raise Unsupported("range symbolic step")
                st = a[2].v
            if st == 1:
                n = z3.simplify(to_int(hi.v) - to_int(lo.v))
                if not ctx.valid_quick(n >= 0):
                    n = z3.If(n >= 0, n, z3.IntVal(0))
                return SymIter(n, lambda k: S("i", dnorm(to_int(lo.v) + to_int(k))))
            if st == -1:
                n = z3.simplify(to_int(lo.v) - to_int(hi.v))
                if not ctx.valid_quick(n >= 0):
                    n = z3.If(n >= 0, n, z3.IntVal(0))
                return SymIter(n, lambda k: S("i", dnorm(to_int(lo.v) - to_int(k))))
            raise Unsupported("range step")
        if f is enumerate:
            it = self.symiter(args[0])
            start = args[1] if len(args) > 1 else kwargs.get("start", 0)
            if it is None:
                return [(i + start, x) for i, x in enumerate(self.iterate(args[0]))]
            return SymIter(it.n, lambda k: (S("i", dnorm(to_int(k) + start)) if (is_z(k) or start) else k, it.item(k)))
        if f is zip:
            its = [self.symiter(a) for a in args]
            if all(i is None for i in its):
                cols = [list(self.iterate(a)) for a in args]
                if kwargs.get("strict") and len({len(c) for c in cols}) > 1:
                    raise IRaise(ValueError("zip() arguments of different length"))
                return list(zip(*cols))
            n = None
            items = []
            for i, a in zip(its, args):
                if i is None:
                    lst = list(self.iterate(a))
                    i = SymIter(len(lst), None)
                    raise Unsupported("zip of symbolic and concrete sequences")
                if n is None:
                    n = i.n
                elif ctx.pair_runs(n, i.n):
                    pass
                elif not ctx.same_dim(n, i.n):
                    if kwargs.get("strict"):
                        raise IRaise(ValueError("zip() arguments of different length"))
                    n = npm.imin(n, i.n)
                items.append(i.item)
            return SymIter(n, lambda k: tuple(g(k) for g in items))
        if f in (list, tuple):
            if not args:
                return f()
            if isinstance(args[0], SymList):
                return SymList(args[0].arr.copy())
            it = self.symiter(args[0])
            if it is not None:
                if isinstance(args[0], Arr) and args[0].ndim == 1:
                    return SymList(args[0].copy())
                probe = it.item(z3.Int("probe?"))
                if isinstance(probe, S):
                    return SymList(Arr((it.n,), probe.k, lambda idx: it.item(idx[0])))
                raise Unsupported("list() of symbolic iterable")
            return f(self.iterate(args[0]))
        if f is set:
            x = list(self.iterate(args[0])) if args else []
            if is_sym(x):
                raise Unsupported("set of symbolic")
            return set(x)
        if f is reversed:
            it = self.symiter(args[0])
            if it is not None:
                return SymIter(it.n, lambda k: it.item(dnorm(to_int(it.n) - 1 - to_int(k))))
            return list(self.iterate(args[0]))[::-1]
        if f is sorted:
            x = list(self.iterate(args[0]))
            if is_sym(x):
                raise Unsupported("sorted symbolic")
            return sorted(x, **kwargs)
        if f is map:
            return [self.call(args[0], t) for t in zip(*[list(self.iterate(a)) for a in args[1:]])]
        if f is filter:
            return [x for x in self.iterate(args[1]) if self.truth(self.call(args[0], (x,)))]
        raise Unsupported(str(f))

    def symiter(self, x):
        """SymIter when x has a symbolic length, else None."""
        if isinstance(x, SymIter):
            return x if is_z(x.n) else None
        if isinstance(x, SymList):
            x = x.arr
        if isinstance(x, Arr) and x.ndim >= 1 and is_z(x.shape[0]):
            return SymIter(x.shape[0], lambda k: npm.getitem(self.ctx, x, S("i", k)) if is_z(k) else npm.getitem(self.ctx, x, k))
        return None

    def iterate(self, x):
        if isinstance(x, SymIter):
            if is_z(x.n):
                raise Unsupported("iteration over a symbolic range")
            return [x.item(k) for k in range(int(x.n))]
        if isinstance(x, SymList):
            x = x.arr
        if isinstance(x, Arr):
            if x.ndim == 0:
                raise IRaise(TypeError("iteration over a 0-d array"))
            if is_z(x.shape[0]):
                raise Unsupported("iteration over a symbolic array")
            return [npm.getitem(self.ctx, x, k) for k in range(x.shape[0])]
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "biuf":
                a = Arr.from_numpy(x)
                return [npm.getitem(self.ctx, a, k) for k in range(x.shape[0])]
            return list(x)
        if isinstance(x, (list, tuple, range, str, set, frozenset)) or isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(x)
        if isinstance(x, dict):
            return list(x)
        if isinstance(x, Obj) and issubclass(x.cls, tuple):
            return [x.attrs[k] for k in x.cls._fields]
        if isinstance(x, Obj) or isinstance(x, (S, Opaque)) or x is None:
            if isinstance(x, (S,)) or x is None:
                raise IRaise(TypeError("not iterable"))
            raise Unsupported("iteration over object")
        if isinstance(x, type) and hasattr(x, "__members__"):
            return list(x)
        try:
            return list(x)
        except TypeError as e:
            raise IRaise(e) from e

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        ctx = self.ctx
        if isinstance(o, Obj):
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, property):
                        return self.call(d.fget, (o,))
                    if isinstance(d, functools.cached_property):
                        if name not in o.attrs:
                            o.attrs[name] = self.call(d.func, (o,))
                        return o.attrs[name]
                    break
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, staticmethod):
                        return d.__func__
                    if isinstance(d, classmethod):
                        return BoundFn(o.cls, d.__func__, c)
                    if isinstance(d, types.FunctionType):
                        return BoundFn(o, d, c)
                    if name in ("_replace", "_asdict") and issubclass(o.cls, tuple):
                        break
                    if type(d).__name__ in ("member_descriptor", "_tuplegetter"):
                        break
                    return d
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if name == "_replace":
                def rep(it, **kw):
                    return Obj(o.cls, {**o.attrs, **kw})
                b = Opaque("replace")
                return _Native(rep)
            raise IRaise(AttributeError(name))
        if isinstance(o, Arr):
            r = npfuncs.arr_attr(ctx, o, name)
            if isinstance(r, Exception):
                raise r
            return r
        if isinstance(o, S):
            if name in ("shape",):
                return ()
            if name == "ndim":
                return 0
            if name == "size":
                return 1
            if name == "mask":
                return S("b", o.m)
            if name == "data":
                return S(o.k, o.v, o.nan)
            if name == "dtype":
                return np.dtype({"b": bool, "i": np.int64, "f": float}[o.k])
            if name == "item":
                return _Native(lambda it: o)
            if name in npfuncs.METHODS:
                return BoundMethod(npm.as_arr(ctx, o), name)
            if not any(hasattr(t, name) for t in (np.float64, ma.MaskedArray, float)):
                raise IRaise(AttributeError(name))
            raise Unsupported(f"scalar attribute {name}")
        if isinstance(o, SuperProxy):
            mro = o.obj.cls.__mro__ if isinstance(o.obj, Obj) else o.obj.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return BoundFn(o.obj, d, c)
                    if isinstance(d, property):
                        return self.call(d.fget, (o.obj,))
                    if name == "__init__":
                        return _Native(lambda it, *a, **k: None)
                    return d
            raise IRaise(AttributeError(name))
        if isinstance(o, SymList):
            if name == "append":
                return _Native(lambda it, v: o.append(it, v))
            raise Unsupported(f"list attribute {name}")
        if isinstance(o, Opaque):
            raise Unsupported(f"attribute of opaque value {o.what}.{name}")
        if isinstance(o, np.ndarray) and o.dtype.kind in "biuf" and o is not ma.masked:
            return self.getattr(Arr.from_numpy(o), name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise IRaise(e) from e

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            for c in o.cls.__mro__:
                d = c.__dict__.get(name)
                if isinstance(d, property):
                    if d.fset is None:
                        raise IRaise(AttributeError(name))
                    self.call(d.fset, (o, v))
                    return
            self.log(("attr", o, name, o.attrs.get(name, _MISSING)))
            o.attrs[name] = v
            return
        if isinstance(o, Arr) and name == "mask":
            if not o.masked:
                raise IRaise(AttributeError("mask"))
            self.log_arr(o)
            f = o.fn()
            if isinstance(v, (bool, np.bool_)) or v is ma.nomask:
                o.set_fn(lambda idx: S(f(idx).k, f(idx).v, f(idx).nan, bool(v)), mask_touched=True)
            else:
                vv = npm.as_arr(self.ctx, v)
                g = npm.bfn(vv, o.shape)
                o.set_fn(lambda idx: S(f(idx).k, f(idx).v, f(idx).nan, g(idx).bool()), mask_touched=True)
            return
        raise Unsupported(f"setattr on {type(o).__name__}")

    def hasattr_(self, o, name):
        if isinstance(o, Arr):
            return hasattr(ma.MaskedArray if o.masked else np.ndarray, name)
        if isinstance(o, S) and name == "__len__":
            return False
        try:
            self.getattr(o, name)
            return True
        except IRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def isinstance_(self, o, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(o, c) for c in cls)
        if isinstance(cls, types.UnionType):
            return any(self.isinstance_(o, c) for c in cls.__args__)
        if isinstance(o, Arr):
            real = ma.MaskedArray if o.masked else np.ndarray
            return issubclass(real, cls) if isinstance(cls, type) else False
        if isinstance(o, S):
            t = {"b": (bool, np.bool_), "i": (int, np.integer), "f": (float, np.floating)}[o.k]
            if cls in t:
                return True
            if cls is int and o.k == "b":
                return True
            import collections.abc
            import numbers
            if cls in (numbers.Number, numbers.Real, np.generic, np.number):
                return True
            return False
        if isinstance(o, SymList):
            return cls is list or issubclass(list, cls)
        if isinstance(o, Obj):
            return issubclass(o.cls, cls) or cls in getattr(o.cls, "_standin_for", ())
        if isinstance(o, (FnVal, BoundFn)):
            return cls is types.FunctionType
        if isinstance(o, Opaque):
            raise Unsupported(f"isinstance of {o.what}")
        return isinstance(o, cls)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        ctx = self.ctx
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for tgt in s.targets:
                self.assign(tgt, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.Return:
            raise _Return(self.ev(s.value, env) if s.value is not None else None)
        elif t is ast.If:
            if self.truth(self.ev(s.test, env)):
                self.block(s.body, env)
            else:
                self.block(s.orelse, env)
        elif t is ast.For:
            self.for_(s, env)
        elif t is ast.While:
            self.while_(s, env)
        elif t is ast.Raise:
            if s.exc is None:
                raise env.lookup("__exc__") if False else Unsupported("bare raise")
            e = self.ev(s.exc, env)
            if isinstance(e, type):
                e = e()
            if isinstance(e, Obj):
                raise Unsupported("raise of project exception object")
            raise IRaise(e)
        elif t is ast.Pass:
            pass
        elif t is ast.Continue:
            raise _Continue
        elif t is ast.Break:
            raise _Break
        elif t is ast.Try:
            self.try_(s, env)
        elif t is ast.With:
            self.with_(s, env)
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise IRaise(AssertionError())
        elif t is ast.FunctionDef:
            env.vars[s.name] = self.closure(s, env)
        elif t is ast.Delete:
            for tgt in s.targets:
                if isinstance(tgt, ast.Name):
                    env.vars.pop(tgt.id, None)
                elif isinstance(tgt, ast.Subscript):
                    o = self.ev(tgt.value, env)
                    k = self.ev(tgt.slice, env)
                    if isinstance(o, dict):
                        self.log(("dict", o, dict(o)))
                        if k not in o:
                            raise IRaise(KeyError(k))
                        del o[k]
                    elif isinstance(o, list) and not is_sym(k):
                        self.log(("list", o, list(o)))
                        try:
                            del o[k]
                        except IndexError as e:
                            raise IRaise(e) from e
                    else:
                        raise Unsupported("del item")
                elif isinstance(tgt, ast.Attribute):
                    o = self.ev(tgt.value, env)
                    if isinstance(o, Obj) and tgt.attr in o.attrs:
                        self.log(("attr", o, tgt.attr, o.attrs[tgt.attr]))
                        del o.attrs[tgt.attr]
                    else:
                        raise IRaise(AttributeError(tgt.attr))
        elif t in (ast.Import, ast.ImportFrom):
            import importlib
            if t is ast.Import:
                for a in s.names:
                    m = importlib.import_module(a.name)
                    env.vars[(a.asname or a.name.split(".")[0])] = m if a.asname else importlib.import_module(a.name.split(".")[0])
            else:
                m = importlib.import_module(s.module, package=None)
                for a in s.names:
                    env.vars[a.asname or a.name] = getattr(m, a.name)
        elif t in (ast.Global, ast.Nonlocal):
            raise Unsupported("global/nonlocal")
        elif t is ast.Match:
            self.match_(s, env)
        else:
            raise Unsupported(f"statement {t.__name__}")

    def match_(self, s, env):
        v = self.ev(s.subject, env)
        for case in s.cases:
            if self.pattern(case.pattern, v, env) and (case.guard is None or self.truth(self.ev(case.guard, env))):
                self.block(case.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        raise Unsupported("match pattern")

    def closure(self, s, env):
        d = [self.ev(x, env) for x in s.args.defaults]
        kd = {a.arg: self.ev(x, env) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        name = getattr(s, "name", "<lambda>")
        q = (env.func.qual if env.func else "") + ".<locals>." + name
        fv = FnVal(s, env, env.glb, name, q, env.defcls, d, kd)
        return fv

    def try_(self, s, env):
        try:
            catches = any(h.type is None or "IndexError" in (t := ast.unparse(h.type)) or t in ("Exception", "BaseException", "LookupError") for h in s.handlers)
            depth = getattr(self.ctx, "catching", 0)
            try:
                self.ctx.catching = depth + 1 if catches else depth
                try:
                    self.block(s.body, env)
                finally:
                    self.ctx.catching = depth
            except IRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ty = BaseException
                    else:
                        ty = self.ev(h.type, env)
                    if isinstance(e.exc, ty):
                        if h.name:
                            env.vars[h.name] = e.exc
                        for st in h.body:
                            if isinstance(st, ast.Raise) and st.exc is None:
                                raise
                            self.stmt(st, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def with_(self, s, env):
        entered = []
        for item in s.items:
            e = item.context_expr
            cm = self.ev(e, env)
            if isinstance(cm, Obj):
                enter = self.getattr(cm, "__enter__")
                v = self.call(enter)
                entered.append(cm)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, env)
            elif isinstance(cm, np.errstate) or isinstance(cm, warnings.catch_warnings) or type(cm).__name__ in ("nullcontext", "errstate") or cm is None:
                pass
            else:
                raise Unsupported(f"with {type(cm)}")
        try:
            self.block(s.body, env)
        finally:
            for cm in reversed(entered):
                self.call(self.getattr(cm, "__exit__"), (None, None, None))

    def assign(self, tgt, v, env):
        t = type(tgt)
        if t is ast.Name:
            if self.ctx.record is not None:
                self.ctx.record.append(("var", env, tgt.id, env.vars.get(tgt.id, _MISSING)))
            env.vars[tgt.id] = v
        elif t in (ast.Tuple, ast.List):
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, S) or isinstance(v, Arr) and is_z(v.shape[0]):
                if isinstance(v, Arr):
                    if not self.ctx.same_dim(v.shape[0], len(tgt.elts)):
                        raise IRaise(ValueError("unpack"))
                    vals = [npm.getitem(self.ctx, v, k) for k in range(len(tgt.elts))]
                else:
                    raise IRaise(TypeError("cannot unpack"))
            else:
                vals = list(self.iterate(v))
            if star:
                i = star[0]
                after = len(tgt.elts) - i - 1
                if len(vals) < len(tgt.elts) - 1:
                    raise IRaise(ValueError("not enough values to unpack"))
                for e, x in zip(tgt.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(tgt.elts[i].value, vals[i:len(vals) - after], env)
                for e, x in zip(tgt.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(tgt.elts):
                raise IRaise(ValueError("unpack mismatch"))
            for e, x in zip(tgt.elts, vals):
                self.assign(e, x, env)
        elif t is ast.Attribute:
            self.setattr(self.ev(tgt.value, env), tgt.attr, v)
        elif t is ast.Subscript:
            self.setitem(self.ev(tgt.value, env), self.ev(tgt.slice, env), v)
        else:
            raise Unsupported(f"assign {t.__name__}")

    def log_arr(self, a):
        if self.ctx.record is not None:
            b = a
            while b.view is not None:
                b = b.view[0]
            self.ctx.record.append(("arr", b, b._fn, b._nomask))

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            if isinstance(k, S):
                if not k.conc():
                    raise Unsupported("dict symbolic key")
                k = k.py()
            self.log(("dict", o, dict(o)))
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, S) and k.conc():
                k = k.py()
            if is_sym(k):
                raise Unsupported("list symbolic index")
            self.log(("list", o, list(o)))
            try:
                o[k] = v
            except IndexError as e:
                raise IRaise(e) from e
            return
        if isinstance(o, Arr):
            self.log_arr(o)
            if isinstance(v, SymList):
                v = v.arr
            if isinstance(k, SymList):
                k = k.arr
            if isinstance(k, tuple):
                k = tuple(x.arr if isinstance(x, SymList) else x for x in k)
            npm.setitem(self.ctx, o, k, v)
            return
        if isinstance(o, Obj):
            self.call(self.getattr(o, "__setitem__"), (k, v))
            return
        if isinstance(o, SymList):
            raise Unsupported("SymList setitem")
        raise Unsupported(f"setitem on {type(o)}")

    def augassign(self, s, env):
        op = _BIN[type(s.op)]
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = env.lookup(tgt.id)
            v = self.ev(s.value, env)
            self.assign(tgt, self.inplace(op, cur, v), env)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, env)
            cur = self.getattr(o, tgt.attr)
            v = self.ev(s.value, env)
            self.setattr(o, tgt.attr, self.inplace(op, cur, v))
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, env)
            k = self.ev(tgt.slice, env)
            cur = self.getitem(o, k)
            v = self.ev(s.value, env)
            if isinstance(cur, Arr) and cur.view is not None:
                # view: in-place op writes through, then numpy writes the view onto itself
                self.inplace(op, cur, v)
            else:
                self.setitem(o, k, self.binop(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            self.log_arr(cur)
            r = self.binop(op, cur, v)
            if isinstance(r, S):
                r = npm.as_arr(self.ctx, r)
            if r.ndim != cur.ndim:
                raise IRaise(ValueError("non-broadcastable output operand"))
            for p, q in zip(r.shape, cur.shape):
                if not self.ctx.same_dim(p, q):
                    raise IRaise(ValueError("non-broadcastable output operand"))
            if core.KORD[r.kind] > core.KORD[cur.kind]:
                raise IRaise(TypeError("Cannot cast ufunc output in place"))
            f = r.fn()
            k = cur.kind
            if cur.masked:
                old = cur.fn()
                # numpy.ma in-place: data under the mask untouched, masks are or-ed
                def fn(idx):
                    n = f(idx).cast(k)
                    return n
                cur.set_fn(fn, mask_touched=not r.nomask)
            else:
                cur.set_fn(lambda idx: npm._strip(f(idx).cast(k)))
            return cur
        if isinstance(cur, list) and op == "+":
            self.log(("list", cur, list(cur)))
            if isinstance(v, Arr):
                return self.binop(op, cur, v)
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, (dict, set)) and op in ("|",):
            self.log(("dict" if isinstance(cur, dict) else "set", cur, type(cur)(cur)))
            cur |= v
            return cur
        return self.binop(op, cur, v)

    # ------------------------------------------------------------ loops
    def for_(self, s, env):
        it = self.ev(s.iter, env)
        si = self.symiter(it)
        if si is None:
            broke = False
            for x in self.iterate(it):
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                self.block(s.orelse, env)
            return
        from . import loops
        loops.sym_for(self, s, env, si)

    def while_(self, s, env):
        from . import loops
        if loops.has_spec(self, s, env):
            loops.sym_while(self, s, env)
            return
        n = 0
        while True:
            c = self.ev(s.test, env)
            c = truthy(self.ctx, c)
            if is_z(c):
                raise Unsupported("while loop without invariant")
            if not c:
                self.block(s.orelse, env)
                return
            n += 1
            if n > 20000:
                raise Unsupported("while iteration limit")
            b0 = len(self.ctx.taken)
            try:
                self.block(s.body, env)
            except _Break:
                if len(self.ctx.taken) != b0 and self.ctx.symbolic:
                    raise Unsupported("while loop exit on a symbolic condition") from None
                return
            except _Continue:
                pass
            if len(self.ctx.taken) != b0 and self.ctx.symbolic:
                raise Unsupported("while loop with a symbolic body branch")

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, Obj):
            if any("__bool__" in c.__dict__ or "__len__" in c.__dict__ for c in v.cls.__mro__ if c is not object):
                raise Unsupported("truth of object")
            return True
        if isinstance(v, (Opaque,)):
            raise Unsupported(f"truth of {v.what}")
        if isinstance(v, (FnVal, BoundFn, BoundMethod)):
            return True
        if isinstance(v, SymList):
            n = v.arr.shape[0]
            return self.ctx.branch(to_int(n) > 0)
        return self.ctx.branch(truthy(self.ctx, v))

    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def ev_Constant(self, e, env):
        return e.value

    def ev_Name(self, e, env):
        v = env.lookup(e.id)
        return v

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(ast.Name(e.target.id, ast.Store()), v, env)
        return v

    def ev_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def ev_List(self, e, env):
        return list(self.elts(e.elts, env))

    def ev_Set(self, e, env):
        x = self.elts(e.elts, env)
        if is_sym(x):
            raise Unsupported("set of symbolic")
        return set(x)

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ev_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                kk = self.ev(k, env)
                if isinstance(kk, S):
                    raise Unsupported("dict symbolic key")
                d[kk] = self.ev(v, env)
        return d

    def ev_Lambda(self, e, env):
        return self.closure(e, env)

    def ev_IfExp(self, e, env):
        return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return False if isinstance(v, S) else v
            if not isand and t:
                return True if isinstance(v, S) and v.k == "b" else v
        return v

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        op = {ast.USub: "-", ast.Invert: "~", ast.UAdd: "+"}[type(e.op)]
        if not is_sym(v) and not isinstance(v, np.ndarray):
            return {"-": lambda: -v, "~": lambda: ~v, "+": lambda: +v}[op]()
        if isinstance(v, SymList):
            v = v.arr
        if isinstance(v, S):
            return {"-": lambda: -v, "~": lambda: ~v, "+": lambda: v}[op]()
        return npm.unop(self.ctx, op, v)

    def ev_BinOp(self, e, env):
        return self.binop(_BIN[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("arithmetic on opaque")
        for o, x, d in ((a, b, "__%s__"), (b, a, "__r%s__")):
            d = d % _DUNDER.get(op, "?")
            if isinstance(o, Obj) and any(d in c.__dict__ for c in o.cls.__mro__):
                return self.call(self.getattr(o, d), (x,))
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise Unsupported("operator on object")
        sa = isinstance(a, (S, Arr)) or isinstance(a, np.ndarray)
        sb = isinstance(b, (S, Arr)) or isinstance(b, np.ndarray)
        if isinstance(a, SymList):
            raise Unsupported("SymList arithmetic")
        if not sa and not sb:
            if isinstance(a, SymList) or isinstance(b, SymList):
                raise Unsupported("SymList arithmetic")
            if op == "%" and isinstance(a, str):
                return "<?>" if is_sym(b) else a % b
            try:
                return _NATIVE[op](a, b)
            except (TypeError, ValueError, ZeroDivisionError, OverflowError) as ex:
                raise IRaise(ex) from ex
        if isinstance(a, (list, tuple)) and isinstance(b, S) and op == "*":
            if b.conc():
                return a * b.v
            if len(a) == 1 and (isinstance(a[0], (S, int, float))):
                x = S.of(a[0])
                n = b.v
                return SymList(Arr((z3.If(n >= 0, n, z3.IntVal(0)) if not self.ctx.valid_quick(n >= 0) else n,), x.k, lambda idx: x))
            raise Unsupported("list repetition")
        if isinstance(a, str) or isinstance(b, str):
            if op == "+" or op == "%":
                return "<?>"
            raise Unsupported("string op")
        if op in ("<<", ">>"):
            x, y = S.of(a) if not isinstance(a, Arr) else a, S.of(b) if not isinstance(b, Arr) else b
            if isinstance(x, S) and isinstance(y, S) and x.conc() and y.conc():
                return x.v << y.v if op == "<<" else x.v >> y.v
            if isinstance(y, S) and y.conc():
                return npm.ew(self.ctx, lambda q: q.cast("i") * (1 << y.v) if op == "<<" else q.cast("i") // (1 << y.v), x, kind="i")
            raise Unsupported("symbolic shift")
        if op == "@":
            return self.matmul(a, b)
        if isinstance(a, (list, tuple)):
            a = npm.as_arr(self.ctx, a)
        if isinstance(b, (list, tuple)):
            b = npm.as_arr(self.ctx, b)
        if a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
            raise IRaise(TypeError("unsupported operand"))
        return npm.binop(self.ctx, op, a, b)

    def matmul(self, a, b):
        raise Unsupported("matmul")

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = self.compare(_CMP[type(op)], left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, (bool, np.bool_)) and isinstance(v, (bool, np.bool_)):
                    res = res and v
                elif isinstance(res, Arr) or isinstance(v, Arr):
                    raise Unsupported("chained array comparison")
                else:
                    res = S("b", b_and(truthy(self.ctx, res), truthy(self.ctx, v)))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("is", "is not"):
            if isinstance(a, S) and a.m is True and b is ma.masked or isinstance(b, S) and b.m is True and a is ma.masked:
                r = True
            elif b is ma.masked and isinstance(a, S):
                t = S("b", a.m)
                return t if op == "is" else ~t
            elif isinstance(a, S) and b in (True, False) and a.k == "b":
                t = s_cmp("==", a, b)
                return t if op == "is" else ~t
            else:
                r = a is b
            return r if op == "is" else not r
        if op in ("in", "not in"):
            r = self.contains(b, a)
            if isinstance(r, S):
                return r if op == "in" else ~r
            return r if op == "in" else not r
        if isinstance(a, SymList):
            a = a.arr
        if isinstance(b, SymList):
            b = b.arr
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of opaque")
        num = (S, Arr, np.ndarray, int, float, bool, np.generic)
        if isinstance(a, (S, Arr, np.ndarray)) or isinstance(b, (S, Arr, np.ndarray)):
            if isinstance(a, (list,)) and isinstance(b, (Arr, np.ndarray)):
                a = npm.as_arr(self.ctx, a)
            if isinstance(b, (list,)) and isinstance(a, (Arr, np.ndarray)):
                b = npm.as_arr(self.ctx, b)
            if not isinstance(a, num) or not isinstance(b, num):
                if op == "==":
                    return False
                if op == "!=":
                    return True
                raise IRaise(TypeError("unorderable"))
            return npm.cmpop(self.ctx, op, a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (is_sym(a) or is_sym(b)):
            if op not in ("==", "!="):
                raise Unsupported("ordering of symbolic tuples")
            if len(a) != len(b) or type(a) is not type(b):
                return op == "!="
            t = b_and(*[truthy(self.ctx, self.compare("==", x, y)) for x, y in zip(a, b)])
            return S("b", t if op == "==" else b_not(t))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for o, x, d in ((a, b, _CMPD[op][0]), (b, a, _CMPD[op][1])):
                if isinstance(o, Obj) and any(isinstance(c.__dict__.get(d), types.FunctionType) for c in o.cls.__mro__):
                    r = self.call(self.getattr(o, d), (x,))
                    if op != "!=":
                        return r
                    return ~r if isinstance(r, S) else not r
            if op == "==":
                return a is b
            if op == "!=":
                return a is not b
            raise Unsupported("object ordering")
        try:
            return _NCMP[op](a, b)
        except TypeError as ex:
            raise IRaise(ex) from ex

    def contains(self, c, x):
        if isinstance(c, Obj):
            return self.call(self.getattr(c, "__contains__"), (x,))
        if isinstance(c, (dict, str, set, frozenset)) or isinstance(c, (type({}.keys()),)):
            if isinstance(x, S):
                if x.conc():
                    return x.py() in c
                return S("b", b_or(*[s_cmp("==", x, y).v for y in c]))
            return x in c
        if isinstance(c, SymList):
            c = c.arr
        if isinstance(c, Arr):
            f = c.fn()
            if isinstance(x, Arr):
                raise Unsupported("array in array")
            x = S.of(x)
            return S("b", quant_nd("E", c.shape, lambda idx: s_cmp("==", x, f(idx)).v))
        if isinstance(c, (list, tuple, range)):
            if isinstance(c, range) and isinstance(x, S):
                return S("b", b_or(*[s_cmp("==", x, y).v for y in c]))
            if is_sym(x) or is_sym(c):
                if isinstance(x, S) or any(isinstance(y, S) for y in c):
                    out = []
                    for y in c:
                        if isinstance(y, (S, int, float, np.generic)) and isinstance(x, (S, int, float, np.generic)):
                            out.append(s_cmp("==", x, y).v)
                    return S("b", b_or(*out))
                return any(y is x for y in c)
            return x in c
        if isinstance(c, np.ndarray):
            return self.contains(Arr.from_numpy(c), x)
        if isinstance(c, Opaque):
            raise Unsupported(f"in {c.what}")
        try:
            return x in c
        except TypeError as e:
            raise IRaise(e) from e

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        return self.getitem(o, k)

    def ev_Slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(k, SymList):
            k = k.arr
        if isinstance(k, tuple):
            k = tuple(x.arr if isinstance(x, SymList) else x for x in k)
        if isinstance(o, SymList):
            r = npm.getitem(ctx, o.arr, k)
            return SymList(r) if isinstance(r, Arr) else r
        if isinstance(o, np.ndarray):
            if o.dtype.kind in "biuf":
                o = Arr.from_numpy(o)
            else:
                return o[nativize(k)]
        if isinstance(o, Arr):
            return npm.getitem(ctx, o, k)
        if isinstance(o, dict):
            if isinstance(k, S):
                if not k.conc():
                    raise Unsupported("dict symbolic key")
                k = k.py()
            try:
                return o[k]
            except (KeyError, TypeError) as ex:
                raise IRaise(ex) from ex
        if isinstance(o, (list, tuple, range, str)):
            if isinstance(k, slice):
                k = slice(*[self._cint(x) for x in (k.start, k.stop, k.step)])
            elif isinstance(k, S):
                if k.conc():
                    k = k.py()
                else:
                    if isinstance(o, str):
                        raise Unsupported("str symbolic index")
                    a = npm.as_arr(ctx, list(o))
                    return npm.getitem(ctx, a, k)
            elif isinstance(k, Arr):
                raise IRaise(TypeError("list indices must be integers"))
            try:
                return o[k]
            except (IndexError, TypeError) as ex:
                raise IRaise(ex) from ex
        if isinstance(o, Obj):
            if issubclass(o.cls, tuple):
                vals = [o.attrs[f] for f in o.cls._fields]
                return vals[k]
            return self.call(self.getattr(o, "__getitem__"), (k,))
        if isinstance(o, S):
            if k == () or k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
                if isinstance(k, slice):
                    raise IRaise(IndexError("invalid index to scalar variable."))
                return o
            raise IRaise(IndexError("invalid index to scalar variable."))
        if isinstance(o, Opaque):
            raise Unsupported(f"subscript of {o.what}")
        if o is np.r_:
            return self.np_r(k)
        if o is None:
            raise IRaise(TypeError("'NoneType' object is not subscriptable"))
        if isinstance(o, type):
            return o
        if is_sym(k):
            k = nativize(k)
        try:
            return self.wrap(o[k])
        except Exception as ex:
            raise IRaise(ex) from ex

    def np_r(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if any(isinstance(x, (slice, str)) for x in k):
            raise Unsupported("np.r_ slice")
        return npfuncs.concat(self.ctx, list(k), 0, masked=False)

    def _cint(self, x):
        if isinstance(x, S):
            if not x.conc():
                raise Unsupported("symbolic slice of a list")
            return x.py()
        return x

    def ev_Call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            return SuperProxy(env_self(env), env_cls(env))
        f = self.ev(fn, env)
        if (getattr(f, "__module__", None) or "") in IGNORE_MODULES and not isinstance(f, type):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, env))
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if isinstance(f, _Native):
            return f.f(self, *args, **kwargs)
        if isinstance(f, Obj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        return self.call(f, args, kwargs, e)

    def fmt(self, x):
        if isinstance(x, S) and x.conc():
            return str(x.py())
        return "<?>"

    def ev_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, env)
                if is_sym(x):
                    out.append(self.fmt(x))
                else:
                    if v.conversion == 114:
                        x = repr(x)
                    spec = self.ev(v.format_spec, env) if v.format_spec else ""
                    try:
                        out.append(format(x, spec))
                    except (ValueError, TypeError) as ex:
                        raise IRaise(ex) from ex
        return "".join(out)

    def comp(self, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        it = self.ev(g.iter, env)
        for x in self.iterate(it):
            self.assign(g.target, x, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                self.comp(gens[1:], env, emit)

    def _compenv(self, env):
        e = Env(env.glb, env, env.func)
        e.self_obj, e.defcls = env.self_obj, env.defcls
        return e

    def ev_ListComp(self, e, env):
        if len(e.generators) == 1:
            it = self.ev(e.generators[0].iter, env)
            si = self.symiter(it)
            if si is not None:
                from . import loops
                return loops.sym_comp(self, e, env, si)
        out = []
        ne = self._compenv(env)
        self.comp(e.generators, ne, lambda x: out.append(self.ev(e.elt, x)))
        return out

    def ev_GeneratorExp(self, e, env):
        r = self.ev_ListComp(e, env)
        if isinstance(r, SymList):
            return r.arr
        return r

    def ev_SetComp(self, e, env):
        r = self.ev_ListComp(e, env)
        if is_sym(r):
            raise Unsupported("symbolic set")
        return set(r)

    def ev_DictComp(self, e, env):
        out = {}
        ne = self._compenv(env)

        def emit(x):
            k = self.ev(e.key, x)
            out[k] = self.ev(e.value, x)
        self.comp(e.generators, ne, emit)
        return out

    def ev_Starred(self, e, env):
        raise Unsupported("starred")


_DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod"}
_CMPD = {"==": ("__eq__",) * 2, "!=": ("__eq__",) * 2, "<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"), "<=": ("__le__", "__ge__"), ">=": ("__ge__", "__le__")}


class _Native:
    def __init__(self, f):
        self.f = f


class _Missing:
    pass


_MISSING = _Missing()


def env_self(env):
    e = env
    while e is not None and e.self_obj is None:
        e = e.parent
    if e is None:
        raise Unsupported("super outside method")
    return e.self_obj


def env_cls(env):
    e = env
    while e is not None and e.defcls is None:
        e = e.parent
    if e is None:
        raise Unsupported("super outside class")
    return e.defcls


def _has_source(f):
    if not isinstance(f, types.FunctionType):
        return False
    return not f.__code__.co_filename.startswith("<")


def _own_walk(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(x))


_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
_NATIVE = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
           "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a**b, "&": lambda a, b: a & b,
           "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
_NCMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
         ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
