"""Runs contracts: verification conditions, discharge, engine cross-check against
CPython, counterexample replay and bounded contract checking on the real function."""

from __future__ import annotations

import base64
import copy
import hashlib
import itertools
import json
import logging
import math
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np
import z3
from numpy import ma

from . import core, ctx as ctxmod
from .core import Arr, PathAbort, S, Unsupported, b_and, b_not, is_z, to_bool, to_int
from .ctx import Ctx, IRaise, has_quant
from .interp import Interp, Obj, SymList
from .loops import PathEnd
from .spec import (C, Contract, Gen, LoopSpec, NS, ObjView, T, _d, lift, mkobj, resolve, snap_sym, symlift)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


# ------------------------------------------------------------------ frame walk
def children(x):
    if isinstance(x, Obj):
        return {f".{k}": v for k, v in x.attrs.items()}
    if isinstance(x, ObjView):
        o = x._o
        d = getattr(o, "__dict__", None)
        if d is None and hasattr(o, "_fields"):
            d = {k: getattr(o, k) for k in o._fields}
        return {f".{k}": lift(v) for k, v in (d or {}).items()}
    if isinstance(x, dict):
        return {f"[{k}]": v for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return {f"[{k}]": v for k, v in enumerate(x)}
    return None


def frame(c, old, new, modifies, path, depth=0):
    """yield (name, bool) : everything not listed in modifies is unchanged"""
    if depth > 6 or any(path == m or path.startswith(m + ".") or path.startswith(m + "[") for m in modifies):
        return
    old, new = symlift(old), symlift(new)
    if isinstance(old, Arr):
        if not isinstance(new, Arr):
            yield f"frame: {path} unchanged", S("b", False)
        elif old is not new and old._fn is not getattr(new, "_fn", None):
            yield f"frame: {path} unchanged", c.all_exact(new, old)
        return
    if isinstance(old, S):
        yield f"frame: {path} unchanged", (c.exact(new, old) if isinstance(new, S) else S("b", False))
        return
    co = children(old)
    if co is None:
        return
    cn = children(new)
    if cn is None:
        yield f"frame: {path} unchanged", S("b", False)
        return
    for k in co:
        if k not in cn:
            if not any((path + k).startswith(m) for m in modifies):
                yield f"frame: {path}{k} still present", S("b", False)
            continue
        yield from frame(c, co[k], cn[k], modifies, path + k, depth + 1)
    for k in cn:
        if k not in co and not any((path + k).startswith(m) for m in modifies) and isinstance(old, dict):
            yield f"frame: no new entry {path}{k}", S("b", False)


def exc_allowed(contract, c, a, exc):
    """condition under which raising exc is permitted (None: never)."""
    for et, cond in contract.raises:
        if isinstance(exc, et):
            return cond(c, a) if callable(cond) else cond
    return None


# ------------------------------------------------------------------ symbolic
class Obl:
    def __init__(self, name, term, pc, ctx, path, args):
        self.name, self.term, self.pc, self.ctx, self.path, self.args = name, term, pc, ctx, path, args
        self.status = None
        self.backend = None
        self.secs = 0.0
        self.model = None
        self.why = ""


def sym_path(contract, variant, prefix, registry):
    ctx = Ctx(prefix)
    c = C(ctx, {}, goal=False)
    for dn, lo in contract.dims.items():
        v = z3.Int("dim_" + dn)
        c.d[dn] = v
        ctx.assume(v >= lo)
    args = {k: _d(t).sym(c, k) for k, t in variant.items()}
    a_old = NS({k: symlift(snap_sym(v)) for k, v in args.items()})
    if contract.requires:
        for t in contract.requires(c, a_old):
            ctx.assume(c._b(t))
    ctx.inputs = {f"{n}!{i}{x}" for n, m in ctx.counter.items() for i in range(m) for x in ("", "_m", "_nan")} | {"dim_" + n for n in contract.dims}
    it = Interp(ctx, registry, {})
    it.loop_specs = {(q, o): s for (q, o), s in contract.loops.items()}
    it.overrides = contract.overrides
    f = contract.func()
    it.top = f
    it.spec_ctx = C(ctx, c.d, goal=True)
    it.spec_ctx.a = a_old
    info = dict(ctx=ctx, c=c, a=a_old, args=args, outcome=None)
    try:
        if contract.call:
            r = contract.call(it, f, dict(args))
        else:
            r = it.call(f, (), dict(args)) if not contract_pos(f) else it.call(f, tuple(args.values()), {})
        info["outcome"] = "return"
        info["r"] = r
    except IRaise as e:
        info["outcome"] = "raise"
        info["exc"] = e.exc
    except PathEnd:
        info["outcome"] = "inv"
    return info


def contract_pos(f):
    import inspect
    try:
        return any(p.kind in (p.POSITIONAL_ONLY, p.VAR_POSITIONAL) for p in inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return True


def explore(contract, variant, registry, deadline):
    obls, paths = [], []
    funcs, ccalls = set(), set()
    work = [()]
    n = 0
    while work:
        if time.time() > deadline:
            raise Unsupported("path exploration time limit")
        prefix = work.pop()
        n += 1
        if n > 600:
            raise Unsupported("too many paths")
        try:
            info = sym_path(contract, variant, prefix, registry)
        except PathAbort:
            continue
        ctx = info["ctx"]
        work.extend(ctx.pending)
        funcs |= ctx.functions
        ccalls |= ctx.contract_calls
        a = info["a"]
        c = C(ctx, info["c"].d, goal=True)
        pid = f"path {n}"
        if info["outcome"] == "return":
            p = NS({k: symlift(v) for k, v in info["args"].items()})
            r = symlift(info["r"])
            try:
                for nm, t in contract.spec(c, a, r, p):
                    ctx.oblige(nm, c._b(t))
                for k in info["args"]:
                    for nm, t in frame(c, a[k], p[k], contract.modifies, k):
                        ctx.oblige(nm, c._b(t))
            except IRaise as e:
                raise Unsupported(f"specification raised {e.exc!r}") from e
        elif info["outcome"] == "raise":
            cond = exc_allowed(contract, c, a, info["exc"])
            nm = f"raises {type(info['exc']).__name__} ({str(info['exc'])[:60]}) only when allowed"
            ctx.oblige(nm, False if cond is None else c._b(cond))
        for nm, t, pc in ctx.obls:
            obls.append(Obl(nm, t, pc, ctx, pid, info["args"]))
        paths.append(info)
    return obls, paths, funcs, ccalls


def split(t):
    if z3.is_eq(t) and z3.is_bool(t.arg(0)) and not z3.is_true(t.arg(1)) and not z3.is_false(t.arg(1)):
        p, q = t.children()
        return split(z3.Implies(p, q)) + split(z3.Implies(q, p))
    if z3.is_and(t):
        return [y for x in t.children() for y in split(x)]
    if z3.is_implies(t):
        return [z3.Implies(t.arg(0), y) for y in split(t.arg(1))]
    if z3.is_or(t) and t.num_args():
        ch = t.children()
        return [z3.Or(*ch[:-1], y) for y in split(ch[-1])]
    return [t]


def symbols(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                acc.add(nm)
                if nm in ctxmod._SUMS:
                    st.append(ctxmod._SUMS[nm][2])
            st.extend(x.children())


MATH_AX = None


def math_axioms(syms):
    """facts about the mathematical functions that occur (quantified, with patterns)."""
    R = z3.RealSort()
    x, y = z3.Real("ax"), z3.Real("ay")
    out = []
    f = lambda n: core.ufun("m_" + n, R, R)
    if "m_pow10" in syms or "m_log10" in syms:
        p, l = f("pow10"), f("log10")
        out.append(z3.ForAll([x], p(x) > 0, patterns=[p(x)]))
        out.append(z3.ForAll([x], l(p(x)) == x, patterns=[p(x)]))
        out.append(z3.ForAll([x], z3.Implies(x > 0, p(l(x)) == x), patterns=[l(x)]))
        out.append(p(0) == 1)
        out.append(l(1) == 0)
        if "m_pow10" in syms:
            out.append(z3.ForAll([x, y], z3.Implies(x < y, p(x) < p(y)), patterns=[z3.MultiPattern(p(x), p(y))]))
        if "m_log10" in syms:
            out.append(z3.ForAll([x, y], z3.Implies(z3.And(0 < x, x < y), l(x) < l(y)), patterns=[z3.MultiPattern(l(x), l(y))]))
    if "m_exp" in syms or "m_log" in syms:
        p, l = f("exp"), f("log")
        out.append(z3.ForAll([x], p(x) > 0, patterns=[p(x)]))
        out.append(z3.ForAll([x], l(p(x)) == x, patterns=[p(x)]))
        out.append(z3.ForAll([x], z3.Implies(x > 0, p(l(x)) == x), patterns=[l(x)]))
        out.append(p(0) == 1)
        out.append(z3.ForAll([x, y], z3.Implies(x < y, p(x) < p(y)), patterns=[z3.MultiPattern(p(x), p(y))]))
    if "m_sqrt" in syms:
        q = f("sqrt")
        out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(q(x) >= 0, q(x) * q(x) == x)), patterns=[q(x)]))
    if "m_pow" in syms:
        q = core.ufun("m_pow", R, R, R)
        even = z3.Or(*[y == k for k in (6, 8, 12, -2, -4, -6)])
        out.append(z3.ForAll([x, y], z3.And(z3.Implies(z3.Or(x > 0, z3.And(x != 0, even)), q(x, y) > 0), z3.Implies(z3.And(x == 0, y > 0), q(x, y) == 0)), patterns=[q(x, y)]))
    if "m_gamma" in syms:
        q = f("gamma")
        out.append(z3.ForAll([x], z3.Implies(x > 0, q(x) > 0), patterns=[q(x)]))
    for nm in ("cos", "sin"):
        if "m_" + nm in syms:
            q = f(nm)
            out.append(z3.ForAll([x], z3.And(q(x) <= 1, q(x) >= -1), patterns=[q(x)]))
            out.append(q(0) == (1 if nm == "cos" else 0))
            if nm == "cos":
                h = z3.Q(15707, 10000)
                out.append(z3.ForAll([x], z3.Implies(z3.And(x > -h, x < h), q(x) > 0), patterns=[q(x)]))
    if "m_cos" in syms and "m_sin" in syms:
        cs, sn = f("cos"), f("sin")
        out.append(z3.ForAll([x], cs(x) * cs(x) + sn(x) * sn(x) == 1, patterns=[z3.MultiPattern(cs(x), sn(x))]))
    return out


def _integral(t):
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return z3.is_int_value(t) or t.denominator_as_long() == 1
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k == z3.Z3_OP_ITE:
        return _integral(t.arg(1)) and _integral(t.arg(2))
    return k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB) and all(_integral(x) for x in t.children())


def sum_lemmas(exprs, limit=24):
    """theorems of finite sums, instantiated on the ground SUM terms that occur: equal summands give
    equal sums; non-negative summands give a sum that is at least each of them."""
    apps, seen = {}, set()
    st = list(exprs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ctxmod._SUMS and not _has_var(x):
                apps[i] = x
            st.extend(x.children())
    apps = list(apps.values())[:limit]
    out = []
    for n, x in enumerate(apps):
        lx, nx = ctxmod.sum_at(x)
        k = z3.FreshInt("sk")
        j = z3.Int("q!sj")
        neg = z3.And(k >= 0, k < nx, lx(k) < 0)
        if apps[n].num_args() < 1:
            continue
        t = z3.simplify(lx(k))
        if _integral(t):
            out.append(z3.ToReal(z3.ToInt(x)) == x)
        k = z3.FreshInt("sk")
        out.append(z3.Or(x == 0, z3.And(k >= 0, k < nx, lx(k) != 0)))
        out.append(z3.Or(neg, z3.And(x >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nx), x >= lx(j))))))
        for y in apps[n + 1:]:
            ly, ny = ctxmod.sum_at(y)
            k = z3.FreshInt("sk")
            out.append(z3.Implies(nx == ny, z3.Or(x == y, z3.And(k >= 0, k < nx, lx(k) != ly(k)))))
            for f, g, u, v in ((lx, ly, x, y), (ly, lx, y, x)):  # f <= g everywhere: sums ordered, equal only if f == g
                k = z3.FreshInt("sk")
                out.append(z3.Implies(nx == ny, z3.Or(z3.And(k >= 0, k < nx, f(k) > g(k)), z3.And(
                    u <= v, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nx, u == v), f(j) == g(j)))))))
    return [z3.simplify(t) for t in out]


def _sums_inside(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().name() in ctxmod._SUMS:
                return True
            st.extend(x.children())
    return False


def witnesses(g, pc, limit=10):
    """for a goal with existential parts that speak about sums: stronger goals, one per index term tried as witness"""
    if not _sums_inside(g):
        return []
    ex, cand, st, seen = [], {}, [(x, False) for x in pc] + [(g, True)], set()
    while st:
        x, top = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if top and not x.is_forall() and not x.is_lambda() and x.num_vars() == 1 and x.var_sort(0) == z3.IntSort() and _sums_inside(x):
                ex.append(x)
            continue
        if not z3.is_app(x):
            continue
        k = x.decl().kind()
        if x.num_args() and (k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or (k == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ctxmod._SUMS)):
            for y in x.children():
                if y.sort() == z3.IntSort() and not z3.is_int_value(y) and len(y.sexpr()) < 60:
                    cand.setdefault(y.sexpr(), y)
        st.extend((y, top) for y in x.children())
    if not ex:
        return []
    cs = sorted(cand.values(), key=lambda y: (len(y.sexpr()), y.sexpr()))
    more = {}
    for y in cs:
        for z in (y, y - 1):
            z = z3.simplify(z)
            more.setdefault(z.sexpr(), z)
    cs = list(more.values())[:2 * limit]
    out = []
    for y in cs:
        h = g
        for x in ex:
            h = z3.substitute(h, (x, z3.substitute_vars(x.body(), y)))
        out.append(z3.simplify(h))
    return out


_HINT = z3.Function("hint!", z3.IntSort(), z3.BoolSort())


def ranks(goal, limit=12):
    """the goal asks for a position k of a selection with coords(k) == t: mention rank(t), so that the facts
    of the selection are instantiated there (hint! is unconstrained: the hint says nothing)"""
    out, seen, st = {}, set(), [goal]
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        if x.decl().kind() == z3.Z3_OP_EQ:
            for u, v in (x.children(), reversed(x.children())):
                if z3.is_app(u) and u.num_args() and u.decl().name() in ctxmod.SELS and z3.is_var(u.arg(u.num_args() - 1)) and not _has_var(v) and v.sort() == z3.IntSort():
                    rf, lv = ctxmod.SELS[u.decl().name()]
                    if rf.arity() == len(lv) + 1:
                        t = rf(*u.children()[:-1], v)
                        if not _has_var(t):
                            out[t.get_id()] = t
        st.extend(x.children())
    return [_HINT(t) for t in out.values()]


def unfoldings(goal, recs, limit=12):
    if not recs:
        return ranks(goal)
    out, seen, st = ranks(goal), set(), [goal]
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in recs and x.num_args():
                t = recs[x.decl().name()](x)
                if t is not True:
                    out.append(t)
            st.extend(x.children())
    return out


def _has_var(x):
    st, seen = [(x, 0)], set()
    while st:
        t, d = st.pop()
        if (t.get_id(), d) in seen:
            continue
        seen.add((t.get_id(), d))
        if z3.is_var(t):
            if z3.get_var_index(t) >= d:
                return True
        elif z3.is_quantifier(t):
            st.append((t.body(), d + t.num_vars()))
        else:
            st.extend((c, d) for c in t.children())
    return False


def relevant(goal, pc, facts, inputs=None):
    """cone of influence over uninterpreted symbols (dropping hypotheses is sound)."""
    syms, seen = set(), set()
    symbols(goal, syms, seen)
    items = []
    for h in itertools.chain(pc, facts):
        s = set()
        symbols(h, s, set())
        items.append((h, s))
    base = set(syms)
    for h, s in items[:len(pc)]:
        base |= s
    # a fact about symbols introduced on the way (selections, results of library calls) only matters
    # when one of those occurs
    own = [frozenset(x for x in s if inputs is not None and x not in inputs and not x.startswith("m_")) for _, s in items]
    used = [False] * len(items)
    for i in range(len(pc)):
        used[i] = True
    changed = True
    while changed:
        changed = False
        for i, (h, s) in enumerate(items):
            if not used[i] and ((own[i] & base) if own[i] else (s & base)):
                used[i] = True
                changed = True
                base |= s
    return [h for (h, _), u in zip(items, used) if u], base


def sum_instances(g, hyps, limit=40):
    """instances of quantified hypotheses that speak about sums, at the cells named in the goal (a consequence of
    the hypotheses, spelled out so that the lemmas on sums can be stated for the sums in them)"""
    quants = [h for h in hyps if z3.is_quantifier(h) and h.is_forall() and _sums_inside(h)]
    if not quants:
        return []
    apps, out, done = {}, [], set()

    def collect(t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ctxmod._SUMS and not _has_var(x):
                apps.setdefault(x.decl().name(), {})[x.get_id()] = x
            st.extend(x.children())
    collect(g)
    for _ in range(2):
        new = []
        for h in quants:
            nv, pats, st, seen = h.num_vars(), [], [h.body()], set()
            while st:
                x = st.pop()
                if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().name() in apps and all(z3.is_var(c) or not _has_var(c) for c in x.children()) and {z3.get_var_index(c) for c in x.children() if z3.is_var(c)} == set(range(nv)):
                    pats.append(x)
                st.extend(x.children())
            for p in pats:
                for t in apps[p.decl().name()].values():
                    m = {}
                    if all((z3.is_var(a) and m.setdefault(z3.get_var_index(a), b).eq(b)) or (not z3.is_var(a) and a.eq(b)) for a, b in zip(p.children(), t.children())):
                        args = [m[i] for i in range(nv)]
                        key = (h.get_id(), tuple(a.get_id() for a in args))
                        if key not in done and len(done) < limit:
                            done.add(key)
                            new.append(z3.simplify(z3.substitute_vars(h.body(), *args)))
        if not new:
            break
        out += new
        for t in new:
            collect(t)
    return out


def _ground_sums(ts):
    out, seen, st = {}, set(), list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().name() in ctxmod._SUMS and not _has_var(x):
            out[x.get_id()] = x
        st.extend(x.children())
    return out


def sum_cuts(g, hyps, ms=800, limit=40):
    """lemmas proved on the way: two sums named in the goal or its hypotheses are equal, because their summands are
    (shown by a query of its own, with a new index)"""
    mine, every = _ground_sums([g]), _ground_sums([g, *hyps])
    neg = [z3.simplify(z3.Not(x)) for x in (g.children() if z3.is_or(g) else [g])]
    neg = [x for x in neg if not _sums_inside(x)]
    re = None
    out, tried, done = [], 0, set()
    for x in mine.values():
        lx, nx = ctxmod.sum_at(x)
        for y in every.values():
            if y.eq(x) or (y.get_id(), x.get_id()) in done or tried >= limit:
                continue
            done.add((x.get_id(), y.get_id()))
            ly, ny = ctxmod.sum_at(y)
            if not nx.eq(ny):
                continue
            tried += 1
            k = z3.FreshInt("sk")
            q = [*neg, k >= 0, k < nx, lx(k) != ly(k)]
            if re is None:
                try:
                    re = reindexed(hyps) or []
                except z3.Z3Exception:
                    re = []
            for hs in (hyps, re):
                if not hs:
                    continue
                try:
                    F, _ = abstract_nl([*hs, *q])
                except z3.Z3Exception:
                    F = [*hs, *q]
                s = z3.Solver()
                s.set("timeout", ms)
                s.add(*F)
                r = s.check()
                if r == z3.unsat:
                    out.append(x == y)
                    break
                if r == z3.sat:
                    break
    return out


XREL = [1e-9]


def by_witness(g, o, ms=1500):
    hyps, syms = relevant(g, o.pc, o.ctx.facts, o.ctx.inputs)
    hyps = hyps + math_axioms(syms) + unfoldings(g, o.ctx.recs)
    hyps = hyps + sum_instances(g, hyps)
    hyps = hyps + sum_lemmas([g] + hyps)
    ab, _ = abstract_nl([*hyps, z3.Not(g)])
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*ab)
    return s.check() == z3.unsat


def discharge(o: Obl, timeout_ms, quick=False):
    """prove o; sets status proved/refuted/unknown."""
    t0 = time.time()
    o.status = "proved"
    o.backend = "syntactic"
    for part in split(o.term):
        g = z3.simplify(part)
        if z3.is_true(g):
            continue
        ws = witnesses(g, o.pc)
        if any(by_witness(w, o, ms) for ms in (500, 2500) for w in ws):
            o.backend = "z3"
            continue
        hyps, syms = relevant(g, o.pc, o.ctx.facts, o.ctx.inputs)
        hyps = hyps + math_axioms(syms) + unfoldings(g, o.ctx.recs)
        if any(x in ctxmod._SUMS for x in syms):
            hyps = hyps + sum_instances(g, hyps)
            bare = hyps
            hyps = hyps + sum_lemmas([g] + hyps)
            if len(_ground_sums([g, *bare])) > 1:
                status, who, model, why = solve(g, hyps, timeout_ms, "first")
                if status == "unsat":
                    o.backend = who
                    continue
                eqs = sum_cuts(g, bare)
                if eqs:
                    status, who, model, why = solve(g, bare + eqs, timeout_ms, True)
                    if status == "unsat":
                        o.backend = who
                        continue
                    hyps = hyps + eqs
        status, who, model, why = solve(g, hyps, timeout_ms, quick)
        if status == "unsat":
            o.backend = who
            continue
        if status == "sat":
            o.status, o.backend, o.model = "refuted", who, model
        else:
            o.status, o.backend = "unknown", "z3,cvc5"
        o.why = why
        break
    o.secs = time.time() - t0
    return o.status


def solve(g, hyps, timeout_ms, quick=False):
    """-> (unsat|sat|unknown, back end, model, explanation); several strategies, short limits first"""
    slow = int(os.environ.get("PYVC_SLOW", "1"))
    timeout_ms = max(timeout_ms, min(timeout_ms * slow, 30000))
    short = min(4000 * slow, timeout_ms)
    plan = [(min(1000, short), {}), (min(1500, short), "cvc5"), (short, "reindexed"), (short, {}), (short, {"mbqi": False}), (short, {"random_seed": 7, "arith.solver": 2})]
    if quick:
        plan = plan[:1] if quick == "first" else plan[:3]
    else:
        plan += [(short, "cvc5"), (timeout_ms, {}), (timeout_ms // 2, {"mbqi": False, "random_seed": 3}), (timeout_ms, "cvc5")]
    why = []
    text = None
    try:
        ab, used = abstract_nl([*hyps, z3.Not(g)])
    except z3.Z3Exception:
        used = ()
    if used:
        plan.insert(0, (1000, "abstract"))
        plan.insert(2, (2500, "products"))
        if quick != "first":
            plan.insert(3, (short, "abstract"))
    for lim, cfg in plan:
        if cfg == "abstract":
            s = z3.Solver()
            s.set("timeout", lim)
            s.add(*ab)
            if s.check() == z3.unsat:
                return "unsat", "z3", None, ""
            continue
        if cfg == "products":
            s = z3.Solver()
            s.set("timeout", lim * slow)
            s.add(*abstract_products([*hyps, z3.Not(g)])[0])
            if s.check() == z3.unsat:
                return "unsat", "z3", None, ""
            continue
        if cfg == "reindexed":
            try:
                hy = reindexed(hyps)
            except z3.Z3Exception:
                hy = None
            if hy is None:
                continue
            s = z3.Solver()
            s.set("timeout", lim)
            s.add(*hy)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                return "unsat", "z3", None, ""
            continue
        if cfg == "cvc5":
            if text is None:
                s = z3.Solver()
                s.add(*hyps)
                s.add(z3.Not(g))
                text = "(set-logic ALL)\n" + s.to_smt2()
            r = run_cvc5(text, lim)
            if r == "unsat":
                return "unsat", "cvc5", None, ""
            why.append("cvc5: " + r)
            continue
        s = z3.Solver()
        s.set("timeout", lim)
        for k, v in cfg.items():
            try:
                s.set(k, v)
            except z3.Z3Exception:
                s.set("smt." + k, v)
        s.add(*hyps)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return "unsat", "z3", None, ""
        if r == z3.sat and not cfg:
            return "sat", "z3", s.model(), "z3: sat (counterexample found)"
        why.append(f"z3: {s.reason_unknown()}")
    return "unknown", "", None, "; ".join(dict.fromkeys(why))


def flatten(t):
    """equivalent list of prenex clauses-with-guards of a universally quantified hypothesis"""
    out = []

    def go(x, vs, gs):
        if z3.is_quantifier(x) and x.is_forall():
            new = [z3.FreshConst(x.var_sort(k), "q") for k in range(x.num_vars())]
            go(z3.substitute_vars(x.body(), *reversed(new)), vs + new, gs)
        elif z3.is_and(x):
            for y in x.children():
                go(y, vs, gs)
        elif z3.is_implies(x):
            go(x.arg(1), vs, [*gs, x.arg(0)])
        elif z3.is_or(x):
            sub = [y for y in x.children() if z3.is_and(y) or (z3.is_quantifier(y) and y.is_forall())]
            if len(sub) == 1:
                go(sub[0], vs, [*gs, *[z3.Not(y) for y in x.children() if not y.eq(sub[0])]])
            else:
                out.append((vs, gs, x))
        else:
            out.append((vs, gs, x))
    go(t, [], [])
    return out


def _affine(t, v):
    """t = s*v + r with s in {1, -1} and r free of v -> (s, r)"""
    t = z3.simplify(t)
    terms = t.children() if z3.is_add(t) else [t]
    s, r = None, []
    for x in terms:
        if x.eq(v):
            k = 1
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(1).eq(v) and x.arg(0).as_long() in (1, -1):
            k = x.arg(0).as_long()
        elif _mentions(x, v):
            return None
        else:
            r.append(x)
            continue
        if s is not None:
            return None
        s = k
    return None if s is None else (s, z3.Sum(*r) if len(r) > 1 else r[0] if r else z3.IntVal(0))


def _mentions(t, v):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def reindexed(hyps):
    """flattened hypotheses, with quantified ones also restated over the index they are used at
    (a[n-1-q] for all q  ==  a[q'] for all q'), so that terms of the goal match them"""
    out, changed = [], False
    for h in hyps:
        if not (z3.is_quantifier(h) and h.is_forall()):
            out.append(h)
            continue
        cl = flatten(h)
        if len(cl) == 1 and len(cl[0][0]) == h.num_vars():
            out.append(h)
        for vs, gs, body in cl:
            t = z3.Implies(z3.And(*gs), body) if gs else body
            use = [v for v in vs if _mentions(t, v)]
            if len(cl) > 1 or len(vs) != h.num_vars():
                changed = True
                out.append(z3.ForAll(use, t) if use else t)
            for v in use:
                if v.sort() != z3.IntSort():
                    continue
                forms, bare, st, seen = {}, False, [t], set()
                while st:
                    x = st.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_quantifier(x):
                        st.append(x.body())
                        continue
                    if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for y in x.children():
                            if y.eq(v):
                                bare = True
                            elif y.sort() == z3.IntSort():
                                f = _affine(y, v)
                                if f is not None and not any(_mentions(f[1], w) for w in use):
                                    forms[f[0], f[1].get_id()] = f
                    st.extend(x.children())
                if bare:
                    continue
                for s, r in list(forms.values())[:2]:
                    changed = True
                    t2 = z3.simplify(z3.substitute(t, (v, z3.simplify((v - r) * s))))
                    out.append(z3.ForAll(use, t2))
    return out if changed else None


_NL = {}


def abstract_nl(terms):
    """products and quotients of terms as uninterpreted functions (weaker hypotheses and goal: unsat carries over)"""
    R, I = z3.RealSort(), z3.IntSort()
    fns = {(o, srt.name()): z3.Function(f"nl_{o}_{srt.name()}", srt, srt, srt) for o in ("mul", "div") for srt in (R, I)}
    sq = z3.Function("nl_sq", R, R)
    memo, used = {}, set()

    def const(x):
        return z3.is_rational_value(x) or z3.is_int_value(x)

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_quantifier(t):
            n = t.num_vars()
            vs = [z3.FreshConst(t.var_sort(k), "v") for k in range(n)]
            sub = list(reversed(vs))
            b0 = z3.substitute_vars(t.body(), *sub)
            b = go(b0)
            if b.eq(b0):
                r = t
            else:
                pats = []
                for k in range(t.num_patterns()):
                    ch = [go(z3.substitute_vars(x, *sub)) for x in t.pattern(k).children()]
                    pats.append(z3.MultiPattern(*ch) if len(ch) > 1 else ch[0])
                r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, b, patterns=pats)
        elif z3.is_var(t) or not t.num_args():
            r = t
        else:
            ch = [go(x) for x in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                cs, xs = [x for x in ch if const(x)], sorted((x for x in ch if not const(x)), key=lambda x: x.get_id())
                if len(xs) >= 2:
                    f = fns["mul", t.sort().name()]
                    used.add("mul")
                    if len(xs) == 2 and xs[0].eq(xs[1]) and t.sort() == R:
                        acc = sq(xs[0])
                        used.add("sq")
                    else:
                        acc = xs[0]
                        for x in xs[1:]:
                            acc = f(acc, x)
                    r = acc
                    for x in cs:
                        r = x * r
                else:
                    r = t.decl()(*ch) if len(ch) == 2 else z3.Product(*ch)
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and t.sort() == R and (not const(ch[1]) or k == z3.Z3_OP_POWER):
                used.add("div")
                r = fns["div", "Real"](*ch) if k == z3.Z3_OP_DIV else z3.Function("nl_pow", R, R, R)(*ch)
            elif all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(*ch)
            elif k == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            else:
                r = t.decl()(*ch)
        memo[i] = (r, t)
        return r
    out = [go(t) for t in terms]
    x, y = z3.Reals("nlx nly")
    if "sq" in used:
        out.append(z3.ForAll([x], sq(x) >= 0, patterns=[sq(x)]))
    if "mul" in used:
        f = fns["mul", "Real"]
        out.append(z3.ForAll([x, y], z3.And(f(x, y) == f(y, x), z3.Implies(z3.Or(x == 0, y == 0), f(x, y) == 0),
                                            z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) >= 0), z3.Implies(z3.And(x > 0, y > 0), f(x, y) > 0)), patterns=[f(x, y)]))
    if "div" in used:
        f = fns["div", "Real"]
        out.append(z3.ForAll([x, y], z3.And(z3.Implies(x == 0, z3.Implies(y != 0, f(x, y) == 0)), z3.Implies(z3.And(x >= 0, y > 0), f(x, y) >= 0),
                                            z3.Implies(z3.And(x == y, y != 0), f(x, y) == 1)), patterns=[f(x, y)]))
    return out, used


def abstract_products(terms):
    """as abstract_nl, after simplification, with the factors of products in a canonical order and case distinctions outside of products: products and quotients as uninterpreted functions (weaker hypotheses and goal: unsat carries over)"""
    R, I = z3.RealSort(), z3.IntSort()
    fns = {(o, srt.name()): z3.Function(f"nl_{o}_{srt.name()}", srt, srt, srt) for o in ("mul", "div") for srt in (R, I)}
    sq = z3.Function("nl_sq", R, R)
    memo, used, depth = {}, set(), [0]

    def const(x):
        return z3.is_rational_value(x) or z3.is_int_value(x)

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_quantifier(t):
            n = t.num_vars()
            vs = [z3.FreshConst(t.var_sort(k), "v") for k in range(n)]
            sub = list(reversed(vs))
            b0 = z3.substitute_vars(t.body(), *sub)
            b = go(b0)
            if b.eq(b0):
                r = t
            else:
                pats = []
                for k in range(t.num_patterns()):
                    ch = [go(z3.substitute_vars(x, *sub)) for x in t.pattern(k).children()]
                    pats.append(z3.MultiPattern(*ch) if len(ch) > 1 else ch[0])
                r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, b, patterns=pats)
        elif z3.is_var(t) or not t.num_args():
            r = t
        elif t.decl().kind() == z3.Z3_OP_MUL:
            # a product tree: constants in front, the factors in an order that does not depend on the names of indices
            cs, xs = [], []

            def factors(x):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
                    for y in x.children():
                        factors(y)
                elif const(x):
                    cs.append(x)
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                    cs.append(z3.RealVal(-1) if t.sort() == R else z3.IntVal(-1))
                    factors(x.arg(0))
                else:
                    xs.append(x)
            factors(t)
            ites = [n for n, x in enumerate(xs) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE]
            if len(xs) > 1 and ites and depth[0] < 3:
                # products of case distinctions: case distinctions of products
                x, rest = xs[ites[0]], [y for n, y in enumerate(xs) if n != ites[0]] + cs
                depth[0] += 1
                r = z3.If(go(x.arg(0)), go(z3.Product(x.arg(1), *rest)), go(z3.Product(x.arg(2), *rest)))
                depth[0] -= 1
                memo[i] = (r, t)
                return r
            xs = [go(x) for x in xs]
            xs.sort(key=lambda x: (x.decl().name() if z3.is_app(x) and x.num_args() else "", x.get_id()))
            if not xs:
                r = t
            else:
                f = fns["mul", t.sort().name()]
                if len(xs) == 2 and xs[0].eq(xs[1]) and t.sort() == R:
                    acc = sq(xs[0])
                    used.add("sq")
                else:
                    acc = xs[0]
                    for x in xs[1:]:
                        used.add("mul")
                        acc = f(acc, x)
                r = acc
                if cs:
                    k = z3.simplify(z3.Product(*cs)) if len(cs) > 1 else cs[0]
                    r = k * acc
        else:
            ch = [go(x) for x in t.children()]
            k = t.decl().kind()
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and t.sort() == R and (not const(ch[1]) or k == z3.Z3_OP_POWER):
                used.add("div")
                r = fns["div", "Real"](*ch) if k == z3.Z3_OP_DIV else z3.Function("nl_pow", R, R, R)(*ch)
            elif all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(*ch)
            elif k == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            else:
                r = t.decl()(*ch)
        memo[i] = (r, t)
        return r
    out = [go(z3.simplify(t)) for t in terms]
    x, y = z3.Reals("nlx nly")
    if "sq" in used:
        out.append(z3.ForAll([x], sq(x) >= 0, patterns=[sq(x)]))
    if "mul" in used:
        f = fns["mul", "Real"]
        out.append(z3.ForAll([x, y], z3.And(f(x, y) == f(y, x), z3.Implies(z3.Or(x == 0, y == 0), f(x, y) == 0),
                                            z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) >= 0), z3.Implies(z3.And(x > 0, y > 0), f(x, y) > 0)), patterns=[f(x, y)]))
    if "div" in used:
        f = fns["div", "Real"]
        out.append(z3.ForAll([x, y], z3.And(z3.Implies(x == 0, z3.Implies(y != 0, f(x, y) == 0)), z3.Implies(z3.And(x >= 0, y > 0), f(x, y) >= 0),
                                            z3.Implies(z3.And(x == y, y != 0), f(x, y) == 1)), patterns=[f(x, y)]))
    return out, used


def run_cvc5(text, ms):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as fh:
            fh.write(text)
            fh.flush()
            p = subprocess.run(["cvc5", f"--tlimit={ms}", fh.name], capture_output=True, text=True, timeout=ms / 1000 + 10, check=False)
            out = p.stdout.strip() or p.stderr.strip()
            if os.environ.get("PYVC_KEEP") and "error" in out.lower():
                with open("/tmp/dev/bad.smt2", "w") as f2:
                    f2.write(text)
            return out[:100]
    except (OSError, subprocess.TimeoutExpired) as e:
        return type(e).__name__


# ------------------------------------------------------------------ model -> concrete
def ev_num(model, t, kind):
    if not is_z(t):
        return t
    v = model.eval(t, model_completion=True)
    if kind == "b":
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    raise Unsupported("model value")


def concretize(model, x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, S):
        if ev_num(model, x.m, "b"):
            r = ma.masked
        elif ev_num(model, x.nan, "b"):
            r = math.nan
        else:
            r = ev_num(model, x.v, x.k)
            r = {"b": bool, "i": int, "f": float}[x.k](r)
    elif isinstance(x, Arr):
        shape = tuple(int(ev_num(model, d, "i")) for d in x.shape)
        if int(np.prod(shape)) > 4000:
            raise Unsupported("model array too large")
        data = np.zeros(shape, x.dtype)
        mask = np.zeros(shape, bool)
        for i in np.ndindex(*shape):
            s = x.get(i)
            mask[i] = bool(ev_num(model, s.m, "b"))
            if x.kind == "f" and ev_num(model, s.nan, "b"):
                data[i] = np.nan
            else:
                data[i] = ev_num(model, s.v, s.k)
        r = (ma.array(data) if x.nomask else ma.array(data, mask=mask)) if x.masked else data
    elif isinstance(x, Obj):
        r = mkobj(x.cls, {k: concretize(model, v, memo) for k, v in x.attrs.items()})
    elif isinstance(x, dict):
        r = {k: concretize(model, v, memo) for k, v in x.items()}
    elif isinstance(x, (list, tuple)):
        r = type(x)(concretize(model, v, memo) for v in x)
    else:
        r = x
    memo[id(x)] = r
    return r


def model_inputs(contract, o):
    """native arguments from the solver's counterexample; prefers small dimensions."""
    hyps, syms = relevant(o.term, o.pc, o.ctx.facts)
    out = []
    dims = [z3.Int("dim_" + d) for d in contract.dims]
    for quantified in (True, False):
        for bound in (3, 6, 12):
            s = z3.Solver()
            s.set("timeout", 4000)
            for h in hyps:
                if quantified or not has_quant(h):
                    s.add(h)
            if quantified:
                s.add(*math_axioms(syms))
            for d, lo in zip(dims, contract.dims.values()):
                s.add(d <= lo + bound)
            s.add(z3.Not(o.term))
            if s.check() == z3.sat:
                try:
                    m = s.model()
                    args = {k: concretize(m, v) for k, v in o.snap.items()}
                    out.append(({d: int(ev_num(m, z3.Int("dim_" + d), "i")) for d in contract.dims}, args))
                except (Unsupported, Exception):  # noqa: BLE001
                    pass
                break
    return out


# ------------------------------------------------------------------ concrete
class Quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.old = np.seterr(all="ignore")
        logging.disable(logging.CRITICAL)

    def __exit__(self, *a):
        np.seterr(**self.old)
        self.w.__exit__(*a)
        logging.disable(logging.NOTSET)


def cdeepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, ma.MaskedArray) and x is not ma.masked:
        r = x.copy()
    elif isinstance(x, dict):
        r = {k: cdeepcopy(v, memo) for k, v in x.items()}
    elif type(x) in (list, tuple):
        r = type(x)(cdeepcopy(v, memo) for v in x)
    elif callable(x) or x is ma.masked:
        r = x
    elif hasattr(x, "__dict__") and not isinstance(x, type) and type(x).__module__.startswith(("cloudnetpy", "contracts")):
        r = type(x).__new__(type(x))
        memo[id(x)] = r
        for k, v in x.__dict__.items():
            r.__dict__[k] = cdeepcopy(v, memo)
    else:
        try:
            r = copy.deepcopy(x)
        except Exception:  # noqa: BLE001
            r = x
    memo[id(x)] = r
    return r


def run_real(contract, args):
    f = contract.func()
    with Quiet():
        try:
            if contract.call:
                return ("return", contract.call(None, f, args))
            if contract_pos(f):
                return ("return", f(*args.values()))
            return ("return", f(**args))
        except Exception as e:  # noqa: BLE001
            return ("raise", e)


def eval_concrete(contract, dims, old, post, outcome, val):
    """-> list of failed obligation names (empty: contract holds)."""
    c = C(None, dims, goal=True)
    a = NS({k: lift(v) for k, v in old.items()})
    fails = []
    if outcome == "raise":
        try:
            cond = exc_allowed(contract, c, a, val)
        except Exception as e:  # noqa: BLE001
            cond = None
        if cond is None or not bool(c._b(cond)):
            fails.append(f"raises {type(val).__name__}: {str(val)[:100]}")
        return fails
    p = NS({k: lift(v) for k, v in post.items()})
    try:
        r = lift(val)
        for nm, t in contract.spec(c, a, r, p):
            t = c._b(t)
            if is_z(t):
                raise Unsupported("symbolic term in concrete evaluation")
            if not t:
                fails.append(nm)
        for k in old:
            for nm, t in frame(c, a[k], p[k], contract.modifies, k):
                if not c._b(t):
                    fails.append(nm)
    except Unsupported:
        raise
    except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        fails.append(f"result has the specified form ({type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno})")
    return fails


def req_ok(contract, dims, args):
    if not contract.requires:
        return True
    c = C(None, dims, goal=False)
    a = NS({k: lift(v) for k, v in args.items()})
    try:
        return all(bool(c._b(t)) for t in contract.requires(c, a))
    except Exception:  # noqa: BLE001
        return False


def gen_inputs(contract, variant, rng):
    dims = {}
    for d, lo in contract.dims.items():
        hi = contract.dimsizes.get(d, lo + 5)
        dims[d] = int(rng.integers(lo, hi + 1))
    g = Gen(rng, dims)
    if contract.gen is not None and rng.random() < 0.7:
        got = contract.gen(g, {k: v for k, v in variant.items()})
        if isinstance(got, tuple):
            return got
        if got is not None:
            return dims, got
    return dims, {k: _d(t).conc(g, k) for k, t in variant.items()}


def digest(args):
    h = hashlib.sha1()

    def go(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode() + np.ma.getdata(x).tobytes() + np.ma.getmaskarray(x).tobytes())
        elif isinstance(x, dict):
            for k, v in x.items():
                h.update(str(k).encode())
                go(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v)
        elif hasattr(x, "__dict__") and not isinstance(x, type):
            go(x.__dict__)
        else:
            h.update(repr(x).encode())
    go(args)
    return h.hexdigest()


def conc_sym(x):
    """native -> interpreter concrete value"""
    if isinstance(x, np.ndarray) and x is not ma.masked:
        return Arr.from_numpy(x) if x.ndim and x.dtype.kind in "biuf" else x
    if isinstance(x, dict):
        return {k: conc_sym(v) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return Obj(type(x), {k: conc_sym(getattr(x, k)) for k in x._fields})
    if type(x) in (list, tuple):
        return type(x)(conc_sym(v) for v in x)
    if hasattr(x, "__dict__") and not isinstance(x, type) and type(x).__module__.startswith(("cloudnetpy", "contracts")):
        import enum
        if isinstance(x, enum.Enum):
            return x
        return Obj(type(x), {k: conc_sym(v) for k, v in x.__dict__.items()})
    return x


def cmp_val(x, y, path, out, depth=0):
    """interpreter value x vs native y"""
    if depth > 6 or len(out) > 5:
        return
    x = symlift(x)
    yl = lift(y) if not isinstance(y, (S, Arr, Obj, ObjView)) else y
    if isinstance(x, Arr) and x.ndim == 0:
        x = S.of(x)
    if isinstance(yl, Arr) and yl.ndim == 0:
        yl = S.of(yl)
    c = C(None, {})
    try:
        if isinstance(x, Arr) or isinstance(yl, Arr):
            if not (isinstance(x, Arr) and isinstance(yl, Arr)):
                out.append(f"{path}: {type(x).__name__} vs {type(y).__name__}")
            elif tuple(x.shape) != tuple(yl.shape):
                out.append(f"{path}: shape {x.shape} vs {yl.shape}")
            elif x.masked != yl.masked:
                out.append(f"{path}: masked type {x.masked} vs {yl.masked}")
            else:
                rel = max(XREL[0], 1e-4 if yl.dtype.itemsize == 4 and yl.kind == "f" else 1e-9)
                if x.kind != yl.kind:
                    out.append(f"{path}: kind {x.kind} vs {yl.kind}")
                for i in yl.indices():
                    if not bool(c.same(x.get(i), yl.get(i), rel=rel).v):
                        out.append(f"{path}{list(i)}: {x.get(i)} vs {yl.get(i)}")
                        break
            return
        if isinstance(x, S) or isinstance(yl, S):
            if not (isinstance(x, S) and isinstance(yl, S) and bool(c.same(x, yl, rel=1e-6).v)):
                out.append(f"{path}: {x} vs {yl}")
            return
    except (AttributeError, TypeError) as e:
        out.append(f"{path}: {e}")
        return
    cx, cy = children(x), children(yl)
    if cx is None and cy is None:
        return
    if (cx is None) != (cy is None):
        if isinstance(x, Arr) or isinstance(yl, (dict, list, tuple)):
            out.append(f"{path}: structure differs")
        return
    for k in cy:
        if k not in cx:
            out.append(f"{path}{k}: missing in engine")
        else:
            cmp_val(cx[k], cy[k], path + k, out, depth + 1)
    if isinstance(x, (dict, list, tuple)):
        for k in cx:
            if k not in cy:
                out.append(f"{path}{k}: extra in engine")


def cross_check(contract, args, registry, outcome, val, post):
    """run the interpreter on the same concrete input; -> list of differences."""
    ctx = Ctx((), symbolic=False)
    it = Interp(ctx, {}, {})
    it.overrides = contract.overrides
    f = contract.func()
    it.top = f
    it.spec_ctx = C(ctx, {})
    iargs = conc_sym(args)
    try:
        if contract.call:
            r = contract.call(it, f, iargs)
        elif contract_pos(f):
            r = it.call(f, tuple(iargs.values()), {})
        else:
            r = it.call(f, (), iargs)
        got = "return"
    except IRaise as e:
        got, r = "raise", e.exc
    if got != outcome:
        return [f"outcome {got} {r!r} vs {outcome} {val!r}"]
    out = []
    if got == "return":
        cmp_val(r, val, "result", out)
        for k in args:
            cmp_val(iargs[k], post[k], k, out)
    elif type(r) is not type(val):
        # exception classes may legitimately differ in subclass only
        if not (isinstance(r, type(val)) or isinstance(val, type(r))):
            out.append(f"exception {r!r} vs {val!r}")
    return out


# ------------------------------------------------------------------ one task
def jsonable(x, depth=0):
    if x is ma.masked:
        return "masked"
    if isinstance(x, ma.MaskedArray):
        return {"masked_array": np.ma.getdata(x).tolist(), "mask": np.ma.getmaskarray(x).tolist(), "dtype": str(x.dtype)}
    if isinstance(x, np.ndarray):
        return {"array": x.tolist(), "dtype": str(x.dtype)}
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if hasattr(x, "__dict__") and depth < 6 and not isinstance(x, type) and not callable(x):
        return {"object": type(x).__name__, "attrs": {k: jsonable(v, depth + 1) for k, v in x.__dict__.items()}}
    return repr(x)


def failing(contract, dims, args):
    """run the real function on args; -> list of failed obligations."""
    if not req_ok(contract, dims, args):
        return None
    old = cdeepcopy(args)
    outcome, val = run_real(contract, args)
    return eval_concrete(contract, dims, old, args, outcome, val)


def run_task(contract, vi, registry, tier, seed, budget):
    """verify one variant of a contract.  -> result dict (picklable)"""
    res = dict(contract=contract.name, target=contract.target, variant=vi, obligations=0, discharged=0,
               backends={}, solver_s=0.0, paths=0, functions=[], contract_calls=[], undischarged=[],
               unsupported=None, vacuous=None, evals=0, distinct=0, xcheck=0, xdiff=[], bounded_fail=None,
               violations=[], sample=None, mode=None, note=contract.note)
    t_start = time.time()
    thorough = tier == "thorough"
    variants = contract.variants()
    variant = variants[vi]
    try:
        contract.func()
    except (AttributeError, ImportError) as e:
        res["unsupported"] = f"function under contract not found: {e}"
        res["missing"] = True
        return res
    # ---- 1. bounded contract checking on the real function + engine cross-check
    rng = np.random.default_rng([seed, vi, int(hashlib.sha1(contract.name.encode()).hexdigest()[:8], 16)])
    base = contract.tries or (150 if not thorough else 1500)
    fails = {}
    digests = set()
    xs = dict(n=0, limit=6 if not thorough else 25)

    def search(tries, tlimit):
        skipped = k = extra = 0
        while k < tries and time.time() < tlimit:
            k += 1
            try:
                with Quiet():
                    dims, args = gen_inputs(contract, variant, rng)
            except Exception as e:  # noqa: BLE001
                res["unsupported"] = res["unsupported"] or f"input generator: {type(e).__name__} {e}"
                if os.environ.get("PYVC_DEBUG"):
                    traceback.print_exc()
                return
            if not req_ok(contract, dims, args):
                skipped += 1
                k -= 1
                if skipped > 20 * tries:
                    return
                continue
            old = cdeepcopy(args)
            do_x = xs["n"] < xs["limit"] and not contract.bounded_only
            xargs = cdeepcopy(args) if do_x else None
            outcome, val = run_real(contract, args)
            res["evals"] += 1
            digests.add(digest(old))
            if res["sample"] is None:
                res["sample"] = jsonable(old)
            try:
                bad = eval_concrete(contract, dims, old, args, outcome, val)
            except Unsupported as e:
                res["unsupported"] = res["unsupported"] or f"concrete spec: {e}"
                return
            for b in bad:
                fails.setdefault(b, (dims, old))
            if fails:
                extra += 1
                if extra > 10:
                    return
            if do_x:
                xs["n"] += 1
                try:
                    XREL[0] = contract.rel
                    d = cross_check(contract, xargs, registry, outcome, val, args)
                    if d:
                        if os.environ.get("PYVC_DEBUG"): print("XDIFF", jsonable(old), d)
                        res["xdiff"].append(d[0])
                except Unsupported as e:
                    xs["n"] -= 1
                    xs["limit"] -= 1
                    res.setdefault("xunsup", str(e))
                except (PathAbort, z3.Z3Exception, AssertionError, AttributeError, TypeError, KeyError, ValueError, IndexError,
                        ZeroDivisionError, OverflowError, RecursionError) as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    res["xdiff"].append(f"engine error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
                    if os.environ.get("PYVC_DEBUG"):
                        traceback.print_exc()

    search(base, time.time() + (10 if not thorough else budget * 0.2))
    # ---- 2. proof
    obls, paths = [], []
    if not contract.bounded_only:
        try:
            obls, paths, funcs, ccalls = explore(contract, variant, registry, t_start + budget * 0.4)
            res["functions"] = sorted(funcs)
            res["contract_calls"] = sorted(ccalls)
            res["paths"] = len(paths)
            ends = [p for p in paths if p["outcome"] == "return"]
            if not ends and not any(p["outcome"] == "raise" for p in paths):
                res["unsupported"] = "no path through the function (vacuous precondition?)"
            else:
                s = z3.Solver()
                s.set("timeout", 5000)
                p0 = (ends or paths)[0]
                s.add(*[x for x in p0["ctx"].pc if not has_quant(x)])
                if s.check() == z3.unsat:
                    res["vacuous"] = "precondition unsatisfiable"
            redo = set(json.loads(os.environ.get("PYVC_REDO", "[]")))
            obls.sort(key=lambda o: o.name not in redo)  # what was not discharged before comes first
            tmo = contract.timeout or (20000 if not thorough else 60000)
            if fails:
                tmo = 1500
            for o in obls:
                if len(res["undischarged"]) >= (1 if redo else 2) or (res["undischarged"] and time.time() > t_start + budget * 0.7):
                    break  # the verdict is known; the rest is not attempted
                if time.time() > t_start + budget * 0.8:
                    res["unsupported"] = "proof time limit"
                    break
                o.snap = None
                discharge(o, tmo, bool(fails) or len(res["undischarged"]) >= 3)
                res["obligations"] += 1
                res["solver_s"] += o.secs
                if o.status == "proved":
                    res["discharged"] += 1
                    res["backends"][o.backend] = res["backends"].get(o.backend, 0) + 1
                else:
                    res["undischarged"].append(o)
        except Unsupported as e:
            res["unsupported"] = f"outside the modelled fragment: {e}"
        except (z3.Z3Exception, RecursionError, AssertionError, AttributeError, TypeError, KeyError, ValueError, IndexError,
                NotImplementedError, OverflowError, ZeroDivisionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res["unsupported"] = f"engine error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
    if not fails and (res["unsupported"] or res["undischarged"] or res["xdiff"]):
        search(base * 3, min(time.time() + min(15, budget * 0.2), max(t_start + budget * 1.1, time.time() + 3)))
    res["xcheck"] = xs["n"]
    res["distinct"] = len(digests)
    if fails:
        nm, (dims, old) = next(iter(fails.items()))
        res["violations"].append(dict(obligation=nm, confirmed=True, how="bounded search on the real function",
                                      dims=dims, input=jsonable(old), pick=_pickle((dims, old)), all=list(fails)))
    # ---- 3. undischarged obligations: replay counterexamples
    und = res["undischarged"]
    res["undischarged"] = [dict(name=o.name, path=o.path, status=o.status, why=o.why) for o in und]
    if und and not fails:
        confirmed = False
        for o in und[:4]:
            if time.time() > t_start + budget:
                break
            o.snap = fresh_inputs(contract, variant)
            try:
                cands = model_inputs(contract, o)
            except Exception:  # noqa: BLE001
                cands = []
            for dims, args in cands:
                old = cdeepcopy(args)
                try:
                    bad = failing(contract, dims, args)
                except Exception:  # noqa: BLE001
                    bad = None
                if bad:
                    res["violations"].append(dict(obligation=o.name, confirmed=True, how="solver counterexample replayed on the real function",
                                                  failed=bad, dims=dims, input=jsonable(old), pick=_pickle((dims, old)), solver=o.why))
                    confirmed = True
                    break
            if confirmed:
                break
        if not confirmed:
            o = und[0]
            res["violations"].append(dict(obligation=o.name, confirmed=False, how="undischarged obligation", solver=o.why,
                                          obligations=[x.name for x in und], model=str(o.model)[:4000] if o.model is not None else None))
    if res["xdiff"]:
        # the engine does not reproduce CPython on this function: its proof is void
        res["unsupported"] = res["unsupported"] or f"engine cross-check mismatch: {res['xdiff'][0]}"
        if not any(v["confirmed"] for v in res["violations"]):
            res["violations"] = []
    if res["unsupported"] and not any(v["confirmed"] for v in res["violations"]):
        # bounded stand-in: only confirmed failures count
        res["violations"] = [v for v in res["violations"] if v["confirmed"]]
    res["mode"] = "bounded" if (contract.bounded_only or res["unsupported"]) else "proved" if not res["undischarged"] else "failed"
    res["wall"] = time.time() - t_start
    return res


def fresh_inputs(contract, variant):
    """symbolic inputs with the deterministic names used during exploration."""
    ctx = Ctx(())
    c = C(ctx, {}, goal=False)
    for dn, lo in contract.dims.items():
        c.d[dn] = z3.Int("dim_" + dn)
        ctx.assume(c.d[dn] >= lo)
    return {k: _d(t).sym(c, k) for k, t in variant.items()}


def _pickle(x):
    try:
        return base64.b64encode(pickle.dumps(x)).decode()
    except Exception:  # noqa: BLE001
        return None


# ------------------------------------------------------------------ scheduler
def _child(conn, contract, vi, registry, tier, seed, budget):
    try:
        sys.setrecursionlimit(20000)
        r = run_task(contract, vi, registry, tier, seed, budget)
    except BaseException as e:  # noqa: BLE001
        r = dict(contract=contract.name, target=contract.target, variant=vi, crash=f"{type(e).__name__}: {e}",
                 tb=traceback.format_exc()[-1500:])
    try:
        conn.send(r)
    except Exception as e:  # noqa: BLE001
        conn.send(dict(contract=contract.name, target=contract.target, variant=vi, crash=f"result not picklable: {e}"))
    conn.close()


def run_all(contracts, tier, seed, total_budget, jobs=None):
    """run all (contract, variant) tasks in parallel processes."""
    registry = {}
    for c in contracts:
        if c.modular:
            try:
                registry[c.func()] = c
            except (AttributeError, ImportError):
                pass
    tasks = [(c, vi) for c in contracts for vi in range(len(c.variants()))]
    jobs = jobs or int(os.environ.get("PYVC_JOBS", "8"))
    t_end = time.time() + total_budget
    rounds = max(1, math.ceil(len(tasks) / jobs))
    budget = max(40.0, min(total_budget * 0.9 / rounds if rounds > 3 else total_budget * 0.45, 240.0 if tier == "quick" else 1200.0))
    ctxm = mp.get_context("fork")
    running, results = [], []
    again = set()

    def died(c, vi):  # a solver crash: one more attempt
        if (id(c), vi) in again:
            results.append(dict(contract=c.name, target=c.target, variant=vi, crash="worker died"))
        else:
            again.add((id(c), vi))
            queue.append((c, vi))
    queue = list(tasks)
    late, slow = [], set()
    while queue or running or late:
        while queue and len(running) < jobs and time.time() < t_end:
            c, vi = queue.pop(0)
            pr, pw = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(pw, c, vi, registry, tier, seed, budget))
            p.start()
            pw.close()
            running.append((p, pr, c, vi, time.time()))
        if queue and time.time() >= t_end and not running:
            for c, vi in queue:
                results.append(dict(contract=c.name, target=c.target, variant=vi, crash="check time limit"))
            break
        still = []
        for p, pr, c, vi, t0 in running:
            if pr.poll(0.01):
                try:
                    r = pr.recv()
                    vs = r.get("violations") or []
                    if vs and not any(v["confirmed"] for v in vs) and id(c) not in slow and time.time() < t_end - 150:
                        # undecided and no failing input: once more, alone, with more solver time
                        late.append((c, vi, r))
                    else:
                        results.append(r)
                except EOFError:
                    died(c, vi)
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                died(c, vi)
            elif time.time() - t0 > budget * 1.3 + 20 or time.time() > t_end + 30:
                p.kill()
                p.join(5)
                results.append(dict(contract=c.name, target=c.target, variant=vi, crash="task time limit"))
            else:
                still.append((p, pr, c, vi, t0))
        running = still
        if not running and not queue and late:
            c, vi, r = late.pop(0)
            if time.time() > t_end - 150:
                results.append(r)
            else:
                slow.add(id(c))
                queue.append((c, vi))
                os.environ["PYVC_SLOW"] = "3"
                os.environ["PYVC_REDO"] = json.dumps([u["name"] for u in r["undischarged"]])
        if running:
            time.sleep(0.02)
    return results
