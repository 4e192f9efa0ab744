"""Rules for loops of unbounded length.

1. data-parallel loops: iteration k only writes row k of arrays (and only reads
   row k of the arrays the loop writes) and conditionally appends to lists.  The
   generic iteration is executed once symbolically (all its paths) and the frame
   condition is an obligation.
2. loops with an invariant given in the sidecar contract.
"""

from __future__ import annotations

import ast

import z3

from . import npm
from .core import Arr, Fn, S, Unsupported, b_and, b_ite, b_not, b_or, dim_eq, dnorm, is_z, s_ite, to_bool, to_int
from .ctx import IRaise, PathAbort, Poison, SELS, _apps_of, quant
from .interp import Env, Obj, SymList, _Break, _Continue, _MISSING, _Return, assigned_names


def has_spec(it, s, env):
    return _spec(it, s, env) is not None


def _spec(it, s, env):
    if env.func is None:
        return None
    for (q, o), sp in it.loop_specs.items():
        if o == getattr(s, "_ordinal", None) and (env.func.qual == q or env.func.qual.endswith("." + q)):
            return sp
    return None


class State:
    """undo of everything recorded since start."""

    def __init__(self, it):
        self.it = it
        self.saved = it.ctx.record
        it.ctx.record = []

    def rollback(self):
        rec = self.it.ctx.record
        for r in reversed(rec):
            if r[0] == "list":
                r[1][:] = r[2]
            elif r[0] == "dict":
                r[1].clear()
                r[1].update(r[2])
            elif r[0] == "set":
                r[1].clear()
                r[1].update(r[2])
            elif r[0] == "attr":
                if r[3] is _MISSING:
                    r[1].attrs.pop(r[2], None)
                else:
                    r[1].attrs[r[2]] = r[3]
            elif r[0] == "var":
                if r[3] is _MISSING:
                    r[1].vars.pop(r[2], None)
                else:
                    r[1].vars[r[2]] = r[3]
            elif r[0] == "arr":
                r[1]._fn = r[2]
                r[1]._nomask = r[3]
            elif r[0] == "symlist":
                r[1].arr = r[2]
        self.it.ctx.record = []
        return rec

    def close(self):
        rec = self.it.ctx.record
        self.it.ctx.record = self.saved
        if self.saved is not None:
            self.saved.extend(rec)


def run_generic(it, k, n, body, env):
    """execute body() for a generic index k on all its paths.

    -> list of dict(cond, outcome, arrs{id:(arr,fn)}, appends{id:(list,[vals])}, vars)"""
    ctx = it.ctx
    outer = (ctx.prefix, ctx.taken, ctx.pending)
    results = []
    work = [[]]
    ctx.solver.push()
    npc = len(ctx.pc)
    rng = z3.And(k >= 0, k < to_int(n))
    facts_outer = ctx.facts
    ctx.facts = []
    ctx.loopvars.append(k)
    if ctx.loop_pc is None or len(ctx.loopvars) == 1:
        ctx.loop_pc = npc
    ctx.loop_depth += 1
    st = State(it)
    counter0 = dict(ctx.counter)
    nob = len(ctx.obls)
    ostart = Obj._n
    try:
        while work:
            prefix = work.pop()
            ctx.solver.push()
            ctx.prefix, ctx.taken, ctx.pending = prefix, [], []
            ctx.assume(rng)
            ctx.sel_hints(k, n)
            outcome = "normal"
            val = None
            ok = True
            try:
                val = body()
            except _Continue:
                pass
            except _Break:
                outcome = "break"
            except _Return as r:
                outcome = "return"
                val = r.v
            except IRaise as e:
                outcome = "raise"
                val = e
            except PathAbort:
                ok = False
            conds = ctx.pc[npc + 1:]
            del ctx.pc[npc:]
            work.extend(ctx.pending)
            if ok:
                rec = ctx.record
                arrs, lists, other = {}, {}, []
                for r in rec:
                    if r[0] == "arr":
                        arrs.setdefault(id(r[1]), (r[1], r[2]))
                    elif r[0] == "list":
                        lists.setdefault(id(r[1]), (r[1], r[2]))
                    elif r[0] == "var" or (r[0] == "attr" and r[1]._uid > ostart):
                        pass
                    else:
                        other.append(r)
                vars_ = {r[2] for r in rec if r[0] == "var" and r[1] is env}
                results.append(dict(
                    cond=b_and(*conds), outcome=outcome, val=val,
                    arrs={i: (a, a._fn, a._nomask, pre) for i, (a, pre) in arrs.items()},
                    lists={i: (l, list(l), pre) for i, (l, pre) in lists.items()},
                    other=other, vars=vars_, finals={v: env.vars.get(v) for v in vars_}))
            st.rollback()
            ctx.solver.pop()
            if len(results) > 64:
                raise Unsupported("too many paths in a loop body")
    finally:
        ctx.loopvars.pop()
        ctx.loop_depth -= 1
        ctx.solver.pop()
        inner = ctx.facts
        ctx.facts = facts_outer
        known = {f.get_id() for f in facts_outer}
        for f in inner:
            f = z3.ForAll([k], z3.Implies(rng, f)) if _mentions(f, k) else f
            if f.get_id() not in known:
                known.add(f.get_id())
                ctx.fact(f)
        # obligations raised inside hold for every iteration
        for j in range(nob, len(ctx.obls)):
            nm, f, pc = ctx.obls[j]
            ctx.obls[j] = (nm, z3.Implies(z3.And(rng, *pc[npc:]), f), pc[:npc])
        ctx.prefix, ctx.taken, ctx.pending = outer
        st.close()
    return results


def _mentions(t, k):
    seen, stack = set(), [t]
    kid = k.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == kid:
            return True
        stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def subst_S(s, k, v):
    def f(t):
        return z3.substitute(t, (k, to_int(v))) if is_z(t) else t
    return S(s.k, f(s.v), f(s.nan), f(s.m))


def subst_t(t, k, v):
    return z3.substitute(t, (k, to_int(v))) if is_z(t) else t


def sym_for(it, s, env, si):
    spec = _spec(it, s, env)
    if spec is not None:
        inv_for(it, s, env, si, spec)
        return
    par_for(it, s, env, si)


def par_for(it, s, env, si):
    ctx = it.ctx
    n = si.n
    k = z3.Int(ctx.name("it"))
    if s.orelse:
        raise Unsupported("for-else")

    def body():
        it.assign(s.target, si.item(k), env)
        it.block(s.body, env)

    tgt_names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    assigned = set(tgt_names)
    for st in s.body:
        assigned |= assigned_names_stmt(st)
    # loop-carried locals: reading a value assigned by an earlier iteration is a
    # dependence.  Locals assigned in the body are poisoned on entry.
    saved = {}
    for nm in assigned:
        if nm in env.vars:
            saved[nm] = env.vars[nm]
            env.vars[nm] = Poison("loop-carried local in a loop without invariant")
    try:
        results = run_generic(it, k, n, body, env)
        written = {}
        for r in results:
            for i, (a, _fn, _nm, _pre) in r["arrs"].items():
                written.setdefault(i, (a, a._fn))
        if written:
            try:
                results = second_pass(it, k, n, body, env, results, written)
            except OwnRow:
                results = const_stores(it, k, n, body, env, written)
    except Unsupported:
        for nm in assigned:
            env.vars.pop(nm, None)
        env.vars.update(saved)
        raise
    # outcomes
    exc = [r for r in results if r["outcome"] == "raise"]
    for r in results:
        if r["outcome"] in ("break", "return"):
            raise Unsupported("break/return in a loop without invariant")
        if r["other"]:
            raise Unsupported("object mutation in a loop without invariant")
    if exc:
        anyexc = z3.Exists([k], z3.And(k >= 0, k < to_int(n), z3.Or(*[to_bool(r["cond"]) for r in exc])))
        if ctx.branch(anyexc):
            raise IRaise(exc[0]["val"].exc)
    norm = [r for r in results if r["outcome"] == "normal"]
    apply_appends(it, k, n, norm)
    for nm in assigned:
        env.vars[nm] = Poison("value of a loop local after a loop without invariant")
    # invariants of unassigned saved locals
    for nm, v in saved.items():
        env.vars[nm] = Poison("value of a loop local after a loop without invariant")


def assigned_names_stmt(st):
    m = ast.Module(body=[st], type_ignores=[])
    return assigned_names(m)


def find_axis(it, k, n, results, i, a, old):
    """the axis whose index equals the iteration number wherever the loop writes."""
    ctx = it.ctx
    idx = tuple(z3.Int(ctx.name("fr")) for _ in a.shape)
    inr = z3.And(k >= 0, k < to_int(n), *[z3.And(x >= 0, x < to_int(d)) for x, d in zip(idx, a.shape)])
    for ax in range(a.ndim):
        ok = True
        for r in results:
            if i not in r["arrs"]:
                continue
            fn = r["arrs"][i][1]
            same = _same(fn(idx), old(idx))
            f = z3.Implies(z3.And(inr, to_bool(r["cond"]), idx[ax] != k), to_bool(same))
            if not _valid(ctx, f):
                ok = False
                break
        if ok:
            return ax
    raise OwnRow("loop writes outside its own row (needs an invariant)")


class OwnRow(Unsupported):
    pass


def const_stores(it, k, n, body, env, written):
    """a loop whose iterations only ever store one fixed value into each array, without reading the written
    arrays: a cell ends up with that value when any iteration writes it and is unchanged otherwise"""
    ctx = it.ctx
    junk = set()
    for i, (a, old) in written.items():
        j = ctx.fresh_arr("junk", a.kind, a.shape)
        nm = f"junk!{ctx.counter['junk'] - 1}"
        junk.update((nm, nm + "_m", nm + "_nan"))
        a._fn = j.fn()
    try:
        results = run_generic(it, k, n, body, env)
    finally:
        for i, (a, old) in written.items():
            j = a._fn
            a._fn = old
            written[i] = (a, old, j)
    effects = []
    for r in results:
        if any(i not in written for i in r["arrs"]) or r["lists"] or _has_sym(r["cond"], junk):
            raise OwnRow("loop reads an array it writes (needs an invariant)")
    for i, (a, old, jf) in written.items():
        idx = tuple(z3.Int(ctx.name("fr")) for _ in a.shape)
        inr = z3.And(k >= 0, k < to_int(n), *[z3.And(x >= 0, x < to_int(d)) for x, d in zip(idx, a.shape)])
        cell = jf(idx)
        jt = cell.term()
        cells = [(r["cond"], r["arrs"][i][1](idx) if i in r["arrs"] else None) for r in results]
        if a.masked and any(v is not None and not z3.is_false(z3.simplify(to_bool(v.m))) for _, v in cells):
            raise OwnRow("loop stores missing values (needs an invariant)")
        found = None
        for cv in ((True, False) if a.kind == "b" else (0, 1, 2, 3)):
            C = S(a.kind, cv)
            other = S(a.kind, (not cv) if a.kind == "b" else cv + 1)
            ws = []
            for cond, v in cells:
                if v is None:
                    continue
                t = v.cast(a.kind).term()
                if not _valid(ctx, z3.Implies(z3.And(inr, to_bool(cond)), z3.Or(t == jt, t == C.term()))):
                    break
                t1 = z3.simplify(z3.substitute(t, (jt, other.term())))
                if _has_sym(t1, junk):
                    break
                ws.append(z3.And(to_bool(cond), t1 == C.term()))
            else:
                found = C, z3.Or(*ws) if ws else z3.BoolVal(False)
                break
        if found is None:
            raise OwnRow("loop stores varying values outside its own row (needs an invariant)")
        C, w = found

        def nf(ix, old=old, idx=idx, w=w, C=C):
            kk = z3.Int(ctx.name("wr"))
            wk = z3.substitute(w, *[(x, to_int(y)) for x, y in zip(idx, ix)], (k, kk))
            pats = _apps_of(wk, [kk], ctx.loopvars, 4)
            pats = [x for x in pats if x.decl().name() in SELS][:2]
            hit = z3.Exists([kk], z3.And(kk >= 0, kk < to_int(n), wk), patterns=pats) if pats else z3.Exists([kk], z3.And(kk >= 0, kk < to_int(n), wk))
            return s_ite(hit, C, old(ix))
        effects.append((a, nf))
    for a, nf in effects:
        it.log_arr(a)
        a._fn = Fn(nf)
    return results


def second_pass(it, k, n, body, env, results, written):
    """re-run the generic iteration with junk outside row k of every written array:
    the effect may not depend on the junk (so iterations are independent)."""
    ctx = it.ctx
    axes, junk = {}, set()
    for i, (a, old) in written.items():
        axes[i] = find_axis(it, k, n, results, i, a, old)
    for i, (a, old) in written.items():
        j = ctx.fresh_arr("junk", a.kind, a.shape, masked=a.masked, nan=True)
        nm = f"junk!{ctx.counter['junk'] - 1}"
        junk.update((nm, nm + "_m", nm + "_nan"))
        ax, jf = axes[i], j.fn()

        def guarded(ix, ax=ax, jf=jf, old=old):
            c = dim_eq(ix[ax], k)
            if c is True:
                return old(ix)
            return s_ite(c, old(ix), jf(ix))
        a._fn = Fn(guarded)
    try:
        results = run_generic(it, k, n, body, env)
    finally:
        for i, (a, old) in written.items():
            a._fn = old
    for r in results:
        if any(i not in written for i in r["arrs"]):
            raise Unsupported("loop effects differ between passes")
        if _has_sym(r["cond"], junk):
            raise Unsupported("loop reads another row of an array it writes")
        for l, after, before in r["lists"].values():
            for v in after:
                if isinstance(v, S) and any(_has_sym(t, junk) for t in (v.v, v.nan, v.m)):
                    raise Unsupported("loop reads another row of an array it writes")
    effects = []
    for i, (a, old) in written.items():
        idx = [z3.Int(ctx.name("fr")) for _ in a.shape]
        idx[axes[i]] = k
        for r in results:
            if i in r["arrs"]:
                v = r["arrs"][i][1](tuple(idx))
                if any(_has_sym(t, junk) for t in (v.v, v.nan, v.m)):
                    raise Unsupported("loop reads another row of an array it writes")
    for i, (a, old) in written.items():
        find_axis_ok = axes[i]
        rs = [(r["cond"], r["arrs"][i][1] if i in r["arrs"] else None) for r in results]

        def nf(ix, rs=rs, base=old, axis=find_axis_ok):
            out = base(ix)
            kk = ix[axis]
            idk = list(ix)
            idk[axis] = k
            for c, fn in rs:
                if fn is None:
                    continue
                v = subst_S(fn(tuple(idk)), k, kk)
                out = s_ite(subst_t(to_bool(c), k, kk), v, out)
            return s_ite(b_and(to_int(kk) >= 0, to_int(kk) < to_int(n)), out, base(ix))

        effects.append((a, nf, any(i in r["arrs"] and not r["arrs"][i][2] for r in results)))
    for a, nf, touched in effects:
        it.log_arr(a)
        a._fn = Fn(nf)
        if a.masked and touched:
            a._nomask = False
    return results


def _has_sym(t, names):
    if not is_z(t):
        return False
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in names:
                return True
            st.extend(x.children())
    return False


def _same(x, y):
    x, y = S.of(x), S.of(y)
    k = x.k
    t = []
    if is_z(x.v) or is_z(y.v):
        t.append(x.term() == y.cast(k).term())
    else:
        t.append(z3.BoolVal(x.v == y.v))
    for p, q in ((x.nan, y.nan), (x.m, y.m)):
        if is_z(p) or is_z(q):
            t.append(to_bool(p) == to_bool(q))
        else:
            t.append(z3.BoolVal(bool(p) == bool(q)))
    return z3.And(*t)


def _valid(ctx, f):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    s = z3.Solver()
    s.set("timeout", 5000)
    for x in ctx.facts + ctx.pc:
        s.add(x)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def apply_appends(it, k, n, results):
    ctx = it.ctx
    lists = {}
    for r in results:
        for i, (l, after, before) in r["lists"].items():
            lists[i] = (l, before)
    for i, (l, before) in lists.items():
        if before:
            raise Unsupported("append loop on a non-empty list")
        conds, vals = [], []
        for r in results:
            if i in r["lists"]:
                after = r["lists"][i][1]
                if len(after) > 1:
                    raise Unsupported("several appends per iteration")
                if len(after) == 1:
                    conds.append(r["cond"])
                    vals.append(after[0])
        arr = filtered(it, k, n, conds, vals)
        replace_list(it, l, SymList(arr))


def filtered(it, k, n, conds, vals):
    ctx = it.ctx
    for v in vals:
        if not isinstance(v, (S, int, float, bool)):
            raise Unsupported("appending non-scalars in a symbolic loop")
    vals = [S.of(v) for v in vals]
    kind = "b"
    from .core import kmax
    for v in vals:
        kind = kmax(kind, v.k)
    total = b_or(*conds)
    mask = Arr((n,), "b", lambda idx: S("b", subst_t(total, k, idx[0])))

    def val(j):
        out = subst_S(vals[-1].cast(kind), k, j)
        for c, v in zip(conds[:-1], vals[:-1]):
            out = s_ite(subst_t(to_bool(c), k, j), subst_S(v.cast(kind), k, j), out)
        return out
    if total is True:
        return Arr((n,), kind, lambda idx: val(idx[0]))
    sel = ctx.selection(mask)
    a = Arr((sel.n,), kind, lambda idx: val(sel.coords(idx[0])[0]), sel=[sel])
    # value is exactly the loop index: coordinates of the selection
    if kind == "i" and len({v.v.get_id() if is_z(v.v) else v.v for v in vals}) == 1 and is_z(vals[0].v) and vals[0].v.eq(k):
        a.attrs["coord"] = (sel, 0)
    return a


def replace_list(it, lst, sym):
    """all variables/attributes holding this list now hold the symbolic list."""
    it.replaced = getattr(it, "replaced", {})
    # find holders: search environments reachable from the interpreter's active frames
    holders = it.frames_vars()
    done = False
    for d in holders:
        for nm, v in list(d.items()):
            if v is lst:
                if it.ctx.record is not None:
                    raise Unsupported("append loop nested in another symbolic loop")
                d[nm] = sym
                done = True
    if not done:
        raise Unsupported("cannot locate the list being appended")


def sym_comp(it, e, env, si):
    """[elt for target in <symbolic> if cond]"""
    ctx = it.ctx
    g = e.generators[0]
    n = si.n
    k = z3.Int(ctx.name("it"))
    ne = it._compenv(env)

    def body():
        it.assign(g.target, si.item(k), ne)
        for c in g.ifs:
            if not it.truth(it.ev(c, ne)):
                return _MISSING
        return it.ev(e.elt, ne)

    results = run_generic(it, k, n, body, ne)
    for r in results:
        if r["outcome"] == "raise":
            cond = z3.Exists([k], z3.And(k >= 0, k < to_int(n), to_bool(r["cond"])))
            if ctx.branch(cond):
                raise IRaise(r["val"].exc)
        if r["arrs"] or r["lists"] or r["other"]:
            raise Unsupported("side effect in comprehension")
    norm = [r for r in results if r["outcome"] == "normal" and r["val"] is not _MISSING]
    if not norm:
        return []
    v0 = norm[0]["val"]
    if isinstance(v0, Arr):
        if len(norm) != 1 or g.ifs:
            raise Unsupported("comprehension of arrays with paths")
        f = v0.fn()
        sh = v0.shape
        for d in sh:
            if is_z(d) and _mentions(d, k):
                raise Unsupported("ragged comprehension")
        a = Arr((n, *sh), v0.kind, lambda idx: subst_S(f(tuple(idx[1:])), k, idx[0]), v0.masked, v0.nomask)
        return SymList(a)
    conds = [r["cond"] for r in norm]
    if not any(r["val"] is _MISSING for r in results):
        conds[-1] = True    # the paths are exhaustive once no iteration raises
    return SymList(filtered(it, k, n, conds, [r["val"] for r in norm]))


# ---------------------------------------------------------------- invariants
class LoopView:
    """access to the locals of the running frame for invariants."""

    def __init__(self, env, pre):
        self._env, self._pre = env, pre

    def __getattr__(self, nm):
        from .spec import symlift
        try:
            v = self._env.vars[nm]
        except KeyError:
            raise Unsupported(f"loop invariant refers to missing local {nm}") from None
        if isinstance(v, SymList):
            return v.arr
        if isinstance(v, (int, float, bool)):
            return S.of(v)
        return symlift(v) if not isinstance(v, (Obj, dict)) else v


def havoc_value(it, nm, v):
    ctx = it.ctx
    if isinstance(v, (bool, int, float)):
        v = S.of(v)
    if isinstance(v, S):
        return ctx.fresh("hv_" + nm, v.k)
    raise Unsupported(f"loop-modified local {nm} of type {type(v).__name__}")


def hyp_ctx(c):
    import copy
    h = copy.copy(c)
    h.goal = False
    return h


def sym_lists(it, env, spec, k=None):
    """the lists the loop appends to become lists of symbolic length; k given: with arbitrary contents"""
    ctx = it.ctx
    out = []
    for nm, kind in spec.lists.items():
        v = env.vars.get(nm)
        if isinstance(v, list):
            for x in v:
                if not isinstance(x, (S, int, float, bool)):
                    raise Unsupported("symbolic list of non-scalars")
            sl = SymList(npm.as_arr(ctx, v) if v else Arr((0,), kind, lambda idx: S.of(0).cast(kind)))
            replace_list(it, v, sl)
            v = sl
        if not isinstance(v, SymList):
            raise Unsupported(f"no list {nm}")
        if k is not None:
            m = ctx.fresh("len_" + nm, "i").v
            ctx.assume(m >= 0)
            v.arr = ctx.fresh_arr("hv_" + nm, kind, (m,))
        out.append(v)
    return out


def framed_block(it, s, env, arrays, lists=()):
    """one iteration; it may only write what was made arbitrary before it"""
    ctx = it.ctx
    saved, ctx.record = ctx.record, []
    start, ostart = Arr._n, Obj._n
    try:
        it.block(s.body, env)
    finally:
        rec, ctx.record = ctx.record, saved
        if saved is not None:
            saved.extend(rec)
        ok = {id(a) for a in arrays}
        for r in rec:
            if r[0] == "arr" and r[1].uid <= start and id(r[1]) not in ok:
                raise Unsupported("loop writes an array that its text does not show")
            if r[0] == "symlist" and r[1] in lists:
                continue
            if r[0] == "attr" and r[1]._uid > ostart:
                continue
            if r[0] in ("attr", "dict", "set", "list", "symlist"):
                raise Unsupported(f"loop changes a {r[0]}")


def inv_for(it, s, env, si, spec):
    """for loop with invariant spec.inv(c, L, k) over k iterations done."""
    from .spec import snap_sym
    ctx = it.ctx
    n = si.n
    c = it.spec_ctx
    lists = sym_lists(it, env, spec)
    arrays, names = modified(it, s, env, si, spec)
    pre = {nm: env.vars.get(nm) for nm in names}
    presnap = {nm: snap_sym(v) for nm, v in env.vars.items()}
    P = LoopView(FakeEnv(presnap), None)
    # init
    for nm, t in spec.inv(c, LoopView(env, P), P, S("i", 0)):
        ctx.oblige(f"loop invariant init: {nm}", t)
    # havoc
    k = ctx.fresh("k", "i").v
    ctx.assume(z3.And(k >= 0, k <= to_int(n)))

    def havoc():
        for a in arrays:
            it.log_arr(a)
            h = ctx.fresh_arr("hv", a.kind, a.shape, masked=a.masked, nan=spec.nan)
            a._fn = h.fn()
            if a.masked:
                a._nomask = False
        for nm in names:
            v = pre.get(nm)
            if v is None or isinstance(v, (Arr, Poison)):
                if isinstance(v, Arr) and any(v is a for a in arrays):
                    continue
                env.vars[nm] = Poison("loop local")
            else:
                env.vars[nm] = havoc_value(it, nm, v)
        sym_lists(it, env, spec, k)

    havoc()
    for nm, t in spec.inv(hyp_ctx(c), LoopView(env, P), P, S("i", k)):
        ctx.assume(t.bool() if isinstance(t, S) else t)
    if ctx.branch(k < to_int(n)):
        # arbitrary iteration
        it.assign(s.target, si.item(k), env)
        try:
            framed_block(it, s, env, arrays, lists)
        except _Continue:
            pass
        except _Break:
            # leave the loop from here: state satisfies nothing more than it has
            return
        for nm, t in spec.inv(c, LoopView(env, P), P, S("i", k + 1)):
            ctx.oblige(f"loop invariant step: {nm}", t)
        raise PathEnd()
    for nm in {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}:
        env.vars[nm] = Poison("loop target after the loop")


def sym_while(it, s, env):
    from .spec import snap_sym
    spec = _spec(it, s, env)
    ctx = it.ctx
    c = it.spec_ctx
    lists = sym_lists(it, env, spec)
    arrays, names = modified(it, s, env, None, spec)
    pre = {nm: env.vars.get(nm) for nm in names}
    presnap = {nm: snap_sym(v) for nm, v in env.vars.items()}
    P = LoopView(FakeEnv(presnap), None)
    for nm, t in spec.inv(c, LoopView(env, P), P, None):
        ctx.oblige(f"loop invariant init: {nm}", t)
    for a in arrays:
        it.log_arr(a)
        h = ctx.fresh_arr("hv", a.kind, a.shape, masked=a.masked, nan=spec.nan)
        a._fn = h.fn()
    for nm in names:
        v = pre.get(nm)
        if v is None or isinstance(v, Arr):
            if isinstance(v, Arr) and any(v is a for a in arrays):
                continue
            env.vars[nm] = Poison("loop local")
        else:
            env.vars[nm] = havoc_value(it, nm, v)
    sym_lists(it, env, spec, True)
    for nm, t in spec.inv(hyp_ctx(c), LoopView(env, P), P, None):
        ctx.assume(t.bool() if isinstance(t, S) else t)
    if it.truth(it.ev(s.test, env)):
        var0 = spec.variant(c, LoopView(env, P), P) if spec.variant else None
        try:
            framed_block(it, s, env, arrays, lists)
        except _Continue:
            pass
        except _Break:
            return
        for nm, t in spec.inv(c, LoopView(env, P), P, None):
            ctx.oblige(f"loop invariant step: {nm}", t)
        if var0 is not None:
            var1 = spec.variant(c, LoopView(env, P), P)
            ctx.oblige("loop variant decreases", b_and((var1 < var0).bool(), (var0 >= 0).bool()))
        raise PathEnd()


class PathEnd(Exception):
    """end of a path that only served to check an invariant."""


class FakeEnv:
    def __init__(self, vars_):
        self.vars = vars_


def modified(it, s, env, si, spec):
    """(arrays, local names) the loop may modify: syntactic."""
    names = set()
    for st in s.body:
        names |= assigned_names_stmt(st)
    arrays = []

    def base(v):
        while isinstance(v, Arr) and v.view is not None:
            v = v.view[0]
        return v

    def root(e):
        while isinstance(e, ast.Subscript):
            e = e.value
        return e

    for sub in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        tgts = []
        if isinstance(sub, ast.Assign):
            tgts = sub.targets
        elif isinstance(sub, ast.AugAssign):
            tgts = [sub.target]
        for t in tgts:
            for u in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(u, ast.Subscript):
                    r = root(u)
                    v = it.ev(r, env)
                    if not isinstance(v, Arr):
                        raise Unsupported("loop writes a non-array container")
                    arrays.append(base(v))
                elif isinstance(u, ast.Attribute):
                    raise Unsupported("loop writes an attribute")
                elif isinstance(u, ast.Name) and isinstance(sub, ast.AugAssign):
                    v = env.vars.get(u.id)
                    if isinstance(v, Arr):
                        arrays.append(base(v))
        if isinstance(sub, ast.Call) and isinstance(sub.func, ast.Attribute) and sub.func.attr in ("append", "extend", "pop", "insert", "sort", "fill", "update"):
            if sub.func.attr == "append" and isinstance(sub.func.value, ast.Name) and sub.func.value.id in spec.lists:
                continue
            raise Unsupported("mutating call in an invariant loop")
    names |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()
    return arrays, names
