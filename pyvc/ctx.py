"""Execution context: path condition, facts, fresh symbols, selections, quantifiers."""

from __future__ import annotations

import z3

from .core import (
    Arr, Fn, PathAbort, S, Unsupported, b_and, b_not, b_or, dim_eq, dnorm, ikey, is_z,
    s_cmp, s_ite, to_bool, to_int, to_real, ufun,
)

SORT = {"b": z3.BoolSort, "i": z3.IntSort, "f": z3.RealSort}


class IRaise(Exception):
    """Exception raised by interpreted code."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Poison:
    def __init__(self, why):
        self.why = why


SELS = {}


def _apps_of(t, qs, lv, limit=2):
    """uninterpreted functions applied to exactly the variables qs (and loop variables) in t: usable as triggers"""
    out, seen, st = [], set(), [t]
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        ch = x.children()
        if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(any(c.eq(q) for q in (*qs, *lv)) for c in ch) and all(any(c.eq(q) for c in ch) for q in qs):
            out.append(x)
        st.extend(reversed(ch))
    return out


def _mentions_var(t, v):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


class Sel:
    """The positions where a boolean mask holds, in C order."""

    def __init__(self, ctx, shape, maskfn, name):
        self.ctx = ctx
        self.shape = shape
        self.maskfn = maskfn
        d = len(shape)
        self.name = name
        I = z3.IntSort()
        lv = ctx.loopvars
        ls = [I] * len(lv)
        self._lv = list(lv)
        self.n = z3.Function(name + "_n", *ls, I)(*lv) if lv else z3.Int(name + "_n")
        self.cf = [z3.Function(f"{name}_c{i}", *ls, I, I) for i in range(d)]
        self.rf = z3.Function(name + "_r", *ls, *([I] * d), I)
        for f in self.cf:
            SELS[f.name()] = (self.rf, self._lv)
        k = z3.Int("qk")
        ks = self.raw_coords(k)
        inr = [z3.And(c >= 0, c < to_int(n)) for c, n in zip(ks, shape)]
        ctx.fact(z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < self.n),
            z3.And(*inr, to_bool(maskfn(ks)), self.rf(*lv, *ks) == k)),
            patterns=[self.cf[0](*lv, k)]))
        qi = [z3.Int(f"qi{i}") for i in range(d)]
        r = self.rf(*lv, *qi)
        body = z3.Implies(
            z3.And(*[z3.And(q >= 0, q < to_int(n)) for q, n in zip(qi, shape)], to_bool(maskfn(tuple(qi)))),
            z3.And(r >= 0, r < self.n, *[f(*lv, r) == q for f, q in zip(self.cf, qi)]))
        ctx.fact(z3.ForAll(qi, body, patterns=[r, *_apps_of(to_bool(maskfn(tuple(qi))), qi, lv)] if d == 1 else [r]))
        ctx.fact(self.n >= 0)
        if d == 2:
            # C order: horizontally adjacent selected cells have consecutive ranks
            p, q, s = z3.Int("qi0"), z3.Int("qi1"), z3.Int("qi2")
            r1, r2 = self.rf(*lv, p, q), self.rf(*lv, p, s)
            ctx.fact(z3.ForAll([p, q, s], z3.Implies(z3.And(
                s == q + 1, p >= 0, p < to_int(shape[0]), q >= 0, s < to_int(shape[1]),
                to_bool(maskfn((p, q))), to_bool(maskfn((p, s)))), r2 == r1 + 1), patterns=[z3.MultiPattern(r1, r2)]))
        if d == 1:
            ctx.fact(self.n <= to_int(shape[0]))
            k2 = z3.Int("qk2")
            ctx.fact(z3.ForAll([k, k2], z3.Implies(
                z3.And(k >= 0, k < k2, k2 < self.n),
                self.cf[0](*lv, k) < self.cf[0](*lv, k2)),
                patterns=[z3.MultiPattern(self.cf[0](*lv, k), self.cf[0](*lv, k2))]))

    def raw_coords(self, k):
        return tuple(f(*self._lv, to_int(k)) for f in self.cf)

    def coords(self, k):
        if is_z(k) and z3.is_app(k) and k.decl().eq(self.rf):
            n = len(self._lv)
            return tuple(k.arg(n + i) for i in range(len(self.shape)))
        return self.raw_coords(k)

    def rank(self, idx):
        idx = [to_int(i) for i in idx]
        if len(idx) == 1 and z3.is_app(idx[0]) and idx[0].decl().eq(self.cf[0]):
            return idx[0].arg(len(self._lv))
        return self.rf(*self._lv, *idx)


class ConcSel:
    def __init__(self, shape, idxs):
        self.shape = shape
        self.idxs = idxs
        self.n = len(idxs)
        self._rank = {tuple(i): k for k, i in enumerate(idxs)}

    def coords(self, k):
        if is_z(k):
            if self.n > 40 or self.n == 0:
                raise Unsupported("symbolic index into concrete selection")
            out = []
            for d in range(len(self.shape)):
                t = z3.IntVal(int(self.idxs[-1][d]))
                for j in range(self.n - 2, -1, -1):
                    t = z3.If(k == j, z3.IntVal(int(self.idxs[j][d])), t)
                out.append(t)
            return tuple(out)
        return tuple(int(x) for x in self.idxs[int(k)])

    def rank(self, idx):
        return self._rank[tuple(int(i) for i in idx)]


_DEPTH = [0]


def quant(kind, n, p):
    """kind: 'E'/'A'; n: int or z3 dim; p: k -> py/z3 bool."""
    if not is_z(n):
        n = int(n)
        if n <= 64:
            out = []
            for k in range(n):
                t = p(k)
                if kind == "E" and t is True:
                    return True
                if kind == "A" and t is False:
                    return False
                out.append(t)
            return b_or(*out) if kind == "E" else b_and(*out)
        n = z3.IntVal(n)
    d = _DEPTH[0]
    _DEPTH[0] += 1
    try:
        k = z3.Int(f"q!{d}")
        t = p(k)
    finally:
        _DEPTH[0] -= 1
    if not is_z(t):
        if kind == "E":
            return False if not t else (to_int(n) > 0)
        return True if t else (to_int(n) <= 0)
    ks, bs, body = [k], [k >= 0, k < n], t
    q = _QINFO.get(t.get_id())
    if q is not None and q[0] == kind:  # one quantifier over all indices: triggers can cover all of them
        ks, bs, body = ks + q[1], bs + q[2], q[3]
    if kind == "E":
        out = z3.Exists(ks, z3.And(*bs, body))
    else:
        out = z3.ForAll(ks, z3.Implies(z3.And(*bs), body))
    if len(_QINFO) > 20000:
        _QINFO.clear()
    _QINFO[out.get_id()] = (kind, ks, bs, body, out)
    return out


_QINFO = {}
_SUMS = {}      # function name -> (parameters, index, summand)
_SUMKEY = {}


def quant_nd(kind, shape, p):
    def go(i, idx):
        if i == len(shape):
            return p(tuple(idx))
        return quant(kind, shape[i], lambda k: go(i + 1, idx + [k]))
    return go(0, [])


def _int_consts(t):
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x):
                out.setdefault(x.decl().name(), x)
        else:
            st.extend(reversed(x.children()))
    return list(out.values())


def sum_at(app):
    """summand of a SUM!n application as a function of the index, and its length"""
    canon, k, tmpl = _SUMS[app.decl().name()]
    ch = app.children()
    return (lambda j: z3.substitute(tmpl, *zip(canon, ch[:-1]), (k, j))), ch[-1]


def sum_term(n, f):
    """sum of f(k) for 0<=k<n; f: k -> S (real/int) ; returns python number or Real term."""
    if not is_z(n):
        n = int(n)
        if n <= 64:
            tot = None
            for k in range(n):
                s = f(k)
                tot = s if tot is None else tot + s
            return tot if tot is not None else S("f", 0.0)
        n = z3.IntVal(n)
    d = _DEPTH[0]
    _DEPTH[0] += 1
    try:
        k = z3.Int(f"q!{d}")
        t = f(k)
    finally:
        _DEPTH[0] -= 1
    body = to_real(t.v)
    params = [x for x in _int_consts(body) if not x.eq(k)]
    canon = [z3.Int(f"sp!{i}") for i in range(len(params))]
    kk = z3.Int("sp!k")
    tmpl = z3.substitute(body, *zip(params, canon), (k, kk))
    key = tmpl.get_id()
    if key not in _SUMKEY:
        nm = f"SUM!{len(_SUMS)}"
        fd = z3.Function(nm, *[z3.IntSort()] * (len(params) + 1), z3.RealSort())
        _SUMS[nm] = (canon, kk, tmpl)
        _SUMKEY[key] = fd
    v = _SUMKEY[key](*params, n)
    nan = False
    if t.nan is not False:
        nan = quant("E", n, lambda kk: f(kk).nan)
    return S("f", v, nan)


class Ctx:
    def __init__(self, prefix=(), symbolic=True):
        self.symbolic = symbolic
        self.pc = []          # path condition
        self.facts = []       # always-true definitional facts (may be quantified)
        self.prefix = list(prefix)
        self.taken = []       # (decision, forced)
        self.pending = []     # alternative prefixes discovered
        self.counter = {}
        self.loopvars = []
        self.sels = {}
        self.runs = {}
        self.loop_pc = None
        self.memo = {}
        self.inputs = None    # names of the symbols that stand for inputs
        self.recs = {}        # recursively defined array -> one-level unfolding
        self.keep = []
        self.assumptions = set()
        self.obls = []        # (name, formula under pc at that point)
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.loop_depth = 0
        self.record = None
        self.functions = set()  # functions interpreted (source covered)
        self.contract_calls = set()
        self.steps = 0
        self.warned = []

    # fresh ----------------------------------------------------------
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}!{n}"

    def fresh(self, base, kind):
        nm = self.name(base)
        if self.loopvars:
            return S(kind, z3.Function(nm, *[z3.IntSort()] * len(self.loopvars), SORT[kind]())(*self.loopvars))
        return S(kind, z3.Const(nm, SORT[kind]()))

    def fresh_arr(self, base, kind, shape, masked=False, nan=False, dtype=None, nomask=None):
        nm = self.name(base)
        lv = list(self.loopvars)
        args = [z3.IntSort()] * (len(lv) + len(shape))
        if not args:
            f = lambda *a: z3.Const(nm, SORT[kind]())
            fm = lambda *a: z3.Const(nm + "_m", z3.BoolSort())
            fnn = lambda *a: z3.Const(nm + "_nan", z3.BoolSort())
        else:
            f = z3.Function(nm, *args, SORT[kind]())
            fm = z3.Function(nm + "_m", *args, z3.BoolSort())
            fnn = z3.Function(nm + "_nan", *args, z3.BoolSort())

        def get(idx):
            a = lv + [to_int(i) for i in idx]
            return S(kind, f(*a), fnn(*a) if nan else False, fm(*a) if masked else False)

        return Arr(shape, kind, get, masked, (not masked) if nomask is None else nomask, dtype)

    # facts ----------------------------------------------------------
    def fact(self, t):
        if t is True:
            return
        t = to_bool(t)
        self.facts.append(t)
        if not has_quant(t):
            self.solver.add(t)

    def assume(self, t):
        if isinstance(t, S):
            t = t.bool()
        if t is True:
            return
        if t is False:
            raise PathAbort()
        t = to_bool(t)
        self.pc.append(t)
        if not has_quant(t):
            self.solver.add(t)

    def feasible(self, t):
        self.solver.push()
        try:
            if not has_quant(t):
                self.solver.add(t)
            r = self.solver.check()
        finally:
            self.solver.pop()
        return r != z3.unsat

    def valid_quick(self, t):
        """True iff t follows from qf facts and pc (quick)."""
        if t is True:
            return True
        if t is False:
            return False
        self.solver.push()
        try:
            self.solver.add(z3.Not(t))
            r = self.solver.check()
        finally:
            self.solver.pop()
        return r == z3.unsat

    def branch(self, t):
        if isinstance(t, S):
            t = b_and(t.bool(), b_not(t.m))
        if not is_z(t):
            return bool(t)
        t = z3.simplify(t) if not has_quant(t) else t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        # identical decisions already taken on this path
        nt = z3.Not(t)
        for c in self.pc:
            if c.eq(t):
                return True
            if c.eq(nt) or (z3.is_not(t) and t.arg(0).eq(c)):
                return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            ft = self.feasible(t)
            ff = self.feasible(nt)
            if ft and ff:
                d = True
                self.pending.append([x for x in self.taken] + [False])
            elif ft:
                d = True
            elif ff:
                d = False
            else:
                raise PathAbort()
        self.taken.append(d)
        self.assume(t if d else nt)
        if len(self.taken) > 400:
            raise Unsupported("too many branches on one path")
        return d

    def oblige(self, name, t):
        if isinstance(t, S):
            t = t.bool()
        if t is True:
            return
        self.obls.append((name, to_bool(t), list(self.pc)))

    # dims -----------------------------------------------------------
    def same_dim(self, a, b):
        t = dim_eq(a, b)
        if t is True or t is False:
            return t
        if self.valid_quick(t):
            return True
        if self.valid_quick(z3.Not(t)):
            return False
        return self.branch(t)

    def pair_runs(self, n1, n2):
        """When n1 counts the first and n2 the last cells of the runs of a condition X along the rows of a
        grid, the k-th first and the k-th last cell (in C order) bound the same run: #first(p) - #last(p),
        counted over the cells before p, is 1 inside a run and 0 elsewhere, by induction on p."""
        if not (is_z(n1) and is_z(n2)):
            return False
        find = lambda n: next((s for s in self.sels.values() if len(s.shape) == 2 and s.n.eq(n)), None)
        s1, s2 = find(n1), find(n2)
        if s1 is None or s2 is None or s1 is s2 or s1._lv or s2._lv:
            return False
        key = (s1.name, s2.name)
        if key in self.runs:
            return self.runs[key]
        self.runs[key] = False
        if not all(dim_eq(a, b) is True or self.valid_quick(dim_eq(a, b)) for a, b in zip(s1.shape, s2.shape)):
            return False
        n, m = [to_int(d) for d in s1.shape]
        canon = (z3.Int("sel?0"), z3.Int("sel?1"))
        ij = (z3.Int(self.name("ri")), z3.Int(self.name("rj")))
        at = lambda t, x, y: z3.substitute(t, (canon[0], to_int(x)), (canon[1], to_int(y)))
        cands, seen = [], set()
        st = [to_bool(s.maskfn(canon)) for s in (s1, s2)]
        while st and len(seen) < 400:
            x = st.pop(0)
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_bool(x) and all(_mentions_var(x, v) for v in canon):
                cands.append(x)
            st.extend(x.children())
        i, j = ij
        grid = z3.And(i >= 0, i < n, j >= 0, j < m)
        for X in cands:
            x = lambda p, q, X=X: at(X, p, q)
            ok = []
            for A, B in ((s1, s2), (s2, s1)):
                f = z3.And(to_bool(A.maskfn(ij)) == z3.And(x(i, j), z3.Or(j == 0, z3.Not(x(i, j - 1)))),
                           to_bool(B.maskfn(ij)) == z3.And(x(i, j), z3.Or(j == m - 1, z3.Not(x(i, j + 1)))))
                q = z3.Solver()
                q.set("timeout", 3000)
                q.add(grid, z3.Not(f))
                if q.check() == z3.unsat:
                    ok = [(A, B)]
                    break
            if not ok:
                continue
            A, B = ok[0]
            own = z3.Function(self.name("run"), z3.IntSort(), z3.IntSort(), z3.IntSort())
            k = z3.Int("qk")
            inn = z3.And(k >= 0, k < A.n)
            self.fact(A.n == B.n)
            (r1, c1), (r2, c2) = A.raw_coords(k), B.raw_coords(k)
            body = z3.Implies(inn, z3.And(r1 == r2, c1 <= c2))
            for pat in (c1, c2, r1, r2):
                self.fact(z3.ForAll([k], body, patterns=[pat]))
            qi, qj = z3.Int("qi0"), z3.Int("qi1")
            o = own(qi, qj)
            (r1, c1), (_, c2) = A.raw_coords(o), B.raw_coords(o)
            self.fact(z3.ForAll([qi, qj], z3.Implies(
                z3.And(qi >= 0, qi < n, qj >= 0, qj < m, x(qi, qj)),
                z3.And(o >= 0, o < A.n, r1 == qi, c1 <= qj, qj <= c2)), patterns=[o, *_apps_of(x(qi, qj), [qi, qj], [])]))
            (r1, c1), (_, c2) = A.raw_coords(k), B.raw_coords(k)
            self.fact(z3.ForAll([k, qi, qj], z3.Implies(
                z3.And(inn, qi == r1, c1 <= qj, qj <= c2), z3.And(x(qi, qj), o == k)),
                patterns=[z3.MultiPattern(c1, o)]))
            r = self.runs[key] = (A, B, own, x)
            return r
        return False

    def sel_hints(self, k, n):
        """what the coordinates of element k < n of the selections with n elements satisfy, for the quick tests"""
        same = [s for s in self.sels.values() if not s._lv and is_z(n) and s.n.eq(n)]
        for r in self.runs.values():
            if r and (any(r[0] is s for s in same) or any(r[1] is s for s in same)):
                same += [r[0], r[1]]
                (r1, c1), (r2, c2) = r[0].raw_coords(k), r[1].raw_coords(k)
                self.solver.add(r1 == r2, c1 <= c2)
        for s in same:
            for c, d in zip(s.raw_coords(k), s.shape):
                self.solver.add(c >= 0, c < to_int(d))

    # selections -----------------------------------------------------
    def selection(self, mask: Arr):
        shape = mask.shape
        if all(not is_z(d) for d in shape):
            vals = {i: mask.get(i) for i in mask.indices()}
            if all(not is_z(v.v) for v in vals.values()):
                return ConcSel(shape, [i for i, v in vals.items() if v.bool()])
        canon = tuple(z3.Int(f"sel?{i}") for i in range(len(shape)))
        t = to_bool(mask.get(canon).bool())
        key = (t.get_id(), tuple(ikey(d) for d in shape))
        r = self.sels.get(key)
        if r is None:
            f = mask.fn()
            r = Sel(self, shape, lambda idx: f(tuple(idx)).bool(), self.name("sel"))
            self.sels[key] = r
            self.keep.append(t)
        return r


_HQ: dict = {}
_HQKEEP: list = []


def has_quant(t):
    if not is_z(t):
        return False
    k = t.get_id()
    r = _HQ.get(k)
    if r is None:
        r = _has_quant(t)
        _HQ[k] = r
        _HQKEEP.append(t)
    return r


def _has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False
