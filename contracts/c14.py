"""C14: screening of measurements by time."""
import datetime

from cloudnetpy.exceptions import ValidTimeStampError

from pyvc.interp import SymList

from .common import *
from .c12 import ca

U = "cloudnetpy.utils:"
CI = "cloudnetpy.instruments.cloudnet_instrument:"


def on_day(c, a):
    if not c.symbolic:      # the library rounds to microseconds
        return lambda t: S("b", (a.epoch + datetime.timedelta(seconds=float(S.of(t).v))).date() == a.expected_date)
    e, d = seconds(a.epoch), daynum(a.expected_date)
    return lambda t: c.eq((c.data(t) + e) // 86400, d)


def strict(c, t, L, n):
    return c.forall((n, n), lambda i, j: c.implies(i < j, lambda: t[L[i]] < t[L[j]]))


def scan_inv(c, L, P, k):
    t, s, out = P.time, P.ind_sorted, L.ind_valid
    n, m = t.shape[0], c.len(out)
    day = on_day(c, P)
    yield "valid indices", c.forall(m, lambda j: c.and_(out[j] >= 0, out[j] < n))
    yield "of the date", c.forall(m, lambda j: day(t[out[j]]))
    yield "no later than what follows", c.forall((m, n), lambda j, i: c.implies(i >= k, lambda: t[out[j]] <= t[s[i]]))
    yield "increasing", strict(c, t, out, m)
    yield "all so far", c.forall(n, lambda i: c.implies(c.and_(i < k, day(t[s[i]])), lambda: c.exists(m, lambda j: c.eq(t[out[j]], t[s[i]], 0, 0))))


def valid(c, a, r, p):
    t = a.time
    n, m = t.shape[0], c.len(r)
    day = on_day(c, a)
    el = (lambda j: r.arr[j]) if hasattr(r, "arr") else (lambda j: r[j] if isinstance(r, Arr) else S.of(r[int(S.of(j).v)]))
    yield "indices", c.forall(m, lambda j: c.and_(el(j) >= 0, el(j) < n))
    yield "only the expected date", c.forall(m, lambda j: day(t[el(j)]))
    yield "strictly increasing", c.forall((m, m), lambda i, j: c.implies(i < j, lambda: t[el(i)] < t[el(j)]))
    yield "every time of the date", c.forall(n, lambda i: c.implies(day(t[i]), lambda: c.exists(m, lambda j: c.eq(t[el(j)], t[i], 0, 0))))


def none_valid(c, a):
    return ~c.exists(a.time.shape[0], lambda i: on_day(c, a)(a.time[i]))


T1 = TArr("f", "n", lo=-100000, hi=300000, vals=[0, -0.5, 86399, 86399.5, 86400, 86401, 172800, 172799, 43200])
def rows(c, src, out, keys, tkey="time"):
    """row j of every array of `out` is one and the same row of `src`"""
    t, u = src[tkey], out[tkey]
    n, m = t.shape[0], u.shape[0]
    for k in keys:
        yield f"{k}: rows", c.shape_is(out[k], m, *src[k].shape[1:])

    def row(j, i):
        same = [c.forall(src[k].shape[1:], lambda *h, x=src[k], y=out[k]: c.exact(x[(i, *h)], y[(j, *h)])) for k in keys]
        return c.and_(c.exact(t[i], u[j]), *same)
    yield "every array keeps whole rows of the input", c.forall(m, lambda j: c.exists(n, lambda i: row(j, i)))


def screened(c, a, r, p):
    x = a.data_in
    t, u = x["time"], r["time"]
    n, m = t.shape[0], u.shape[0]
    day = on_day(c, a)
    yield "keys", S("b", set(r) == set(x))
    yield "strictly increasing", c.forall((m, m), lambda i, j: c.implies(i < j, lambda: u[i] < u[j]))
    yield "only the expected date", c.forall(m, lambda j: day(u[j]))
    yield "every time of the date", c.forall(n, lambda i: c.implies(day(t[i]), lambda: c.exists(m, lambda j: c.eq(u[j], t[i], 0, 0))))
    yield from rows(c, x, r, ["one", "two", "three"])
    yield "other dimensions untouched", c.all_exact(r["other"], x["other"])
    yield "scalars untouched", c.and_(c.exact(r["scalar"], x["scalar"]), S("b", r["text"] == x["text"]))


def new_list(c, a):
    m = c.ctx.fresh("n_valid", "i").v
    c.ctx.assume(m >= 0)
    return SymList(c.ctx.fresh_arr("valid", "i", (m,)))


M = lambda d: TOne(TArr("f", d, masked=True), TArr("f", d))
def inst(cls=CI + "CloudnetInstrument"):
    return TObj(cls, time=TOne(TArr("f", "n", lo=0, hi=24, vals=[0, 12, 24]), TArr("f", 0)),
                data=TDict(time=ca(TArr("f", "n", lo=0, hi=24, vals=[0, 1, 12, 24])), one=ca(M("n")), two=ca(TArr("f", ("n", "h"), masked=True)), three=ca(TArr("f", ("n", "h", "k"))), other=ca(TArr("f", "q")), scalar=ca(TReal())))


def fields(o):
    return {k: v.data for k, v in o.data.items()}


def kept(c, a, p):
    """whole rows of the input, untouched otherwise"""
    x, y = fields(a.self), fields(p.self)
    yield from rows(c, x, y, ["one", "two", "three"])
    yield "other dimensions untouched", c.all_exact(y["other"], x["other"])
    yield "scalars untouched", c.exact(y["scalar"], x["scalar"])


def no_time_lost(c, a, p):
    t, u = fields(a.self)["time"], fields(p.self)["time"]
    yield "every time is kept", c.forall(t.shape[0], lambda i: c.exists(u.shape[0], lambda j: c.eq(u[j], t[i], 0, 0)))


def own_time(c, a, p, same):
    """the instrument's own time vector is screened the same way"""
    t, u = fields(a.self)["time"], fields(p.self)["time"]
    x, y = a.self.time, p.self.time
    if x.shape[0] == 0 and not hasattr(x.shape[0], "sexpr"):
        yield "own time", c.shape_is(y, 0)
    else:
        yield "own time: cells", c.shape_is(y, u.shape[0])
        yield "own time: same rows", c.forall(u.shape[0], lambda j: c.exists(t.shape[0], lambda i: c.and_(c.eq(t[i], u[j], 0, 0), c.eq(x[i], y[j], 0, 0))))


def sorted_(c, a, r, p):
    x, y = fields(a.self), fields(p.self)
    t, u = x["time"], y["time"]
    n = t.shape[0]
    yield "same number", c.shape_is(u, n)
    yield "sorted", c.forall((n, n), lambda i, j: c.implies(i < j, lambda: u[i] <= u[j]))
    yield from kept(c, a, p)
    yield from no_time_lost(c, a, p)
    yield from own_time(c, a, p, True)


def deduplicated(c, a, r, p):
    u = fields(p.self)["time"]
    m = u.shape[0]
    yield "strictly increasing", c.forall((m, m), lambda i, j: c.implies(i < j, lambda: u[i] < u[j]))
    yield from kept(c, a, p)
    yield from no_time_lost(c, a, p)
    yield from own_time(c, a, p, True)


def flagged(c, a, r, p):
    x, y, v = fields(a.self), fields(p.self), a.valid_indices
    t, u = x["time"], y["time"]
    n, m = t.shape[0], u.shape[0]
    two = lambda j, i: c.forall(x["two"].shape[1], lambda h: c.exact(x["two"][i, h], y["two"][j, h]))
    yield from kept(c, a, p)
    yield "only flagged rows", c.forall(m, lambda j: c.exists(n, lambda i: c.and_(v[i], c.exact(t[i], u[j]), c.exact(x["one"][i], y["one"][j]), two(j, i))))
    yield "all flagged rows", c.forall(n, lambda i: c.implies(v[i], lambda: c.exists(m, lambda j: c.and_(c.exact(t[i], u[j]), c.exact(x["one"][i], y["one"][j])))))
    match = lambda j, i: c.and_(c.exact(t[i], u[j]), c.exact(x["one"][i], y["one"][j]))
    yield "order kept", c.forall((m, m), lambda j, k: c.implies(j < k, lambda: c.exists((n, n), lambda i, l: c.and_(i < l, match(j, i), match(k, l)))))


def raw(cls):
    return TObj(cls, time=TArr("f", "n", lo=0, hi=24), dataset=dataset(time=var(TArr("f", "n", lo=1, hi=300000, vals=[86399, 86400, 86401, 172800, 172799, 43200]))),
                data=TDict(one=ca(M("n")), two=ca(TArr("f", ("n", "h"), masked=True)), scalar=ca(TReal())))


def usable(c, a):
    t = a.self.dataset.variables["time"].data
    day = on_day(c, NS({"epoch": EPOCH0, "expected_date": a.expected_date}))
    return lambda i: day(t[i])


def dated(c, a, r, p):
    """exactly the rows of the expected date stay, whole and in order"""
    x, y = fields(a.self), fields(p.self)
    ok, t, u = usable(c, a), a.self.time, p.self.time
    n, m = t.shape[0], u.shape[0]
    for k in ("one", "two"):
        yield f"{k}: rows", c.shape_is(y[k], m, *x[k].shape[1:])
    row = lambda j, i: c.and_(c.exact(t[i], u[j]), c.exact(x["one"][i], y["one"][j]), c.forall(x["two"].shape[1], lambda h: c.exact(x["two"][i, h], y["two"][j, h])))
    yield "only the expected date", c.forall(m, lambda j: c.exists(n, lambda i: c.and_(ok(i), row(j, i))))
    yield "all of the expected date", c.forall(n, lambda i: c.implies(ok(i), lambda: c.exists(m, lambda j: row(j, i))))
    yield "scalars untouched", c.exact(y["scalar"], x["scalar"])


CONTRACTS = [
    Contract(U + "find_valid_time_indices", {"time": T1, "epoch": TEpoch(), "expected_date": TDay()}, valid, dims={"n": 0}, overrides=spans(),
             raises=[(ValidTimeStampError, none_valid)], loops={("find_valid_time_indices", 0): LoopSpec(scan_inv, lists={"ind_valid": "i"})}, modular=new_list),
    Contract(U + "screen_by_time", {"data_in": TDict(time=T1, one=M("n"), two=M(("n", "h")), three=TArr("f", ("n", "h", "k")), other=TArr("f", "q"), scalar=TReal(), text=TConst("x")), "epoch": TEpoch(), "expected_date": TDay()},
             screened, dims={"n": 0, "h": 0, "k": 0, "q": 0}, requires=lambda c, a: [c.n("n") != c.n("q")], overrides=spans(), raises=[(ValidTimeStampError, lambda c, a: none_valid(c, NS({**a._d, "time": a.data_in["time"]})))]),
    Contract(CI + "CloudnetInstrument.sort_timestamps", {"self": inst()}, sorted_, dims={"n": 2, "h": 2, "k": 2, "q": 2}, requires=lambda c, a: [c.n("n") != c.n("q")], modifies={"self"}),
    Contract(CI + "CloudnetInstrument.remove_duplicate_timestamps", {"self": inst()}, deduplicated, dims={"n": 2, "h": 2, "k": 2, "q": 2}, requires=lambda c, a: [c.n("n") != c.n("q")], modifies={"self"}),
    Contract(CI + "CloudnetInstrument.screen_time_indices", {"self": inst(), "valid_indices": TArr("b", "n")}, flagged, dims={"n": 2, "h": 2, "k": 2, "q": 2}, requires=lambda c, a: [c.n("n") != c.n("q")], modifies={"self"},
             raises=[(ValidTimeStampError, lambda c, a: ~c.exists("n", lambda i: a.valid_indices[i]))]),
    *[Contract(cls + ".screen_by_date", {"self": raw(cls), "expected_date": TDay()}, dated, dims={"n": 2, "h": 2}, overrides=spans(), modifies={"self"},
               raises=[(ValidTimeStampError, lambda c, a, f=f: ~c.exists("n", lambda i: f(c, a)(i)))]) for cls, f in (("cloudnetpy.instruments.mira:Mira", usable), ("cloudnetpy.instruments.mrr:MrrPro", usable))],
]
