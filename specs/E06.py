"""E06: evaluation scores aggregate exactly the evaluated periods.
SUM.x(a, n) is the sum of the first n values x of the periods a, PROD.score(a, b, n) the product of the ratios of their gains."""
from specs.hist_common import *
from specs import E05

UNITS = E05.UNITS
ASSUMES = ["floating-point arithmetic is exact (real numbers)", "executing a trader on positive prices from a positive value yields positive prices, a "
           "positive start value and a non-negative end value (A02, E03)", "every partial product of the ratios of gains is zero or between 2^-1022 and "
           "2^1023 (the range of a double; the accumulator's own type must hold it)", "std::pow(x, y) = exp(y log x) for x > 0 and 0 for x = 0 < y"]
REPLAY = ("eval_oracle.cc", ["E06"], "eval")
AIR, AII = z3.ArraySort(I, R), z3.ArraySort(I, I)
SUMS = {}
PROD = z3.Function("PROD.score", AIR, AIR, I, R)


def arrays(ps, x):
    d = ps.data
    if x in ("final_gain", "base_final_gain"):
        return (d.f[x],)
    if x == "score":
        return (d.f["final_gain"], d.f["base_final_gain"])
    return (d.f["result"].f[x],)


def agg(ps, x, n):
    a = arrays(ps, x)
    if x == "score":
        return PROD(*a, n)
    if x not in SUMS:
        SUMS[x] = z3.Function("SUM." + x, a[0].sort(), I, R)
    return SUMS[x](*a, n)


def value(ps, x, k):
    v = [z3.Select(a, k) for a in arrays(ps, x)]
    if x == "score":
        return v[0] / v[1]
    return z3.ToReal(v[0]) if v[0].sort() == I else v[0]


MEANS = {"avg_gain": "final_gain", "avg_base_gain": "base_final_gain", "avg_total_executed_orders": "total_executed_orders", "avg_total_fee": "total_fee"}
ALL = list(MEANS.values()) + ["score"]


def unit(x):
    return z3.RealVal(1 if x == "score" else 0)


def is_result(v):
    return isinstance(v, Rec) and "period" in v.f and "score" in v.f


def periods_of(r):
    p = r.f["period"]
    if not isinstance(p, Seq):
        raise AnnotationMismatch("periods")
    return p


def positive(ps):
    return forall(1, lambda k: z3.Implies(z3.And(ps.lo <= k, k < ps.hi), z3.And(at(ps, k, "final_gain") >= 0, at(ps, k, "base_final_gain") > 0)))


def month_inv(L):
    ps = periods_of(L.val("eval_result", is_result))
    return [("gains-positive", positive(ps)), ("start", ps.lo == 0)]


def touches_result(L):
    return any(isinstance(L.ex.store.get(r), Rec) and is_result(L.ex.store[r]) for r in L.modroots())


# ---- the loops that add up (multiply) one value per period
def container(L):
    c = []
    for did, l in L.ex.fr.env.items():
        v = L.ex.read(l)
        if isinstance(v, Seq) and isinstance(v.data, Rec) and "base_final_gain" in v.data.f and not any(l.same(x) for x in c):
            c.append(l)
    if len(c) != 1:
        raise AnnotationMismatch("the container that is aggregated")
    return c[0]


def selected(L):
    """the values that this loop aggregates: those equal to what the selector returns for an arbitrary period"""
    ex = L.ex
    if "selected" not in L.ghost:
        cl = container(L)
        ps = ex.read(cl)
        clo = [ex.read(l) for l in ex.fr.env.values() if isinstance(ex.read(l), Clo)]
        if len(clo) != 1:
            raise AnnotationMismatch("selector")
        k = z3.Int("any_period")
        pc, ex.dry, sv = list(ex.pc), ex.dry + 1, ex.solver
        try:
            ex.pc = pc + [z3.And(ps.lo <= k, k < ps.hi)]
            ex.solver = None
            e = ex.rvalue(ex.call_value(clo[0], [cl.sub(("i", k))]))
            e = z3.ToReal(e) if e.sort() == I else e
            L.ghost["selected"] = [x for x in ALL if z3.is_true(z3.simplify(e == value(ps, x, k))) or ex.surely(e == value(ps, x, k))]
        finally:
            ex.pc, ex.dry, ex.solver = pc, ex.dry - 1, None
    return L.ghost["selected"]


def limits(L, acc):
    """the positive values that the accumulator's type can hold"""
    for l, d in L.ex.fr.names.values():
        if l.same(acc):
            t = L.ex.tt.parse(ty(d))
            e = {"f32": (126, 128), "f64": (1022, 1023)}.get(t.k)
            if e:
                return [z3.Q(1, 2 ** e[0]), z3.RealVal(2 ** e[1])]
    raise AnnotationMismatch("type of the accumulator")


def agg_inv(L):
    ex = L.ex
    ps = ex.read(container(L))
    k = L.cursor(container(L))
    acc = L.loc("sum", lambda v: isinstance(v, z3.ArithRef) and v.sort() == R, True)
    a0 = z3.simplify(L.old(acc))
    a = ex.read(acc)
    out = [("position", z3.And(0 <= k, k <= size(ps), ps.lo == 0))]
    for x in selected(L):
        if a0.eq(z3.simplify(unit(x))):
            out.append(("sum-of-" + x if x != "score" else "product-of-ratios", a == agg(ps, x, k)))
            if x == "score":
                out.append(("non-negative", a >= 0))
                lo, hi = limits(L, acc)
                out.append(("representable", z3.Or(a == 0, z3.And(lo <= a, a < hi))))
    return out


def agg_head(L):
    ps = L.ex.read(container(L))
    k = L.cursor(container(L))
    out = []
    for x in selected(L):
        n, v = agg(ps, x, k), value(ps, x, k)
        out += [agg(ps, x, z3.IntVal(0)) == unit(x), agg(ps, x, k + 1) == (n * v if x == "score" else n + v)]
        if x == "score":
            out.append(z3.Or(n * v == 0, z3.And(z3.Q(1, 2 ** 1022) <= n * v, n * v < z3.RealVal(2 ** 1023))))
    return out


def agg_enter(L):
    ps = L.ex.read(container(L))
    for x in selected(L):
        L.ex.assume(agg(ps, x, z3.IntVal(0)) == unit(x))


def ensures(c):
    r = c.res
    ps = periods_of(r)
    n = size(ps)
    rn = z3.ToReal(n)
    out = [(f, r.f[f] == z3.If(n == 0, 0, agg(ps, x, n) / rn)) for f, x in MEANS.items()]
    p = agg(ps, "score", n)
    out.append(("score", r.f["score"] == z3.If(z3.Or(n == 0, p == 0), 0, AR.EXP(1 / rn * AR.LOG(p)))))
    return out


def exec_ens(c):
    r = c.res
    return [("", z3.And(r.f["start_price"] > 0, r.f["end_price"] > 0, r.f["start_value"] > 0, r.f["end_value"] >= 0))]


CALLEES = [Contract("AddMonthsToTimestampSec", None, None, lambda c: []),
           Contract("HistorySubset", None, E05.subset_ens, lambda c: [], result=E05.subset_result, nparams=3),
           Contract("TraderEmitter::NewTrader", None, lambda c: [("", z3.Not(c.res.f["null"]))], lambda c: []),
           Contract("TraderEmitter::GetName", None, None, lambda c: []),
           Contract("ExecuteTrader", None, exec_ens, lambda c: [c.argv[5]])]
C = Contract("EvaluateTrader", None, ensures, None,
             loops=[LoopSpec("months", month_inv, applies=touches_result),
                    LoopSpec("aggregate", agg_inv, head=agg_head, enter=agg_enter, applies=lambda L: not touches_result(L))])


def tasks(P):
    return [Task("EvaluateTrader", "EvaluateTrader", C, CALLEES, asserts="assume")]
