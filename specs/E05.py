"""E05: evaluation covers every full period in the interval, one fresh trader each.

Period k starts at START(k) = start plus k months and ends at FIN(k) = START(k) plus the period length.  The ticks of [s, e) are the
range [FROM(s, e), TO(s, e)) of the history (H01), EXEC.. is the result of executing a fresh trader over a range (E01..E04), and
NP(k) is the number of the periods before period k that contain ticks."""
from specs.hist_common import *

UNITS = [("eval/eval.cc", ("trader::", "(anonymous namespace)::"))]
ASSUMES = ["calendar facts of AddMonthsToTimestampSec (proved from the civil calendar in U03): adding no months is the identity, and the starts "
           "and ends of the periods are strictly increasing",
           "fresh traders of one emitter behave the same", "the interval spans less than 2^31 months"]
REPLAY = ("eval_oracle.cc", ["E05"], "eval")
ADDM = z3.Function("ADDM", I, I, I)
START, FIN, NP = z3.Function("START", I, I), z3.Function("FIN", I, I), z3.Function("NP", I, I)
FROM, TO = z3.Function("FROM", I, I, I), z3.Function("TO", I, I, I)
CFG, EVAL, HISTORY, SIDE, EMITTER, LOGGER = range(6)


def main(c):
    return c.ex.task.ctx_of(c.ex)


def G(c, name):
    m = main(c)
    return m.ex.read(m.ghost[name])


def setG(c, name, v):
    m = main(c)
    m.ex.write(m.ghost[name], v)


def ev(c, f):
    return main(c).a(EVAL).f[f]


def months(c):
    return ev(c, "evaluation_period_months")


def ticks_in(s, e):
    return FROM(s, e) != TO(s, e)


def entry(c):
    A = c.ex.assume
    s0, e0, m = ev_pre(c, "start_timestamp_sec"), ev_pre(c, "end_timestamp_sec"), ev_pre(c, "evaluation_period_months")
    for nm, v in (("k", z3.IntVal(0)), ("fresh", z3.BoolVal(False)), ("created", z3.IntVal(0))):
        c.ghost[nm] = c.ex.new_root("ghost." + nm, v)
    A(ADDM(s0, 0) == s0)
    A(forall(1, lambda k: z3.And(START(k) == ADDM(s0, k), FIN(k) == ADDM(START(k), m)), patterns=lambda k: [ADDM(s0, k)]))
    A(forall(1, lambda k: z3.And(START(k) == ADDM(s0, k), FIN(k) == ADDM(START(k), m)), patterns=lambda k: [FIN(k)]))
    A(z3.Implies(m > 0, forall(2, lambda j, k: z3.Implies(z3.And(0 <= j, j < k), FIN(j) < FIN(k)), patterns=lambda j, k: [z3.MultiPattern(FIN(j), FIN(k))])))
    A(NP(0) == 0)
    A(forall(1, lambda k: z3.Implies(k >= 0, NP(k + 1) == NP(k) + z3.If(ticks_in(START(k), FIN(k)), 1, 0)), patterns=lambda k: [FIN(k)]))


def ev_pre(c, f):
    return c.a(EVAL).f[f]


# ---- callees
def add_months(c):
    return [("", c.res == ADDM(c.a(0), c.a(1)))]


def subset_result(c):
    s, e = c.a(1), c.a(2)
    return Rec("pair", {"first": It(c.argv[0], FROM(s, e)), "second": It(c.argv[0], TO(s, e))})


def subset_ens(c):
    h, s, e = c.a(0), c.a(1), c.a(2)
    return [("", z3.And(h.lo <= FROM(s, e), FROM(s, e) <= TO(s, e), TO(s, e) <= h.hi))]


def the_history(c):
    return [("the-history", z3.BoolVal(c.argv[0].same(main(c).argv[HISTORY])))]


def new_trader_ens(c):
    return [("", z3.And(z3.Not(c.res.f["null"]), c.res.f["ext"] == trader_id(c, G(c, "created") + 1)))]


def trader_id(c, n):
    return z3.Function("TRADER", I, ObjSort)(n)


def new_trader_effect(c):
    setG(c, "created", G(c, "created") + 1)
    setG(c, "fresh", z3.BoolVal(True))


def same_ptr(c, i, j):
    a, b = c.a(i), main(c).a(j)
    if b.loc is None or not isinstance(a, Ptr):
        raise AnnotationMismatch("pointer argument")
    if a.loc is None or not a.loc.same(b.loc):
        return z3.And(a.null, b.null)
    return a.null == b.null


def exec_req(c):
    m = main(c)
    b, e = c.a(1), c.a(2)
    t = c.a(5)
    if not (isinstance(t, Rec) and "ext" in t.f):
        raise AnnotationMismatch("trader")
    return [("account-configuration", c.V.eq(c.a(0), m.a(CFG))),
            ("ticks-of-the-history", z3.BoolVal(b.loc.same(m.argv[HISTORY]) and e.loc.same(m.argv[HISTORY]))),
            ("non-empty-range", b.idx < e.idx),
            ("side-input", same_ptr(c, 3, SIDE)), ("fast-eval", c.a(4) == ev(c, "fast_eval")), ("logger", same_ptr(c, 6, LOGGER)),
            ("fresh-trader", z3.And(G(c, "fresh"), t.f["ext"] == trader_id(c, G(c, "created")), z3.Not(t.f["null"])))]


def result_of(c, r, b, e):
    """r is the result of executing a fresh trader over [b, e)"""
    return z3.And(*[x == z3.Function("EXEC" + p, I, I, x.sort())(b, e) for p, x in c.V.leaves(r)])


def exec_ens(c):
    return [("", result_of(c, c.res, c.a(1).idx, c.a(2).idx))]


def exec_effect(c):
    setG(c, "fresh", z3.BoolVal(False))


CALLEES = [Contract("AddMonthsToTimestampSec", None, add_months, lambda c: []),
           Contract("HistorySubset", the_history, subset_ens, lambda c: [], result=subset_result, nparams=3),
           Contract("TraderEmitter::NewTrader", None, new_trader_ens, lambda c: [], effect=new_trader_effect),
           Contract("TraderEmitter::GetName", None, None, lambda c: []),
           Contract("ExecuteTrader", exec_req, exec_ens, lambda c: [c.argv[5]], effect=exec_effect),
           Contract("GetAverage", None, None, lambda c: []), Contract("GetGeometricAverage", None, None, lambda c: [])]


# ---- periods
def is_period(c, p, s, e):
    r = p.f["result"]
    return z3.And(p.f["start_timestamp_sec"] == s, p.f["end_timestamp_sec"] == e, result_of(c, r, FROM(s, e), TO(s, e)),
                  p.f["final_gain"] * r.f["start_value"] == r.f["end_value"],
                  p.f["base_final_gain"] * r.f["start_price"] == r.f["end_price"])


def periods_of(r):
    p = r.f["period"]
    if not isinstance(p, Seq):
        raise AnnotationMismatch("periods")
    return p


def covered(c, ps, k):
    """the periods before period k that contain ticks were evaluated"""
    return z3.And(ps.lo == 0, size(ps) == NP(k), forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < k, ticks_in(START(j), FIN(j))), z3.And(
        0 <= NP(j), NP(j) < size(ps), is_period(c, c.V.sel(ps.data, NP(j)), START(j), FIN(j)))), patterns=lambda j: [FIN(j)]))


def enter(L):
    L.ghost["start"] = L.cursor()


def period(L):
    """number of the period: how often the loop has advanced"""
    return L.cursor() - L.ghost["start"]


def inv(L):
    c = L.fc
    k = period(L)
    ps = periods_of(L.ex.read(result_loc(L)))
    e0 = ev(c, "end_timestamp_sec")
    return [("offset", z3.And(k >= 0, G(c, "k") == k)),
            ("inside-the-interval", z3.Implies(months(c) > 0, forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < k), FIN(j) <= e0), patterns=lambda j: [FIN(j)]))),
            ("periods", z3.If(months(c) > 0, covered(c, ps, k), z3.And(k == 0, ps.lo == 0, size(ps) == 0)))]


def result_loc(L):
    return L.loc("eval_result", lambda v: isinstance(v, Rec) and "period" in v.f)


def step(L):
    setG(L.fc, "k", G(L.fc, "k") + 1)


def head(L):
    k = period(L)
    return [FIN(k) == FIN(k), START(k) == START(k), NP(k + 1) == NP(k) + z3.If(ticks_in(START(k), FIN(k)), 1, 0), START(k) == ADDM(ev(L.fc, "start_timestamp_sec"), k),
            FIN(k) == ADDM(START(k), months(L.fc))]


def measure(L):
    return z3.If(months(L.fc) > 0, ev(L.fc, "end_timestamp_sec") - FIN(period(L)), 0)


def ensures(c):
    r = c.res
    ps = periods_of(r)
    k = G(c, "k")
    e0, s0 = ev(c, "end_timestamp_sec"), ev(c, "start_timestamp_sec")
    return [("all-full-periods", z3.Implies(months(c) > 0, z3.And(k >= 0, forall(1, lambda j: z3.Implies(j >= 0, (j < k) == (FIN(j) <= e0)), patterns=lambda j: [FIN(j)])))),
            ("one-result-per-period", z3.Implies(months(c) > 0, covered(c, ps, k))),
            ("whole-interval", z3.Implies(months(c) <= 0, z3.And(size(ps) == z3.If(ticks_in(s0, e0), 1, 0), z3.Implies(
                ticks_in(s0, e0), is_period(c, c.V.sel(ps.data, ps.lo), s0, e0))))),
            ("configurations", z3.And(c.V.eq(r.f["account_config"], c.a(CFG)), c.V.eq(r.f["eval_config"], c.a(EVAL))))]


C = Contract("EvaluateTrader", None, ensures, None, ghost_entry=entry,
             loops=[LoopSpec("periods", inv, enter=enter, step=step, ghosts=lambda L: [L.fc.ghost["k"]], head=head, measure=measure)])


def tasks(P):
    return [Task("EvaluateTrader", "EvaluateTrader", C, CALLEES, asserts="assume")]
