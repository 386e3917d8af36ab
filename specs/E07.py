"""E07: batch evaluation equals evaluating each trader on its own, in order.

EvaluateTrader is used through the contract "the result is a function EVAL of the inputs it is given by constant reference and of the
emitter", so the result does not depend on when and where it runs.  Every deferred call must be made with the inputs of the batch, the
emitter at its position and no logger, and what its closure refers to must outlive it."""
from specs.hist_common import *
from specs import E05

F = ("trader::", "(anonymous namespace)::")
UNITS = E05.UNITS + [(p, F) for p in (
    "base/account.cc", "base/side_input.cc", "traders/rebalancing_trader.cc", "traders/stop_trader.cc", "util/time.cc")] + [
    ("indicators/%s.cc" % n, F) for n in ("last_n_ohlc_ticks", "util", "volatility")]
ASSUMES = ["evaluating a trader is a function of its constant inputs and shares no mutable state with other evaluations (no static or global "
           "variables are written: checked by NoSharedState)", "std::async runs the closure to completion exactly once and the future delivers its result"]
REPLAY = ("eval_oracle.cc", ["E07"], "eval")
CFG, EVAL, HISTORY, SIDE, EMITTERS = range(5)


def main(c):
    return c.ex.task.ctx_of(c.ex)


def emitter_id(c, k):
    s = main(c).a(EMITTERS)
    return c.V.sel(s.data, s.lo + k).f["ext"]


def result_of(c, r, ident):
    return z3.And(*[x == z3.Function("EVAL" + p, ObjSort, x.sort())(ident) for p, x in c.V.leaves(r)])


def same_ptr(c, i, j):
    return E05.same_ptr(c, i, j)


def eval_req(c):
    m = main(c)
    e = c.a(4)
    lg = c.a(5)
    if not isinstance(e, Rec) or "ext" not in e.f:
        raise AnnotationMismatch("emitter")
    return [("account-configuration", c.V.eq(c.a(0), m.a(CFG))), ("evaluation-configuration", c.V.eq(c.a(1), m.a(EVAL))),
            ("history", z3.BoolVal(c.argv[2].same(m.argv[HISTORY]))), ("side-input", same_ptr(c, 3, SIDE)), ("no-logger", lg.null),
            ("emitter", z3.Not(e.f["null"]))]


def eval_ens(c):
    return [("", result_of(c, c.res, c.a(4).f["ext"]))]


EVALUATE = Contract("EvaluateTrader", eval_req, eval_ens, lambda c: [])


def requires(c):
    s = c.a(EMITTERS)
    return [("emitters", z3.And(s.lo == 0, s.hi >= 0, forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < s.hi), z3.Not(c.V.sel(s.data, k).f["null"])))))]


def results_so_far(c, s, k, get):
    return [("count", z3.And(s.lo == 0, s.hi == k)), ("results", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < k), result_of(c, get(c.V.sel(s.data, j)), emitter_id(c, j)))))]


def futures(L):
    return L.val("eval_result_futures", lambda v: isinstance(v, Seq) and v.et.k == "future")


def results(L):
    return L.val("eval_results", lambda v: isinstance(v, Seq) and isinstance(v.data, Rec) and "score" in v.data.f)


def start_inv(L):
    c = L.fc
    k = L.cursor(c.argv[EMITTERS])
    return [("position", z3.And(0 <= k, k <= size(c.a(EMITTERS))))] + results_so_far(c, futures(L), k, lambda f: f.f["v"])


def collect_inv(L):
    c = L.fc
    f = futures(L)
    k = L.cursor()
    n = size(c.a(EMITTERS))
    return [("position", z3.And(0 <= k, k <= n))] + results_so_far(c, results(L), k, lambda r: r)


def starts(L):
    return any(isinstance(L.ex.store.get(r), Seq) and L.ex.store[r].et.k == "future" and p.endswith("hi") for r, p in L.mods)


def ensures(c):
    n = size(c.a(EMITTERS))
    return results_so_far(c, c.res, n, lambda r: r)


C = Contract("EvaluateBatchOfTraders", requires, ensures, None,
             loops=[LoopSpec("start", start_inv, applies=starts), LoopSpec("collect", collect_inv, applies=lambda L: not starts(L))])


def immutable(t):
    t = t.strip()
    return t.startswith("const ") and "*" not in t or t.endswith("const") or "*const" in t.replace(" ", "") or "mutex" in t or "once_flag" in t


def no_shared_state(task, ex):
    """frame condition of an evaluation: none of the code it runs has mutable static storage"""
    found = []

    def walk(n, inside):
        if n.get("kind") == "VarDecl":
            t = n.get("type", {}).get("qualType", "")
            if n.get("storageClass") != "extern" and (not inside or n.get("storageClass") == "static") and not n.get("constexpr") and not immutable(t):
                found.append(n.get("name"))
        for x in n.get("inner", []):
            walk(x, inside)
    for tu in ex.P.tus:
        for v in tu.vars.values():
            walk(v, False)
        for k in tu.classes.values():
            for v in k.node.get("inner", []):
                if v.get("kind") == "VarDecl":
                    walk(v, False)
        for f in tu.funcs:
            if f.body is not None:
                walk(f.body, True)
    for v in sorted(set(found)) or ["none"]:
        ex.oblige("evaluation/no-mutable-static-storage:%s" % v, z3.BoolVal(v == "none"), None, "post")
    ex.pc = []


def tasks(P):
    return [Task("EvaluateBatchOfTraders", "EvaluateBatchOfTraders", C, [EVALUATE]), Task("NoSharedState", None, None, runner=no_shared_state)]
