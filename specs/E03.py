"""E03: execution results report exactly what happened.

The ghost account and the ghost count of successful executions are what the result must report.  The volatility indicators are
abstracted to their update histories: VUPD(h, tick, base, quote) extends a history, VINIT(window, period) starts one."""
from specs.eval_common import *

ASSUMES = ["fewer than 2^31 orders are executed in one run", "prices, balances and volatilities are exact (real numbers)"]
REPLAY = ("eval_oracle.cc", ["E03"], "eval")
VINIT = z3.Function("VINIT", I, I, I)
VUPD = z3.Function("VUPD", I, *([I] + [R] * 5 + [R, R]), I)
VOLATILITY = z3.Function("VOLATILITY", I, R)
DAY = 24 * 60 * 60


def vupd(h, t, base, quote):
    return VUPD(h, t.f["timestamp_sec"], *[t.f[k] for k in ("open", "high", "low", "close", "volume")], base, quote)


VOLS = [Contract("Volatility::Volatility", None, lambda c: [("", c.this1.f["$h"] == VINIT(c.a(0), c.a(1)))], nparams=2),
        Contract("Volatility::Update", None, lambda c: [("", c.this1.f["$h"] == vupd(c.this.f["$h"], c.a(0), c.a(1), c.a(2)))], nparams=3),
        Contract("Volatility::GetVolatility", None, lambda c: [("", z3.And(c.res == VOLATILITY(c.this.f["$h"]), c.res >= 0))], lambda c: [])]


def entry3(c):
    entry(c)
    new_ghost(c, "bvol", VINIT(0, DAY))
    new_ghost(c, "tvol", VINIT(0, DAY))


def update_effect3(c):
    t, acc = cur_tick(c), G(c, "acc")
    setG(c, "bvol", vupd(G(c, "bvol"), t, z3.RealVal(1), z3.RealVal(0)))
    setG(c, "tvol", vupd(G(c, "tvol"), t, acc.f["base_balance"], acc.f["quote_balance"]))


def is_vol(v):
    return isinstance(v, Rec) and "$h" in v.f


def count_of(L):
    """the integer that counts the executed orders (of all ticks, or in a helper those of one tick)"""
    names = L.ex.fr.names
    if "total_executed_orders" in names and names["total_executed_orders"][0].root in L.modroots():
        return names["total_executed_orders"][0]
    ls = [l for l in L.counters() if not L.tested(l)]
    if len(ls) > 1:
        ls = [l for l in ls if z3.simplify(L.old(l)).eq(z3.IntVal(0))]
    if len(ls) != 1:
        raise AnnotationMismatch("count of executed orders: %d candidates" % len(ls))
    return ls[0]


def counted(L):
    """what was counted since the loop was entered"""
    l, g = count_of(L), L.fc.ghost["count"]
    return L.ex.read(l) - L.old(l) == G(L.fc, "count") - L.old(g)


def inv(L):
    c = L.fc
    slow = z3.Not(c.a(FAST))
    return [("account", L.V.eq(account_of(L), G(c, "acc"))), ("executed-orders", L.ex.read(count_of(L)) == G(c, "count")), in_range(c),
            ("base-volatility", z3.Implies(slow, L.val("base_volatility", is_vol).f["$h"] == G(c, "bvol"))),
            ("trader-volatility", z3.Implies(slow, L.val("trader_volatility", is_vol).f["$h"] == G(c, "tvol")))]


def orders_inv(L, j):
    c = L.fc
    return [("account", L.V.eq(account_of(L), G(c, "acc"))), ("executed-orders", counted(L)), in_range(c)]


def ensures(c):
    s, b, e = history(c)
    r, cfg, acc = c.res, c.a(CFG), G(c, "acc")
    ne = b < e
    A = lambda nm, g: (nm, z3.Implies(ne, g))
    first, last = rec(s, b, "close"), rec(s, e - 1, "close")
    out = [("empty-history", z3.Implies(b == e, c.V.eq(r, c.V.default(c.ex.tt.parse("trader::ExecutionResult"))))),
           A("start-balances", z3.And(r.f["start_base_balance"] == cfg.f["start_base_balance"], r.f["start_quote_balance"] == cfg.f["start_quote_balance"])),
           A("end-balances", z3.And(r.f["end_base_balance"] == acc.f["base_balance"], r.f["end_quote_balance"] == acc.f["quote_balance"])),
           A("prices", z3.And(r.f["start_price"] == first, r.f["end_price"] == last)),
           A("start-value", r.f["start_value"] == cfg.f["start_quote_balance"] + first * cfg.f["start_base_balance"]),
           A("end-value", r.f["end_value"] == acc.f["quote_balance"] + last * acc.f["base_balance"]),
           A("executed-orders", r.f["total_executed_orders"] == G(c, "count")),
           A("fee", r.f["total_fee"] == acc.f["total_fee"])]
    for nm, h in (("base_volatility", "bvol"), ("trader_volatility", "tvol")):
        v = r.f[nm]
        out.append((nm + "-annualised", z3.Implies(z3.And(ne, z3.Not(c.a(FAST))), z3.And(
            v * v == 365 * VOLATILITY(G(c, h)) * VOLATILITY(G(c, h)), v >= 0))))
        out.append((nm + "-skipped", z3.Implies(c.a(FAST), v == 0)))
    return out


def exec_effect3(c):
    c.ex.assume(G(c, "count") <= 2 ** 31 - 1)        # fewer than 2^31 executed orders


def in_range(c):
    return ("count-range", z3.And(0 <= G(c, "count"), G(c, "count") <= 2 ** 31 - 1))


EVENTS = events(UPDATE={"effect": update_effect3}, EXEC={"effect": exec_effect3})
C = Contract("ExecuteTrader", None, lambda c: all_visited(c) + ensures(c), None, ghost_entry=entry3, loops=[tick_loop(inv), order_loop(orders_inv)])


def tasks(P):
    return [Task("ExecuteTrader", "ExecuteTrader", C, EVENTS + VOLS + SIDE_CALLS, setup=setup)]
