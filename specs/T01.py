"""T01: the rebalancing trader restores its target allocation within its means."""
from specs.trader_common import *

UNITS = [("traders/rebalancing_trader.cc", ("trader::",))]
ASSUMES = ["real arithmetic: single-precision operations are treated as exact",
           "alpha and epsilon lie in (0, 1); the preconditions asserted by the code hold (increasing timestamps, positive close, non-empty portfolio)"]
REPLAY = ("traders_oracle.cc", ["T01"], "traders")


def config(o):
    f = fld(o, "trader_config_").f
    return f["alpha"], f["epsilon"]


def req(c):
    a, e = config(c.this)
    return update_req(c) + [("configuration", z3.And(a > 0, a < 1, e > 0, e < 1))]


def post(c):
    a, e = config(c.this)
    p, b, q = c.a(TICK).f["close"], c.a(BASE), c.a(QUOTE)
    value = b * p + q
    up, down = a * (1 + e), a * (1 - e)
    above, below = b * p > up * value, b * p < down * value
    inside = z3.Not(z3.Or(above, below))
    n = emitted(c)
    out = orders_kept(c)
    o = c.V.sel(c.a1(ORDERS).data, c.a(ORDERS).hi)
    x = o.f["base_amount"]
    kind = lambda o, t, s: z3.And(o.f["has_type"], o.f["has_side"], o.f["type"] == t, o.f["side"] == s, o.f["oneof_amount_case"] == BASE_AMOUNT)
    out += [("one-order-outside-the-band", z3.Implies(z3.Or(above, below), n == 1)),
            ("sells-above-the-band", z3.Implies(above, kind(o, MARKET_T, SELL))),
            ("buys-below-the-band", z3.Implies(below, kind(o, MARKET_T, BUY))),
            ("sell-amount", z3.Implies(above, z3.And(x > 0, x <= b))),
            ("buy-amount", z3.Implies(below, z3.And(x > 0, x * p <= q))),
            ("sell-restores-alpha", z3.Implies(above, (b - x) * p == a * value)),
            ("buy-restores-alpha", z3.Implies(below, (b + x) * p == a * value)),
            ("at-most-two-inside", z3.Implies(inside, z3.And(n >= 0, n <= 2)))]
    o2 = c.V.sel(c.a1(ORDERS).data, c.a(ORDERS).hi + 1)
    out.append(("one-per-side", z3.Implies(z3.And(inside, n == 2), o.f["side"] != o2.f["side"])))
    for k, o in (("first", o), ("second", o2)):
        g = z3.And(inside, n > (0 if k == "first" else 1))
        x, P = o.f["base_amount"], o.f["price"]
        sell = o.f["side"] == SELL
        out += [(k + "-is-limit", z3.Implies(g, z3.And(z3.Or(kind(o, LIMIT_T, SELL), kind(o, LIMIT_T, BUY)), o.f["has_price"], P > 0, x > 0))),
                (k + "-sells-above-close", z3.Implies(z3.And(g, sell), P > p)),
                (k + "-buys-below-close", z3.Implies(z3.And(g, z3.Not(sell)), P < p)),
                (k + "-sell-at-upper-edge", z3.Implies(z3.And(g, sell), b * P == up * (b * P + q))),
                (k + "-buy-at-lower-edge", z3.Implies(z3.And(g, z3.Not(sell)), b * P == down * (b * P + q))),
                (k + "-sell-within-holdings", z3.Implies(z3.And(g, sell), x <= b)),
                (k + "-buy-within-holdings", z3.Implies(z3.And(g, z3.Not(sell)), x * P <= q)),
                # at the edge of the band: (b - x) P = alpha (b P + q), respectively (b + x) P = alpha (b P + q); see at_the_edge
                (k + "-sell-restores-alpha", z3.Implies(z3.And(g, sell), (b - x) * (1 + e) == b)),
                (k + "-buy-restores-alpha", z3.Implies(z3.And(g, z3.Not(sell)), (b + x) * (1 - e) == b))]
    return out


def at_the_edge(task, ex):
    """Lemma: for a limit price at the edge of the band (the ...-edge postconditions), the fill restores the allocation alpha at
    that price exactly if the amount satisfies the equation stated by the ...-restores-alpha postconditions."""
    a, e, b, q, P, x = z3.Reals("alpha epsilon base quote price amount")
    ok = z3.And(a > 0, a < 1, e > 0, e < 1, b > 0, q > 0, P > 0)
    for nm, sg in (("sell", 1), ("buy", -1)):
        edge = b * P == a * (1 + sg * e) * (b * P + q)
        # what is left to prove is linear in the products: b P = alpha (1 +- epsilon) (b P + q)
        amount = (b - sg * x) * (1 + sg * e) == b
        restored = (b - sg * x) * P == a * (b * P + q)
        ex.oblige("%s/%s-amount-restores-alpha" % (ex.cur_name(), nm), z3.Implies(z3.And(ok, edge, amount), restored), None, "lemma")
        ex.oblige("%s/%s-alpha-restored-only-by-amount" % (ex.cur_name(), nm), z3.Implies(z3.And(ok, edge, restored), amount), None, "lemma")


UPDATE = Contract("RebalancingTrader::Update", req, post)


def tasks(P):
    return [Task("Update", "RebalancingTrader::Update", UPDATE, mode="real"), Task("AtTheEdge", None, None, runner=at_the_edge, mode="real")]
