"""A07: ExecuteOrder dispatches on type, side and amount kind."""
from specs.account_common import *

ASSUMES = ["the order is valid (asserted by the code)"]
REPLAY = ("account_oracle.cc", ["A07"], "account")

OPC = [Contract("Account::" + n, None, None, bal_mods, traced=True) for n in MARKET + STOP + LIMIT]
NAMES = {MARKET_T: MARKET, STOP_T: STOP, LIMIT_T: LIMIT}


def post(c):
    tr = c.ex.trace
    if len(tr) != 1:
        return [("exactly-one-operation", z3.BoolVal(False))]
    k = tr[0]
    o, cfg = c.a(1), c.a(0)
    n = k.f.qname.split("::")[-1]
    ok = None
    for t, ops in NAMES.items():
        if n in ops:
            i = ops.index(n)
            ok = z3.And(o.f["type"] == t, o.f["side"] == (BUY if i < 2 else SELL),
                        o.f["oneof_amount_case"] == (QUOTE_AMOUNT if i % 2 else BASE_AMOUNT))
            amt = o.f["quote_amount"] if i % 2 else o.f["base_amount"]
            fee = fees_of(cfg)[t]
            out = [("operation-matches-order", ok), ("amount", k.a(2) == amt), ("fee-config", k.V.eq(k.a(0), fee)),
                   ("tick", k.V.eq(k.a(1), c.a(2)))]
            if t != MARKET_T:
                out.append(("price", k.a(3) == o.f["price"]))
            out.append(("outcome", c.res == k.res))
            out.append(("effect", z3.And(k.V.eq(k.this, c.this), k.V.eq(c.this1, k.this1))))
            return out
    return [("known-operation", z3.BoolVal(False))]


def tasks(P):
    return [Task("ExecuteOrder", "Account::ExecuteOrder",
                 Contract("Account::ExecuteOrder", lambda c: order_ok(c.a(1)), post, bal_mods), OPC, mode="rnd",
                 asserts="check")]
