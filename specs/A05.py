"""A05: trigger conditions and execution prices."""
from specs.account_common import *

ASSUMES = ["real arithmetic: single-precision operations are treated as exact",
           "the assertions in the code hold (their failure ends the program)"]
REPLAY = ("account_oracle.cc", ["A05"], "account")

# callees are used through their frame only; every application is recorded in the ghost trace
OPC = [Contract("Account::" + n, None, None, bal_mods, traced=True) for n in OPS_AT_PRICE]


def price_of(n, c):
    a, t = c.this, c.a(1).f
    L = acc(a, "market_liquidity")
    if n.startswith("Market"):
        x = t["high"] if "Buy" in n else t["low"]
        return L * t["open"] + (1 - L) * x
    p = c.a(3)
    if n.startswith("Limit"):
        return p
    if "Buy" in n:
        return L * AR.fmax(p, t["open"]) + (1 - L) * t["high"]
    return L * AR.fmin(p, t["open"]) + (1 - L) * t["low"]


def trigger(n, c):
    t = c.a(1).f
    if n.startswith("Market"):
        return z3.BoolVal(True)
    p = c.a(3)
    up = (n.startswith("Stop") and "Buy" in n) or (n.startswith("Limit") and "Sell" in n)
    return t["high"] >= p if up else t["low"] <= p


def target(n):
    return ("Buy" if "Buy" in n else "Sell") + ("AtQuote" if "AtQuote" in n else "Base")


def post(n):
    def f(c):
        tr = c.ex.trace
        trig = trigger(n, c)
        out = []
        if not tr:
            out.append(("not-executed-only-if-not-triggered-or-rejected", z3.And(z3.Not(c.res), z3.Not(trig))))
            return out
        if len(tr) > 1:
            return [("one-operation", z3.BoolVal(False))]
        k = tr[0]
        out.append(("triggered", trig))
        out.append(("operation", z3.BoolVal(k.f.qname == "Account::" + target(n))))
        out.append(("execution-price", k.a(2) == price_of(n, c)))
        out.append(("outcome", c.res == k.res))
        out.append(("no-other-effect", z3.And(k.V.eq(k.this, c.this), k.V.eq(c.this1, k.this1))))
        return out
    return f


def tasks(P):
    return [Task(n, "Account::" + n, Contract("Account::" + n, None, post(n), bal_mods), OPC, mode="real",
                 asserts="assume") for n in MARKET + STOP + LIMIT]
