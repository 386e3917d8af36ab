"""Shared vocabulary of the trader properties."""
from specs.ind_common import *
from specs.account_common import order_ok, MARKET_T, STOP_T, LIMIT_T, BUY, SELL, BASE_AMOUNT, QUOTE_AMOUNT

TICK, SIGNALS, BASE, QUOTE, ORDERS = range(5)


def order(c, k):
    """the k-th newly emitted order"""
    s = c.a1(ORDERS)
    if not isinstance(s, Seq):
        raise AnnotationMismatch("orders")
    return AR_order(c, s, c.a(ORDERS).hi + k)


def AR_order(c, s, i):
    return c.V.select(s, i) if hasattr(c.V, "select") else c.V.sel(s.data, i)


def emitted(c):
    return c.a1(ORDERS).hi - c.a(ORDERS).hi


def orders_kept(c):
    s, s1 = c.a(ORDERS), c.a1(ORDERS)
    return [("earlier-orders-kept", z3.And(s.lo == s1.lo, forall(1, lambda i: z3.Implies(z3.And(s.lo <= i, i < s.hi), c.V.eq(c.V.sel(s1.data, i), c.V.sel(s.data, i))))))]


def update_req(c):
    t = c.a(TICK)
    return [("time-moves-forward", t.f["timestamp_sec"] > c.this.f["last_timestamp_sec_"]), ("price-positive", t.f["close"] > 0),
            ("balances", z3.And(c.a(BASE) >= 0, c.a(QUOTE) >= 0, z3.Or(c.a(BASE) > 0, c.a(QUOTE) > 0)))]
