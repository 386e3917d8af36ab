"""T02: the stop trader always emits one valid trailing stop order for its holdings."""
from specs.trader_common import *

UNITS = [("traders/stop_trader.cc", ("trader::",))]
ASSUMES = ["real arithmetic: single-precision operations are treated as exact; exp and log are uninterpreted functions (exp positive)",
           "margins and rates lie in (0, 1); the preconditions asserted by the code hold (increasing timestamps, positive close, non-empty portfolio); "
           "timestamps are below 2^62"]
REPLAY = ("traders_oracle.cc", ["T02"], "traders")
NONE, LONG, CASH = 0, 1, 2
GAP, DAY = 3600, 86400


def cfg(o, n):
    return fld(fld(o, "trader_config_"), n)


def inv(o):
    m, s = fld(o, "mode_"), fld(o, "stop_order_price_")
    return [("mode", z3.And(m >= NONE, m <= CASH)), ("gap", fld(o, "max_allowed_gap_sec_") == GAP), ("stop-price-positive", z3.Or(m == NONE, s > 0)),
            ("last-time", z3.And(fld(o, "last_timestamp_sec_") >= 0, fld(o, "last_timestamp_sec_") < 2 ** 62))]


def config_req(c):
    m, mv, up, dn = (cfg(c.this, "stop_order_" + n) for n in ("margin", "move_margin", "increase_per_day", "decrease_per_day"))
    return [("configuration", z3.And(*[z3.And(v > 0, v < 1) for v in (m, mv, up, dn)]))]


def req(c):
    return update_req(c) + config_req(c) + inv(c.this) + [("time-range", c.a(TICK).f["timestamp_sec"] < 2 ** 62)]


def trailed(c, mode, ts, p, s, s1):
    """the stop price follows the close: s before, s1 after"""
    mv, up, dn = (cfg(c.this, "stop_order_" + n) for n in ("move_margin", "increase_per_day", "decrease_per_day"))
    dt = z3.ToReal(ts - c.this.f["last_timestamp_sec_"])
    days = z3.If(dt < DAY, dt, z3.RealVal(DAY)) / DAY
    hi, lo = (1 - mv) * p, (1 + mv) * p
    grow, fall = AR.EXP(AR.LOG(1 + up) * days), AR.EXP(AR.LOG(1 - dn) * days)
    l, k = mode == LONG, mode == CASH
    return [("long-never-down", z3.Implies(l, s1 >= s)),
            ("long-only-beyond-the-margin", z3.Implies(z3.And(l, s > hi), s1 == s)),
            ("long-never-past-the-margin", z3.Implies(z3.And(l, s <= hi), s1 <= hi)),
            ("long-rate", z3.Implies(l, z3.Or(s1 == s, s1 <= grow * s))),
            ("long-as-far-as-allowed", z3.Implies(z3.And(l, s <= hi), z3.Or(s1 == hi, s1 >= grow * s))),
            ("cash-never-up", z3.Implies(k, s1 <= s)),
            ("cash-only-beyond-the-margin", z3.Implies(z3.And(k, s < lo), s1 == s)),
            ("cash-never-past-the-margin", z3.Implies(z3.And(k, s >= lo), s1 >= lo)),
            ("cash-rate", z3.Implies(k, z3.Or(s1 == s, s1 >= fall * s))),
            ("cash-as-far-as-allowed", z3.Implies(z3.And(k, s >= lo), z3.Or(s1 == lo, s1 <= fall * s))),
            ("positive", s1 > 0)]


def post(c):
    t, b, q = c.a(TICK), c.a(BASE), c.a(QUOTE)
    p, ts = t.f["close"], t.f["timestamp_sec"]
    o, o1 = c.this, c.this1
    mode = z3.If(b * p >= q, z3.IntVal(LONG), z3.IntVal(CASH))
    fresh = z3.Or(ts >= o.f["last_timestamp_sec_"] + GAP, mode != o.f["mode_"])
    s, s1 = o.f["stop_order_price_"], o1.f["stop_order_price_"]
    m = cfg(o, "stop_order_margin")
    out = orders_kept(c) + inv(o1)
    od = c.V.sel(c.a1(ORDERS).data, c.a(ORDERS).hi)
    out += [("exactly-one-order", emitted(c) == 1),
            ("stop-order", z3.And(od.f["has_type"], od.f["type"] == STOP_T, od.f["has_side"], od.f["has_price"])),
            ("order-price", od.f["price"] == s1),
            ("sells-the-base-balance", z3.Implies(mode == LONG, z3.And(od.f["side"] == SELL, od.f["oneof_amount_case"] == BASE_AMOUNT, od.f["base_amount"] == b))),
            ("buys-with-the-quote-balance", z3.Implies(mode == CASH, z3.And(od.f["side"] == BUY, od.f["oneof_amount_case"] == QUOTE_AMOUNT, od.f["quote_amount"] == q))),
            ("amount-positive", z3.If(mode == LONG, b > 0, q > 0)),
            ("mode", o1.f["mode_"] == mode),
            ("time", o1.f["last_timestamp_sec_"] == ts),
            ("configuration-kept", c.V.eq(fld(o1, "trader_config_"), fld(o, "trader_config_"))),
            ("reset-long", z3.Implies(z3.And(fresh, mode == LONG), s1 == (1 - m) * p)),
            ("reset-cash", z3.Implies(z3.And(fresh, mode == CASH), s1 == (1 + m) * p))]
    return out + [(n, z3.Implies(z3.Not(fresh), g)) for n, g in trailed(c, mode, ts, p, s, s1)]


UPDATE = Contract("StopTrader::Update", req, post)
CTOR = Contract("StopTrader::StopTrader", None, lambda c: inv(c.this1) + [("no-mode", c.this1.f["mode_"] == NONE),
                                                                         ("configuration", c.V.eq(fld(c.this1, "trader_config_"), c.a(0)))])


def tasks(P):
    return [Task("Update", "StopTrader::Update", UPDATE, mode="real"),
            Task("StopTrader", "StopTrader::StopTrader", CTOR, nparams=1, mode="real")]
