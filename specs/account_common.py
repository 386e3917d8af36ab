"""Shared vocabulary for the Account properties (A01..A08)."""
import z3
from engine.contracts import *
from engine.task import Task
from engine.types import *
from engine import arith as AR

UNITS = [("base/account.cc", ("trader::",))]

OPS_AT_PRICE = ["BuyBase", "BuyAtQuote", "SellBase", "SellAtQuote"]
MARKET = ["MarketBuy", "MarketBuyAtQuote", "MarketSell", "MarketSellAtQuote"]
STOP = ["StopBuy", "StopBuyAtQuote", "StopSell", "StopSellAtQuote"]
LIMIT = ["LimitBuy", "LimitBuyAtQuote", "LimitSell", "LimitSellAtQuote"]
FIELDS = ["base_balance", "quote_balance", "total_fee"]
PARAMS = ["base_unit", "quote_unit", "market_liquidity", "max_volume_ratio"]


def acc(v, n):
    if n not in v.f:
        raise AnnotationMismatch("Account::%s" % n)
    return v.f[n]


def inv(v):
    return [("%s-nonnegative" % f, acc(v, f) >= 0) for f in FIELDS]


def params_ok(v):
    return [("units", z3.And(acc(v, "base_unit") >= 0, acc(v, "quote_unit") >= 0)),
            ("liquidity", z3.And(acc(v, "market_liquidity") >= 0, acc(v, "market_liquidity") <= 1)),
            ("volume-ratio", acc(v, "max_volume_ratio") >= 0)]


def fee_ok(f):
    return [("fee-config-nonnegative", z3.And(f.f["relative_fee"] >= 0, f.f["fixed_fee"] >= 0, f.f["minimum_fee"] >= 0))]


def tick_ok(t):
    o, h, l, c = (t.f[k] for k in ("open", "high", "low", "close"))
    return [("valid-tick", z3.And(l > 0, l <= o, l <= c, o <= h, c <= h, t.f["volume"] >= 0))]


MARKET_T, STOP_T, LIMIT_T = 0, 1, 2
BUY, SELL = 0, 1
BASE_AMOUNT, QUOTE_AMOUNT = 3, 4


def order_ok(o):
    ty, sd, cs = o.f["type"], o.f["side"], o.f["oneof_amount_case"]
    return [("valid-order", z3.And(
        o.f["has_type"], o.f["has_side"],
        z3.Or(ty == MARKET_T, z3.And(o.f["has_price"], o.f["price"] > 0)),
        z3.Or(z3.And(cs == BASE_AMOUNT, o.f["base_amount"] > 0), z3.And(cs == QUOTE_AMOUNT, o.f["quote_amount"] > 0))))]


def fees_of(cfg):
    return [cfg.f[k] for k in ("market_order_fee_config", "stop_order_fee_config", "limit_order_fee_config")]


def same_params(c):
    return z3.And(*[acc(c.this1, p) == acc(c.this, p) for p in PARAMS])


def bal_mods(c):
    return [c.this_loc.sub(f) for f in FIELDS]
