"""A02: rejected orders have no effect; executed orders touch balances and fee only; InitAccount."""
from specs.account_common import *

ASSUMES = ["the assertions in the code hold (their failure ends the program)",
           "the order, tick and configuration objects do not alias the account"]
REPLAY = ("account_oracle.cc", ["A02"], "account")


def post(c):
    return [("rejected-unchanged", z3.Implies(z3.Not(c.res), c.V.eq(c.this1, c.this)))]


def init_post(c):
    a, k = c.this1, c.a(0).f
    return [("base", acc(a, "base_balance") == k["start_base_balance"]),
            ("quote", acc(a, "quote_balance") == k["start_quote_balance"]),
            ("fee", acc(a, "total_fee") == 0),
            ("base-unit", acc(a, "base_unit") == k["base_unit"]),
            ("quote-unit", acc(a, "quote_unit") == k["quote_unit"]),
            ("liquidity", acc(a, "market_liquidity") == k["market_liquidity"]),
            ("volume-ratio", acc(a, "max_volume_ratio") == k["max_volume_ratio"])]


OPS = OPS_AT_PRICE + MARKET + STOP + LIMIT + ["ExecuteOrder"]
CON = {n: Contract("Account::" + n, None, post, bal_mods) for n in OPS}
CON["InitAccount"] = Contract("Account::InitAccount", None, init_post)


def tasks(P):
    return [Task(n, "Account::" + n, c, [d for m, d in CON.items() if m != n], mode="rnd", asserts="assume",
                 skip_kinds=("fdiv", "fdom")) for n, c in CON.items()]
