"""A01: account balances never go negative."""
from specs.account_common import *

ASSUMES = ["valid configuration: currency units, fee parameters and volume ratio are non-negative, liquidity in [0,1]",
           "valid ticks: 0 < low <= open, close <= high, volume >= 0",
           "floating point: every operation is a monotone rounding of the exact result; no overflow, NaN or infinity",
           "the assertions in the code hold (their failure ends the program)"]
REPLAY = ("account_oracle.cc", ["A01"], "account")


def post(c):
    return inv(c.this1)


def fee(c):
    return [("fee-nonnegative", c.res >= 0)]


def op_req(c):
    return inv(c.this) + params_ok(c.this) + fee_ok(c.a(0))


def op_tick_req(c):
    return op_req(c) + tick_ok(c.a(1))


def exec_req(c):
    r = inv(c.this) + params_ok(c.this) + order_ok(c.a(1)) + tick_ok(c.a(2))
    for i, f in enumerate(fees_of(c.a(0))):
        r += [("fee%d" % i, fee_ok(f)[0][1])]
    return r


CON = {}
CON["GetFee"] = Contract("Account::GetFee", lambda c: params_ok(c.this) + fee_ok(c.a(0)) + [("amount>=0", c.a(1) >= 0)], fee)
for n in OPS_AT_PRICE:
    CON[n] = Contract("Account::" + n, op_req, post, bal_mods)
for n in MARKET + STOP + LIMIT:
    CON[n] = Contract("Account::" + n, op_tick_req, post, bal_mods)
CON["ExecuteOrder"] = Contract("Account::ExecuteOrder", exec_req, post, bal_mods)
CON["InitAccount"] = Contract("Account::InitAccount", lambda c: [
    ("config", z3.And(c.a(0).f["start_base_balance"] >= 0, c.a(0).f["start_quote_balance"] >= 0))], post)


def tasks(P):
    out = []
    for n, c in CON.items():
        uses = [d for m, d in CON.items() if m != n]
        out.append(Task(n, "Account::" + n, c, uses, mode="rnd", asserts="assume", skip_kinds=("fdiv", "fdom")))
    return out
