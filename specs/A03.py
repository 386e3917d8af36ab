"""A03: exact booking of trades and the fee formula."""
from specs.account_common import *

ASSUMES = ["real arithmetic: single-precision operations are treated as exact",
           "the assertions in the code hold (their failure ends the program)"]
REPLAY = ("account_oracle.cc", ["A03"], "account")


def floor_u(x, u):
    return z3.If(u > 0, u * z3.ToReal(z3.ToInt(x / u)), x)


def ceil_u(x, u):
    return z3.If(u > 0, u * -z3.ToReal(z3.ToInt(-(x / u))), x)


def round_u(x, u):
    return z3.If(u > 0, u * AR.fround(x / u), x)


def fee_of(c, cfg, amount):
    f = cfg.f
    return ceil_u(AR.fmax(f["minimum_fee"], f["fixed_fee"] + f["relative_fee"] * amount), acc(c.this, "quote_unit"))


def fee_post(c):
    return [("fee", c.res == fee_of(c, c.a(0), c.a(1)))]


FEE = Contract("Account::GetFee", None, fee_post)


def book(c, sign):
    a = c.this
    bu, qu = acc(a, "base_unit"), acc(a, "quote_unit")
    r = round_u(c.a(1), bu)
    if sign > 0:
        q = ceil_u(r * c.a(2), qu)
        fee = fee_of(c, c.a(0), q)
        total = q + fee
        ok = z3.And(r >= bu, total <= acc(a, "quote_balance"))
    else:
        q = floor_u(r * c.a(2), qu)
        fee = fee_of(c, c.a(0), q)
        total = q - fee
        ok = z3.And(r >= bu, r <= acc(a, "base_balance"), total >= qu)
    return ok, {"base_balance": round_u(acc(a, "base_balance") + sign * r, bu),
                "quote_balance": round_u(acc(a, "quote_balance") - sign * total, qu),
                "total_fee": round_u(acc(a, "total_fee") + fee, qu)}


def post(sign):
    def f(c):
        ok, new = book(c, sign)
        return [("succeeds-exactly-when", c.res == ok)] + \
               [(k, z3.Implies(c.res, acc(c.this1, k) == v)) for k, v in new.items()]
    return f


BUYC = Contract("Account::BuyBase", None, post(1), bal_mods)
SELLC = Contract("Account::SellBase", None, post(-1), bal_mods)


def tasks(P):
    kw = dict(mode="real", asserts="assume")
    return [Task("GetFee", "Account::GetFee", FEE, [], **kw),
            Task("BuyBase", "Account::BuyBase", BUYC, [FEE], **kw),
            Task("SellBase", "Account::SellBase", SELLC, [FEE], **kw)]
