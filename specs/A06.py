"""A06: limit orders fill at most the allowed fraction of the traded volume; others are not volume-limited."""
from specs.account_common import *
from specs.A05 import target

ASSUMES = ["single-precision rounding is an arbitrary monotone function fixing representable values; no overflow or NaN",
           "requested amounts do not exceed the largest float",
           "the assertions in the code hold (their failure ends the program)"]
REPLAY = ("account_oracle.cc", ["A06"], "account")

FLT_MAX = AR.rv(AR.FLT_MAX)
OPC = {n: Contract("Account::" + n, None, None, bal_mods, traced=True) for n in OPS_AT_PRICE}


def grid_floor(x, u):
    """the spec's rounding down to a currency unit, with the rounding of each machine operation"""
    d = AR.fop("rnd", "/", x, u)
    return z3.If(u > 0, AR.fop("rnd", "*", u, AR.ffloor(d)), x)


def max_amount(c):
    a = c.this
    r = acc(a, "max_volume_ratio")
    v = AR.fop("rnd", "*", r, c.a(1).f["volume"])
    return r, grid_floor(v, acc(a, "base_unit"))


def limit_post(n):
    def f(c):
        tr = c.ex.trace
        if not tr:
            return [("rejected", z3.And(z3.Not(c.res), c.V.eq(c.this1, c.this)))]
        if len(tr) > 1:
            return [("one-operation", z3.BoolVal(False))]
        k = tr[0]
        r, mx = max_amount(c)
        out = [("operation", z3.BoolVal(k.f.qname == "Account::" + target(n)))]
        if n.endswith("AtQuote"):
            out.append(("requested", k.a(1) == c.a(2)))
            out.append(("volume-cap", z3.Implies(r > 0, k.a(3) == mx)))
            out.append(("no-cap-without-ratio", z3.Implies(r <= 0, k.a(3) == FLT_MAX)))
        else:
            out.append(("fill", k.a(1) == z3.If(z3.And(r > 0, mx < c.a(2)), mx, c.a(2))))
        out.append(("outcome", z3.And(c.res == k.res, k.V.eq(k.this, c.this), k.V.eq(c.this1, k.this1))))
        return out
    return f


def free_post(n):
    def f(c):
        tr = c.ex.trace
        if not tr:
            return []
        if len(tr) > 1:
            return [("one-operation", z3.BoolVal(False))]
        k = tr[0]
        out = [("amount-unlimited", k.a(1) == c.a(2))]
        if n.endswith("AtQuote"):
            out.append(("no-volume-cap", k.a(3) == FLT_MAX))
        return out
    return f


def req(n):
    def f(c):
        return [("amount-range", c.a(2) <= FLT_MAX)]
    return f


def atq_post(c):
    """BuyAtQuote/SellAtQuote trade at most max_base_amount (rounded to the base unit by BuyBase/SellBase)."""
    tr = c.ex.trace
    if not tr:
        return [("rejected", z3.And(z3.Not(c.res), c.V.eq(c.this1, c.this)))]
    if len(tr) > 1:
        return [("one-operation", z3.BoolVal(False))]
    k = tr[0]
    u = acc(c.this, "base_unit")
    cap = c.a(3)
    return [("at-most-max-base-amount", k.a(1) <= z3.If(u > 0, grid_floor(cap, u), cap)),
            ("outcome", z3.And(c.res == k.res, k.V.eq(k.this, c.this), k.V.eq(c.this1, k.this1)))]


def traded_post(sign):
    def f(c):
        """what is traded is the requested amount rounded to the base unit"""
        u = acc(c.this, "base_unit")
        d = AR.fop("rnd", "/", c.a(1), u)
        r = z3.If(u > 0, AR.fop("rnd", "*", u, AR.fround(d)), c.a(1))
        b = AR.fop("rnd", "+" if sign > 0 else "-", acc(c.this, "base_balance"), r)
        d2 = AR.fop("rnd", "/", b, u)
        b1 = z3.If(u > 0, AR.fop("rnd", "*", u, AR.fround(d2)), b)
        return [("traded-amount", z3.Implies(c.res, acc(c.this1, "base_balance") == b1)),
                ("rejected", z3.Implies(z3.Not(c.res), acc(c.this1, "base_balance") == acc(c.this, "base_balance")))]
    return f


def tasks(P):
    out = []
    kw = dict(mode="rnd", asserts="assume", skip_kinds=("fdiv", "fdom"))
    for n in LIMIT:
        out.append(Task(n, "Account::" + n, Contract("Account::" + n, req(n), limit_post(n), bal_mods), OPC.values(), **kw))
    for n in MARKET + STOP:
        out.append(Task(n, "Account::" + n, Contract("Account::" + n, req(n), free_post(n), bal_mods), OPC.values(), **kw))
    pos = lambda c: params_ok(c.this)
    for n in ("BuyAtQuote", "SellAtQuote"):
        out.append(Task(n, "Account::" + n, Contract("Account::" + n, pos, atq_post, bal_mods),
                        [OPC["BuyBase"], OPC["SellBase"]], **kw))
    for n, s in (("BuyBase", 1), ("SellBase", -1)):
        out.append(Task(n, "Account::" + n, Contract("Account::" + n, None, traded_post(s), bal_mods), [], **kw))
    return out
