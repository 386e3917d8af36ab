"""A04: orders given as a quote amount never exceed that amount."""
from specs.account_common import *
from specs.grid import *

ASSUMES = ["real arithmetic: single-precision operations are treated as exact",
           "currency units and fee parameters are non-negative",
           "the assertions in the code hold (their failure ends the program)",
           "the bounds are exact for balances on the currency grid and within half a unit otherwise"]
REPLAY = ("account_oracle.cc", ["A04"], "account")


def req(c):
    bu, qu = units(c)
    return [("units", z3.And(bu >= 0, qu >= 0))] + fee_ok(c.a(0))


def fee_post(c):
    return [("fee", c.res == fee_of(c, c.a(0), c.a(1)))]


FEEC = Contract("Account::GetFee", req, fee_post)


def slack(x, u):
    return z3.If(z3.Or(u <= 0, GRID(x, u)), z3.RealVal(0), u / 2)


def base_post(sign):
    def f(c):
        """weak contracts: upper bounds on what is spent, received and traded"""
        bu, qu = units(c)
        r = gr(c.a(1), bu)
        q = gc(r * c.a(2), qu) if sign > 0 else gf(r * c.a(2), qu)
        fee = fee_of(c, c.a(0), q)
        q0, q1 = acc(c.this, "quote_balance"), acc(c.this1, "quote_balance")
        b0, b1 = acc(c.this, "base_balance"), acc(c.this1, "base_balance")
        out = []
        if sign > 0:
            out.append(("spent", z3.Implies(c.res, q0 - q1 <= q + fee + slack(q0, qu))))
            out.append(("bought", z3.Implies(c.res, b1 - b0 <= r + slack(b0, bu))))
        else:
            out.append(("received", z3.Implies(c.res, q1 - q0 <= q - fee + slack(q0, qu))))
            out.append(("sold", z3.Implies(c.res, b0 - b1 <= r + slack(b0, bu))))
        out.append(("rejected", z3.Implies(z3.Not(c.res), z3.And(q0 == q1, b0 == b1))))
        return out
    return f


BUYC = Contract("Account::BuyBase", req, base_post(1), bal_mods, traced=True)
SELLC = Contract("Account::SellBase", req, base_post(-1), bal_mods, traced=True)


def quote_post(sign):
    def f(c):
        bu, qu = units(c)
        q0, q1 = acc(c.this, "quote_balance"), acc(c.this1, "quote_balance")
        b0, b1 = acc(c.this, "base_balance"), acc(c.this1, "base_balance")
        Q = gr(c.a(1), qu)
        cap = gf(c.a(3), bu)
        dq = q0 - q1 if sign > 0 else q1 - q0
        db = b1 - b0 if sign > 0 else b0 - b1
        return [("quote-limit", z3.Implies(c.res, dq <= Q + slack(q0, qu))),
                ("base-limit", z3.Implies(c.res, db <= cap + slack(b0, bu)))]
    return f


def exit_quote(sign):
    def f(c):
        """lemma chain: amt*p <= Q -+ fee(Q); rounding; monotonicity of the fee"""
        ex = c.ex
        if len(ex.trace) != 1:
            return
        bu, qu = units(c)
        k = ex.trace[0]
        amt, p = k.a(1), k.a(2)
        L = c.contract.lemma
        Q = gr(c.a(1), qu)
        F = fee_of(c, c.a(0), Q)
        lim = Q - F if sign > 0 else Q + F
        L(c, "amount", amt <= lim / p)
        L(c, "amount-cap", amt <= gf(c.a(3), bu))
        L(c, "on-grid", gr(amt, bu) == amt)
        L(c, "product", amt * p <= lim)
        if sign > 0:
            q = gc(amt * p, qu)
        else:
            q = gf(amt * p, qu)
        L(c, "exchanged", q <= lim)
        f2 = fee_of(c, c.a(0), q)
        rel = c.a(0).f["relative_fee"]
        if sign > 0:
            L(c, "fee-arg", q * rel <= Q * rel)
            L(c, "fee-monotone", z3.And(F >= 0, f2 <= F))
            L(c, "total", q + f2 <= Q)
        else:
            L(c, "fee-arg", z3.Implies(Q <= q, Q * rel <= q * rel))
            L(c, "fee-monotone", z3.And(f2 >= 0, z3.Implies(Q <= q, F <= f2)))
            L(c, "total", q - f2 <= Q)
    return f


def same_args(c):
    """the fee schedule and the account passed on unchanged"""
    return []


QPLAN = None


def tasks(P):
    kw = dict(mode="grid", asserts="assume", skip_kinds=("fdiv", "fdom"))
    return [lemma_task(),
            Task("GetFee", "Account::GetFee", FEEC, [], **kw),
            Task("BuyBase", "Account::BuyBase", BUYC, [FEEC], **kw),
            Task("SellBase", "Account::SellBase", SELLC, [FEEC], **kw),
            Task("BuyAtQuote", "Account::BuyAtQuote", Contract("Account::BuyAtQuote", req, quote_post(1), bal_mods,
                                                              ghost_exit=exit_quote(1)), [FEEC, BUYC], **kw),
            Task("SellAtQuote", "Account::SellAtQuote", Contract("Account::SellAtQuote", req, quote_post(-1), bal_mods,
                                                                ghost_exit=exit_quote(-1)), [FEEC, SELLC], **kw)]
