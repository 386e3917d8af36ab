"""A08: trading never creates value."""
from specs.account_common import *
from specs.grid import *
from specs.A04 import req, FEEC, slack

ASSUMES = ["real arithmetic: single-precision operations are treated as exact",
           "currency units and fee parameters are non-negative",
           "the assertions in the code hold (their failure ends the program)",
           "exact for balances on the currency grid, within half a unit of each rounded balance otherwise"]
REPLAY = ("account_oracle.cc", ["A08"], "account")


def delta(c, f):
    return acc(c.this1, f) - acc(c.this, f)


def gain_bound(c):
    bu, qu = units(c)
    p = c.a(2)
    sl = slack(acc(c.this, "base_balance"), bu) * p + slack(acc(c.this, "quote_balance"), qu)
    return p, sl, slack(acc(c.this, "total_fee"), qu)


def post(c):
    p, sl, sf = gain_bound(c)
    val = delta(c, "quote_balance") + delta(c, "base_balance") * p
    return [("value-never-grows", z3.Implies(c.res, val <= sl)),
            ("value-given-up-covers-fee", z3.Implies(c.res, val <= sl + sf - delta(c, "total_fee"))),
            ("rejected", z3.Implies(z3.Not(c.res), c.V.eq(c.this1, c.this)))]


def exit_base(sign):
    def f(c):
        bu, qu = units(c)
        p = c.a(2)
        r = gr(c.a(1), bu)
        q = gc(r * p, qu) if sign > 0 else gf(r * p, qu)
        fee = fee_of(c, c.a(0), q)
        L = lambda nm, g: c.contract.lemma(c, nm, z3.Implies(c.res, g))
        L("price", p > 0)
        sb, sq, sf = (slack(acc(c.this, k), u) for k, u in (("base_balance", bu), ("quote_balance", qu), ("total_fee", qu)))
        L("exchanged", q >= r * p if sign > 0 else q <= r * p)
        L("amount", r >= 0)
        L("fee", fee >= 0)
        L("base", delta(c, "base_balance") <= sign * r + sb)
        L("base-value", delta(c, "base_balance") * p <= sign * (r * p) + sb * p)
        L("quote", delta(c, "quote_balance") <= -sign * q - fee + sq)
        L("booked-fee", delta(c, "total_fee") <= fee + sf)
    return f


BUYC = Contract("Account::BuyBase", req, post, bal_mods, traced=True, ghost_exit=exit_base(1))
SELLC = Contract("Account::SellBase", req, post, bal_mods, traced=True, ghost_exit=exit_base(-1))


def through(c):
    """every effect goes through at most one operation under contract, on the same account"""
    tr = c.ex.trace
    if not tr:
        return [("no-effect", z3.And(z3.Not(c.res), c.V.eq(c.this1, c.this)))]
    if len(tr) > 1:
        return [("one-operation", z3.BoolVal(False))]
    k = tr[0]
    return [("outcome", c.res == k.res),
            ("no-other-effect", z3.And(k.V.eq(k.this, c.this), k.V.eq(c.this1, k.this1)))]


def at_quote(c):
    out = through(c)
    tr = c.ex.trace
    if len(tr) == 1:
        out.append(("execution-price", tr[0].a(2) == c.a(2)))
    return out


def wreq(c):
    bu, qu = units(c)
    return [("units", z3.And(bu >= 0, qu >= 0))] + fee_ok(c.a(0))


def ereq(c):
    bu, qu = units(c)
    out = [("units", z3.And(bu >= 0, qu >= 0))]
    for f in fees_of(c.a(0)):
        out += fee_ok(f)
    return out


def tasks(P):
    kw = dict(mode="grid", asserts="assume", skip_kinds=("fdiv", "fdom"))
    out = [lemma_task(),
           Task("GetFee", "Account::GetFee", FEEC, [], **kw),
           Task("BuyBase", "Account::BuyBase", BUYC, [FEEC], **kw),
           Task("SellBase", "Account::SellBase", SELLC, [FEEC], **kw)]
    AQ = [Contract("Account::" + n, req, at_quote, bal_mods, traced=True) for n in ("BuyAtQuote", "SellAtQuote")]
    W = [Contract("Account::" + n, wreq, through, bal_mods, traced=True) for n in MARKET + STOP + LIMIT]
    # at call sites the wrappers' contract says only what the caller needs: the frame, and the trace entry
    plain = lambda k: Contract(k.key, k._req, None, bal_mods, traced=True)
    for k in AQ:
        out.append(Task(k.key.split("::")[1], k.key, k, [FEEC, BUYC, SELLC], **kw))
    base = [plain(k) for k in [BUYC, SELLC] + AQ]
    for k in W:
        out.append(Task(k.key.split("::")[1], k.key, k, base, **kw))
    out.append(Task("ExecuteOrder", "Account::ExecuteOrder", Contract("Account::ExecuteOrder", ereq, through, bal_mods),
                    [plain(k) for k in W], **kw))
    return out
