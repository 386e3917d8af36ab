"""I08: volatility is the standard deviation of the per-period logarithmic returns of the portfolio value.
Ghost $v: v[0] is the value at the very first open, v[k+1] the value of period k: its close and the balances of the
latest update of that period; the entry of the current period is revised by intermediate updates, earlier ones never."""
from specs import sliding_mean as SMEAN
from specs.observer import *

UNITS = [("indicators/volatility.cc", ("trader::",)), ("indicators/last_n_ohlc_ticks.cc", ("trader::",)),
         ("indicators/util.cc", ("trader::",))]
VOL = "Volatility"
GHOSTS = {VOL: [("$v", "std::vector<float>")]}
ASSUMES = ["floating-point arithmetic is exact (real numbers)", "fewer than 2^31-2 periods", "std::log is a function",
           "balances are not negative and not both zero, ticks are valid",
           "LastNOhlcTicks::Update notifies as proved in I01"]
DEPENDS = ["I01", "I04"]
REPLAY = ("indicators_oracle.cc", ["I08"], "indicators")
BASE, QUOTE, VAR = "latest_base_balance_", "latest_quote_balance_", "sliding_window_variance_"


def balances(m, args=None):
    b, q = fld(m, BASE), fld(m, QUOTE)
    return [("balances", z3.And(b >= 0, q >= 0, b + q > 0))]


def ret(v, k):
    """logarithmic return of period k"""
    return AR.LOG(at(v, k) / at(v, k + 1))


def inv(ex, m, d, args):
    n, W = d.hi, args[0]
    v, p, s = fld(m, "$v"), seq(m, "portfolio_value_"), fld(m, VAR)
    h = fld(s, "$h")
    return [("count", fld(m, "num_ohlc_ticks_") == n),
            ("values", z3.And(v.lo == 0, v.hi == z3.If(n == 0, 0, n + 1), forall(1, lambda k: z3.Implies(
                z3.And(0 <= k, k < v.hi), at(v, k) > 0), patterns=lambda k: [at(v, k)]))),
            ("value-window", z3.If(n == 0, size(p) == 0, z3.And(p.lo >= 0, size(p) == 2, at(p, p.lo) == at(v, n - 1), at(p, p.lo + 1) == at(v, n)))),
            ("window", fld(s, "window_size_") == W),
            ("returns", z3.And(h.hi == n, forall(1, lambda k: z3.Implies(
                z3.And(0 <= k, k < n), at(h, k) == ret(v, k)), patterns=lambda k: [at(h, k)])))] + \
        [(VAR + x, g) for x, g in SMEAN.inv(s)]


def ghost(ex, this, kind, old, new, s, d, args):
    n = d.hi
    m = ex.read(this)
    b, q, v = fld(m, BASE), fld(m, QUOTE), fld(m, "$v")
    gset(ex, this, "$v", z3.IntVal(0), z3.If(n == 1, b * new.f["open"] + q, at(v, 0)) if kind == NEW else at(v, 0))
    gset(ex, this, "$v", n, b * new.f["close"] + q, n + 1)


OBS = Observer(VOL, 2, lambda a: [("parameters", z3.And(a[0] >= 0, a[1] >= 1))], lambda a: z3.IntVal(2), inv, ghost,
               uses=[SMEAN.ADD, SMEAN.UPD, SMEAN.SD, SMEAN.CTOR], period=lambda a: a[1], valid=True, step_req=balances,
               update_req=lambda c: [("balances", z3.And(c.a(1) >= 0, c.a(2) >= 0, c.a(1) + c.a(2) > 0))],
               at_update=lambda c, m: [("latest-balances", z3.And(fld(m, BASE) == c.a(1), fld(m, QUOTE) == c.a(2)))],
               step_post=lambda a, b: [("balances-kept", z3.And(fld(a, BASE) == fld(b, BASE), fld(a, QUOTE) == fld(b, QUOTE)))])


def vol_post(c, m, d, a):
    s = fld(m, VAR)
    return [("never-negative", c.res >= 0), ("deviation-of-returns", z3.Implies(d.hi >= 1, c.res * c.res == SMEAN.variance(s))),
            ("zero-without-periods", z3.Implies(d.hi == 0, c.res == 0))]


def tasks(P):
    return OBS.tasks() + [OBS.getter("GetVolatility", vol_post),
                          OBS.getter("GetNumOhlcTicks", lambda c, m, d, a: [("number-of-periods", c.res == d.hi)])]
