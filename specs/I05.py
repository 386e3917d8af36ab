"""I05: EMA and MACD follow their recurrences under any update pattern.
Ghost series over all periods: $c closing prices, $e (resp. $f fast, $s slow, $g signal) averages; entry n-1 belongs to
the current period and is revised by intermediate updates, earlier entries never change."""
from specs.observer import *

UNITS = [("indicators/exponential_moving_average.cc", ("trader::",)), ("indicators/last_n_ohlc_ticks.cc", ("trader::",)),
         ("indicators/moving_average_convergence_divergence.cc", ("trader::",)), ("indicators/util.cc", ("trader::",))]
EMA, MACD, H = "ExponentialMovingAverage", "MovingAverageConvergenceDivergence", "ExponentialMovingAverageHelper"
V = "std::vector<float>"
GHOSTS = {EMA: [("$c", V), ("$e", V)], MACD: [("$c", V), ("$f", V), ("$s", V), ("$g", V)]}
ASSUMES = ["floating-point arithmetic is exact (real numbers)", "fewer than 2^31-2 periods",
           "LastNOhlcTicks::Update notifies as proved in I01"]
DEPENDS = ['I01']
REPLAY = ("indicators_oracle.cc", ["I05"], "indicators")


def h_add(c):
    a, b = c.this, c.this1
    n = fld(a, "num_values_")
    return [("count", fld(b, "num_values_") == n + 1),
            ("previous-average", fld(b, "previous_ema_") == fld(a, "current_ema_")),
            ("recurrence", fld(b, "current_ema_") == z3.If(n == 0, c.a(0), c.a(1) * c.a(0) + (1 - c.a(1)) * fld(a, "current_ema_")))]


def h_upd(c):
    a, b = c.this, c.this1
    n = fld(a, "num_values_")
    return [("current-value-replaced", fld(b, "current_ema_") == z3.If(
                n == 1, c.a(0), c.a(1) * c.a(0) + (1 - c.a(1)) * fld(a, "previous_ema_"))),
            ("count", fld(b, "num_values_") == n), ("previous-average", fld(b, "previous_ema_") == fld(a, "previous_ema_"))]


HADD = Contract(H + "::AddNewValue", lambda c: [("count", z3.And(fld(c.this, "num_values_") >= 0, fld(c.this, "num_values_") < INT_MAX))],
                h_add, lambda c: [c.this_loc])
HUPD = Contract(H + "::UpdateCurrentValue", lambda c: [("has-value", fld(c.this, "num_values_") > 0)], h_upd, lambda c: [c.this_loc])


def averages(name, h, x, y, w, n):
    """y is the exponential average series of x with weight w, and the helper h stands at its end"""
    return [(name + "-series", z3.And(y.lo == 0, y.hi == n, z3.Implies(n >= 1, at(y, 0) == x(0)),
                                      forall(1, lambda k: z3.Implies(z3.And(1 <= k, k < n),
                                                                     at(y, k) == w * x(k) + (1 - w) * at(y, k - 1)),
                                             patterns=lambda k: [at(y, k)]))),
            (name + "-current", z3.And(fld(h, "num_values_") == n, z3.Implies(n >= 1, fld(h, "current_ema_") == at(y, n - 1)),
                                       z3.Implies(n >= 2, fld(h, "previous_ema_") == at(y, n - 2))))]


def closes(m, d):
    c = fld(m, "$c")
    return [("closes", z3.And(c.lo == 0, c.hi == d.hi, forall(1, lambda k: z3.Implies(
        z3.And(d.lo <= k, k < d.hi), at(c, k) == at(d, k, "close")))))]


def ema_weight(m, args):
    return [("weight", fld(m, "weight_") == args[0] / (1 + z3.ToReal(args[1])))]


def ema_inv(ex, m, d, args):
    c, e = fld(m, "$c"), fld(m, "$e")
    return closes(m, d) + ema_weight(m, args) + averages("average", fld(m, "ema_helper_"), lambda k: at(c, k), e, fld(m, "weight_"), d.hi)


def ema_ghost(ex, this, kind, old, new, s, d, args):
    n = d.hi
    m = ex.read(this)
    c, e, w = fld(m, "$c"), fld(m, "$e"), fld(m, "weight_")
    gset(ex, this, "$c", n - 1, new.f["close"], n)
    gset(ex, this, "$e", n - 1, z3.If(n == 1, new.f["close"], w * new.f["close"] + (1 - w) * z3.Select(e.data, n - 2)), n)


OBS = Observer(EMA, 3, lambda a: [("parameters", z3.And(a[1] >= 1, a[2] >= 1))], lambda a: z3.IntVal(1), ema_inv, ema_ghost,
               uses=[HADD, HUPD], period=lambda a: a[2])
FIELDS = [("fast", "fast_ema_", "fast_weight_", "$f", 0), ("slow", "slow_ema_", "slow_weight_", "$s", 1),
          ("signal", "signal_ema_", "signal_weight_", "$g", 2)]


def macd_inv(ex, m, d, args):
    c, f, s = fld(m, "$c"), fld(m, "$f"), fld(m, "$s")
    out = closes(m, d) + [("count", fld(m, "num_ohlc_ticks_") == d.hi)]
    for name, h, w, g, i in FIELDS:
        out.append((name + "-weight", fld(m, w) == 2 / (1 + z3.ToReal(args[i]))))
        x = (lambda k: at(c, k)) if i < 2 else (lambda k: at(f, k) - at(s, k))
        out += averages(name, fld(m, h), x, fld(m, g), fld(m, w), d.hi)
    return out


def macd_ghost(ex, this, kind, old, new, s, d, args):
    n = d.hi
    m = ex.read(this)
    x = new.f["close"]
    gset(ex, this, "$c", n - 1, x, n)
    y = []
    for name, h, w, g, i in FIELDS:
        if i == 2:
            x = y[0] - y[1]
        e, w = fld(m, g), fld(m, w)
        y.append(z3.If(n == 1, x, w * x + (1 - w) * z3.Select(e.data, n - 2)))
        gset(ex, this, g, n - 1, y[-1], n)


MOBS = Observer(MACD, 4, lambda a: [("parameters", z3.And(a[0] >= 1, a[1] >= 1, a[2] >= 1, a[3] >= 1))], lambda a: z3.IntVal(1),
                macd_inv, macd_ghost, uses=[HADD, HUPD], period=lambda a: a[3])


def cur(m, g, d):
    return at(fld(m, g), d.hi - 1)


def series_post(expr):
    return lambda c, m, d, a: [("value-of-series", z3.Implies(d.hi >= 1, c.res == expr(m, d)))]


def tasks(P):
    out = [Task("HelperAdd", HADD.key, HADD, []), Task("HelperUpdate", HUPD.key, HUPD, []),
           Task("HelperGet", H + "::GetExponentialMovingAverage", Contract(H + "::GetExponentialMovingAverage", None, lambda c: [
               ("current-average", c.res == fld(c.this, "current_ema_"))], lambda c: []), []),
           Task("HelperCount", H + "::GetNumValues", Contract(H + "::GetNumValues", None, lambda c: [
               ("count", c.res == fld(c.this, "num_values_"))], lambda c: []), [])]
    for o, pre in ((OBS, "EMA"), (MOBS, "MACD")):
        ts = o.tasks()
        if o is OBS:
            ts += [o.getter("GetExponentialMovingAverage", series_post(lambda m, d: cur(m, "$e", d))),
                   o.getter("GetNumOhlcTicks", lambda c, m, d, a: [("number-of-periods", c.res == d.hi)])]
        else:
            F, S, G = (lambda g: lambda m, d: cur(m, g, d))("$f"), (lambda g: lambda m, d: cur(m, g, d))("$s"), (lambda g: lambda m, d: cur(m, g, d))("$g")
            ts += [o.getter("GetFastExponentialMovingAverage", series_post(F)), o.getter("GetSlowExponentialMovingAverage", series_post(S)),
                   o.getter("GetMACDSeries", series_post(lambda m, d: F(m, d) - S(m, d))), o.getter("GetMACDSignal", series_post(G)),
                   o.getter("GetDivergence", series_post(lambda m, d: F(m, d) - S(m, d) - G(m, d))),
                   o.getter("GetNumOhlcTicks", lambda c, m, d, a: [("number-of-periods", c.res == d.hi)])]
        for t in ts:
            t.name = pre + t.name
        out += ts
    return out
