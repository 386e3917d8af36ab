"""I02: the simple moving average is the mean close of the window.
Ghost $p: prefix sums of the closing prices over all periods; window positions are period numbers."""
from specs.observer import *

UNITS = [("indicators/simple_moving_average.cc", ("trader::",)), ("indicators/last_n_ohlc_ticks.cc", ("trader::",))]
CLASS = "SimpleMovingAverage"
GHOSTS = {CLASS: [("$p", "std::vector<float>")]}
ASSUMES = ["floating-point arithmetic is exact (real numbers)", "fewer than 2^31-2 periods",
           "LastNOhlcTicks::Update notifies as proved in I01"]
DEPENDS = ['I01']
REPLAY = ("indicators_oracle.cc", ["I02"], "indicators")


def inv(ex, m, d, args):
    p = fld(m, "$p")
    return [("prefix-sums", z3.And(p.lo == 0, p.hi == d.hi + 1, z3.Implies(d.lo == 0, at(p, 0) == 0),
                                   forall(1, lambda k: z3.Implies(z3.And(d.lo <= k, k < d.hi),
                                                                  at(p, k + 1) == at(p, k) + at(d, k, "close"))))),
            ("sum-of-window", fld(m, "sum_close_price_") == at(p, d.hi) - at(p, d.lo))]


def init_ghost(ex, this, args):
    gset(ex, this, "$p", z3.IntVal(0), z3.RealVal(0), z3.IntVal(1))


def ghost(ex, this, kind, old, new, s, d, args):
    p = ex.read(this.sub("$p"))
    gset(ex, this, "$p", d.hi, z3.Select(p.data, d.hi - 1) + new.f["close"], d.hi + 1)


OBS = Observer(CLASS, 2, lambda a: [("parameters", z3.And(a[0] >= 1, a[1] >= 1))], lambda a: a[0], inv, ghost,
               init_ghost=init_ghost, period=lambda a: a[1])


def sma(c, m, d, args):
    p = fld(m, "$p")
    n = d.hi - d.lo
    return [("mean-close-of-window", z3.Implies(n > 0, c.res == (at(p, d.hi) - at(p, d.lo)) / z3.ToReal(n))),
            ("zero-without-ticks", z3.Implies(n == 0, c.res == 0))]


def tasks(P):
    return OBS.tasks() + [OBS.getter("GetSimpleMovingAverage", sma),
                          OBS.getter("GetNumOhlcTicks", lambda c, m, d, a: [("window-size", c.res == d.hi - d.lo)])]
