"""I06: the relative strength index is Wilder's index over the period closes and stays within 0 and 100.
Ghosts: $o the open of the very first period, $c the period closes, $u/$d the smoothed upward/downward changes; entry
n-1 belongs to the current period and is revised by intermediate updates, earlier entries never change."""
from specs.I05 import H
from specs.observer import *

UNITS = [("indicators/relative_strength_index.cc", ("trader::",)), ("indicators/last_n_ohlc_ticks.cc", ("trader::",)),
         ("indicators/util.cc", ("trader::",))]
RSI = "RelativeStrengthIndex"
V = "std::vector<float>"
GHOSTS = {RSI: [("$o", "float"), ("$c", V), ("$u", V), ("$d", V)]}
ASSUMES = ["floating-point arithmetic is exact (real numbers)", "fewer than 2^31-2 periods",
           "LastNOhlcTicks::Update notifies as proved in I01"]
DEPENDS = ['I01']
REPLAY = ("indicators_oracle.cc", ["I06"], "indicators")


def weight(k, N):
    return 1 / z3.ToReal(z3.If(k + 1 < N, k + 1, N))


def change(c, o, k):
    """close of period k against the previous close (the open for the very first period)"""
    return z3.Select(c.data, k) - z3.If(k == 0, o, z3.Select(c.data, k - 1))


def pos(x):
    return z3.If(x >= 0, x, 0)


def smoothed(c, o, k, N, prev, sign):
    w = weight(k, N)
    x = pos(sign * change(c, o, k))
    return z3.If(k == 0, x, SM(w, x, prev))


SM = z3.Function("SMOOTH", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


def sm_def(w, x, p):
    return SM(w, x, p) == w * x + (1 - w) * p


def h_req(add):
    def f(c):
        n = fld(c.this, "num_values_")
        return [("count", z3.And(n >= 0, n < INT_MAX) if add else n > 0)]
    return f


def h_ens(add):
    """the exponential average of I05, with the weighted mean as a named function"""
    def f(c):
        a, b = c.this, c.this1
        n, cur, prev = fld(a, "num_values_"), fld(a, "current_ema_"), fld(a, "previous_ema_")
        first = n == 0 if add else n == 1
        return [("count", fld(b, "num_values_") == (n + 1 if add else n)),
                ("previous-average", fld(b, "previous_ema_") == (cur if add else prev)),
                ("recurrence", fld(b, "current_ema_") == z3.If(first, c.a(0), SM(c.a(1), c.a(0), cur if add else prev)))]
    return f


HADD = Contract(H + "::AddNewValue", h_req(True), h_ens(True), lambda c: [c.this_loc])
HUPD = Contract(H + "::UpdateCurrentValue", h_req(False), h_ens(False), lambda c: [c.this_loc])


def define(field):
    def setup(ex, c):
        ex.assume(sm_def(c.a(1), c.a(0), fld(c.this, field)))
    return setup


def lemma_runner(task, ex):
    w, x, p, m = z3.Real("w"), z3.Real("x"), z3.Real("p"), z3.Int("m")
    ex.assume(sm_def(w, x, p))
    ex.oblige("lemma:SmoothedNonNegative", z3.Implies(z3.And(0 < w, w <= 1, x >= 0, p >= 0), SM(w, x, p) >= 0), None, "lemma")
    ex.pc = []
    ex.oblige("lemma:WeightRange", z3.Implies(m >= 1, z3.And(0 < 1 / z3.ToReal(m), 1 / z3.ToReal(m) <= 1)), None, "lemma")
    ex.pc = []


LEMMA = Task("SmoothedNonNegative", None, None, runner=lemma_runner, mode="real")


def lemma(w, x, p):
    return z3.Implies(z3.And(x >= 0, p >= 0), SM(w, x, p) >= 0)


def series(m, N, n):
    out = []
    c, o = fld(m, "$c"), fld(m, "$o")
    for g, h, sign, name in (("$u", "upward_change_mma_", 1, "upward"), ("$d", "downward_change_mma_", -1, "downward")):
        s, e = fld(m, g), fld(m, h)
        out += [(name + "-series", z3.And(s.lo == 0, s.hi == n, forall(1, lambda k: z3.Implies(
                    z3.And(0 <= k, k < n), z3.And(at(s, k) >= 0, at(s, k) == smoothed(c, o, k, N, at(s, k - 1), sign))),
                    patterns=lambda k: [at(s, k)]))),
                (name + "-current", z3.And(fld(e, "num_values_") == n, fld(e, "current_ema_") == z3.If(n >= 1, at(s, n - 1), 0),
                                           z3.Implies(n >= 2, fld(e, "previous_ema_") == at(s, n - 2))))]
    return out


def inv(ex, m, d, args):
    c, n = fld(m, "$c"), d.hi
    return [("parameter", fld(m, "num_periods_") == args[0]), ("count", fld(m, "num_ohlc_ticks_") == n),
            ("closes", z3.And(c.lo == 0, c.hi == n, forall(1, lambda k: z3.Implies(
                z3.And(d.lo <= k, k < n), at(c, k) == at(d, k, "close"))))),
            ("first-open", z3.Implies(n == 1, fld(m, "$o") == at(d, 0, "open")))] + series(m, args[0], n)


def ghost(ex, this, kind, old, new, s, d, args):
    n = d.hi
    ex.write(this.sub("$o"), z3.If(n == 1, new.f["open"], ex.read(this.sub("$o"))))
    gset(ex, this, "$c", n - 1, new.f["close"], n)
    m = ex.read(this)
    for g, sign in (("$u", 1), ("$d", -1)):
        s = fld(m, g)
        ex.assume(lemma(weight(n - 1, args[0]), pos(sign * change(fld(m, "$c"), fld(m, "$o"), n - 1)), z3.Select(s.data, n - 2)))
        gset(ex, this, g, n - 1, smoothed(fld(m, "$c"), fld(m, "$o"), n - 1, args[0], z3.Select(s.data, n - 2), sign), n)


OBS = Observer(RSI, 2, lambda a: [("parameters", z3.And(a[0] >= 1, a[1] >= 1))], lambda a: z3.IntVal(2), inv, ghost,
               uses=[HADD, HUPD], period=lambda a: a[1])


def cur(m, g, d):
    return z3.If(d.hi >= 1, at(fld(m, g), d.hi - 1), 0)


def rsi_post(c, m, d, a):
    U, D = cur(m, "$u", d), cur(m, "$d", d)
    eps = AR.rv(AR.f32(1e-6))
    flat = z3.And(U < eps, D < eps)
    top = D < U * eps
    return [("fifty-when-flat", z3.Implies(flat, c.res == 50)),
            ("hundred-without-losses", z3.Implies(z3.And(z3.Not(flat), top), c.res == 100)),
            ("wilder", z3.Implies(z3.And(z3.Not(flat), z3.Not(top)), c.res * (U + D) == 100 * U)),
            ("range", z3.And(0 <= c.res, c.res <= 100))]


def tasks(P):
    return [Task("HelperAdd", HADD.key, HADD, [], setup=define("current_ema_")),
            Task("HelperUpdate", HUPD.key, HUPD, [], setup=define("previous_ema_")), LEMMA] + OBS.tasks() + [
        OBS.getter("GetRelativeStrengthIndex", rsi_post),
        OBS.getter("GetUpwardChangeModifiedMovingAverage", lambda c, m, d, a: [("smoothed-upward-change", c.res == cur(m, "$u", d))]),
        OBS.getter("GetDownwardChangeModifiedMovingAverage", lambda c, m, d, a: [("smoothed-downward-change", c.res == cur(m, "$d", d))]),
        OBS.getter("GetNumOhlcTicks", lambda c, m, d, a: [("number-of-periods", c.res == d.hi)])]
