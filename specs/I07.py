"""I07: the stochastic oscillator matches its definition.
Ghosts: $t all period ticks, $k the %K of each period, $f the fast %D and $lo, $hi the low and high over
the window of each period; entry n-1 belongs to the current
period and is revised by intermediate updates, earlier entries never change."""
from specs import sliding_min as SMIN, sliding_mean as SMEAN
from specs.observer import *

UNITS = [("indicators/stochastic_oscillator.cc", ("trader::",)), ("indicators/last_n_ohlc_ticks.cc", ("trader::",)),
         ("indicators/util.cc", ("trader::",))]
SO = "StochasticOscillator"
V = "std::vector<float>"
GHOSTS = {SO: [("$t", "std::vector<OhlcTick>"), ("$k", V), ("$f", V), ("$lo", V), ("$hi", V)]}
ASSUMES = ["floating-point arithmetic is exact (real numbers)", "fewer than 2^31-2 periods",
           "LastNOhlcTicks::Update notifies as proved in I01"]
DEPENDS = ["I01", "I03", "I04"]
PLAN = [("z3-new", 2), ("z3", 15), ("cvc5", 6), ("z3-new", 30), ("z3", 40), ("cvc5", 30)]
REPLAY = ("indicators_oracle.cc", ["I07"], "indicators")
LOW, HIGH, FAST, SLOW = "sliding_window_min_", "sliding_window_max_", "d_fast_", "d_slow_"
EPS = AR.rv(AR.f32(1e-6))




def extreme(x, f, n, W, sign):
    """x is the least (sign 1) or greatest (sign -1) of f over the last at most W periods"""
    lo = SMIN.wlo(n, W)
    return z3.And(forall(1, lambda k: z3.Implies(z3.And(lo <= k, k < n), sign * x <= sign * f(k)), patterns=lambda k: [f(k)]),
                  exists(1, lambda k: z3.And(lo <= k, k < n, x == f(k))))


def k_value(k, close, lo, hi):
    return z3.If(hi - lo < EPS, k == 50, k * (hi - lo) == 100 * (close - lo))


def inv(ex, m, d, args):
    n, W = d.hi, args[0]
    t, ks, fs, los, his = (fld(m, g) for g in ("$t", "$k", "$f", "$lo", "$hi"))
    mn, mx, df, ds = (fld(m, x) for x in (LOW, HIGH, FAST, SLOW))
    h, g = fld(mn, "$h"), fld(mx, "$g")
    k, close = fld(m, "latest_k_"), at(t, n - 1, "close")
    same = lambda a, b: z3.And(a.hi == n, forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), at(a, i) == b(i)), patterns=lambda i: [at(a, i)]))
    some = lambda x: z3.Implies(n >= 1, x)
    out = [("count", fld(m, "num_ohlc_ticks_") == n),
           ("periods", z3.And(t.lo == 0, t.hi == n, *[z3.And(x.lo == 0, x.hi == n) for x in (ks, fs, los, his)])),
           ("period-ticks", forall(1, lambda i: z3.Implies(z3.And(d.lo <= i, i < n), ex.V.eq(tick_at(ex.V, t, i), tick_at(ex.V, d, i))))),
           ("windows", z3.And(fld(mn, "window_size_") == W, fld(SMIN.mx(mx), "window_size_") == W,
                              fld(df, "window_size_") == 3, fld(ds, "window_size_") == 3)),
           ("lows", same(h, lambda i: at(t, i, "low"))),
           ("highs", same(g, lambda i: at(t, i, "high"))),
           ("fast-window-values", same(fld(df, "$h"), lambda i: at(ks, i))),
           ("slow-window-values", same(fld(ds, "$h"), lambda i: at(fs, i))),
           ("low", some(extreme(at(los, n - 1), lambda i: at(h, i), n, W, 1))),
           ("high", some(extreme(at(his, n - 1), lambda i: at(g, i), n, W, -1))),
           ("k", some(z3.And(at(ks, n - 1) == k, k_value(k, close, at(los, n - 1), at(his, n - 1))))),
           ("k-range", some(z3.And(0 <= k, k <= 100))),
           ("fast-d", some(at(fs, n - 1) == SMEAN.mean(df)))]
    for nm, comp, sub in ((LOW, SMIN.inv, mn), (HIGH, SMIN.xinv, mx), (FAST, SMEAN.inv, df), (SLOW, SMEAN.inv, ds)):
        out += [(nm + x, y) for x, y in comp(sub)]
    return out


def ghost(ex, this, kind, old, new, s, d, args):
    n, W = d.hi, args[0]
    m = ex.read(this)
    mn, mx, df = (fld(m, x) for x in (LOW, HIGH, FAST))
    t = fld(m, "$t")
    ex.write(this.sub("$t"), Seq(t.et, ex.V.sto(t.data, n - 1, new), t.lo, n, t.kind))
    # a least low and greatest high over a non-empty window exist (postconditions of the getters proved in I03)
    lo, hi = z3.Real(ex.fresh_name("low")), z3.Real(ex.fresh_name("high"))
    ex.assume(extreme(lo, lambda i: at(fld(mn, "$h"), i), n, W, 1))
    ex.assume(extreme(hi, lambda i: at(fld(mx, "$g"), i), n, W, -1))
    for g, v in (("$lo", lo), ("$hi", hi), ("$k", fld(m, "latest_k_")), ("$f", SMEAN.mean(df))):
        gset(ex, this, g, n - 1, v, n)


OBS = Observer(SO, 2, lambda a: [("parameters", z3.And(a[0] >= 1, a[1] >= 1))], lambda a: z3.IntVal(1), inv, ghost,
               uses=[SMIN.ADD, SMIN.UPD, SMIN.GET, SMIN.CTOR, SMIN.XADD, SMIN.XUPD, SMIN.XGET, SMIN.XCTOR,
                     SMEAN.ADD, SMEAN.UPD, SMEAN.MEAN, SMEAN.CTOR], period=lambda a: a[1], valid=True)


def post(field, expr):
    return lambda c, m, d, a: [(field, z3.Implies(d.hi >= 1, c.res == expr(m, d.hi)))]


def tasks(P):
    return OBS.tasks() + [
        OBS.getter("GetLow", lambda c, m, d, a: [("lowest-of-last-N", z3.Implies(d.hi >= 1, extreme(
            c.res, lambda i: at(fld(m, "$t"), i, "low"), d.hi, a[0], 1)))]),
        OBS.getter("GetHigh", lambda c, m, d, a: [("highest-of-last-N", z3.Implies(d.hi >= 1, extreme(
            c.res, lambda i: at(fld(m, "$t"), i, "high"), d.hi, a[0], -1)))]),
        OBS.getter("GetK", lambda c, m, d, a: post("percent-k", lambda m, n: at(fld(m, "$k"), n - 1))(c, m, d, a) + [
            ("range", z3.Implies(d.hi >= 1, z3.And(0 <= c.res, c.res <= 100)))]),
        OBS.getter("GetFastD", post("mean-of-k", lambda m, n: SMEAN.mean(fld(m, FAST)))),
        OBS.getter("GetSlowD", post("mean-of-fast-d", lambda m, n: SMEAN.mean(fld(m, SLOW)))),
        OBS.getter("GetNumOhlcTicks", lambda c, m, d, a: [("number-of-periods", c.res == d.hi)])]
