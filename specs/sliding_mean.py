"""Contracts of SlidingWindowMeanAndVariance over the ghost history $h (last = current value) and the prefix sums
$p (of the values) and $q (of their squares): p[k] = h[0]+...+h[k-1], defined for k < max(1, number of values)."""
from specs.ind_common import *

CLS = "SlidingWindowMeanAndVariance"
GHOSTS = {CLS: [("$h", "std::vector<float>"), ("$p", "std::vector<float>"), ("$q", "std::vector<float>")]}


def sq(x):
    return AR.POW(x, z3.RealVal(2))


def old_count(n, W):
    """number of completed values in the window (the current value excluded); n >= 1"""
    return z3.If(W == 0, n - 1, z3.If(n <= W, n - 1, W - 1))


def wcount(n, W):
    return z3.If(W == 0, n, z3.If(n <= W, n, W))


def sums(m):
    """sum and sum of squares over the window, from the history alone; n >= 1"""
    h, p, q, W = fld(m, "$h"), fld(m, "$p"), fld(m, "$q"), fld(m, "window_size_")
    n = h.hi
    cur = at(h, n - 1)
    lo = n - 1 - old_count(n, W)
    return cur + at(p, n - 1) - at(p, lo), sq(cur) + at(q, n - 1) - at(q, lo)


def ginv(m):
    """the ghost prefix sums are what they claim to be"""
    h, p, q = fld(m, "$h"), fld(m, "$p"), fld(m, "$q")
    n = h.hi
    return [("history", z3.And(h.lo == 0, p.lo == 0, q.lo == 0, n >= 0, p.hi == n, q.hi == n)),
            ("prefix-sums", z3.And(z3.Implies(n >= 1, z3.And(at(p, 0) == 0, at(q, 0) == 0)),
                                   forall(1, lambda k: z3.Implies(z3.And(0 < k, k < n), z3.And(
                                       at(p, k) == at(p, k - 1) + at(h, k - 1),
                                       at(q, k) == at(q, k - 1) + sq(at(h, k - 1)))),
                                       patterns=lambda k: [at(p, k), at(q, k)])))]


def inv(m):
    W, n, cur = fld(m, "window_size_"), fld(m, "num_values_"), fld(m, "current_value_")
    d, h, p, q = seq(m, "window_"), fld(m, "$h"), fld(m, "$p"), fld(m, "$q")
    k = old_count(n, W)
    return ginv(m) + [
        ("window-nonnegative", W >= 0),
        ("count", z3.And(n == h.hi, n >= 0)),
        ("current", cur == z3.If(n >= 1, at(h, n - 1), 0)),
        ("deque-size", z3.And(d.lo >= 0, d.hi - d.lo == z3.If(z3.Or(n == 0, W <= 1), 0, k))),
        ("deque-values", forall(1, lambda j: z3.Implies(z3.And(d.lo <= j, j < d.hi), at(d, j) == at(h, n - 1 - d.hi + j)),
                                patterns=lambda j: [at(d, j)])),
        ("window-sum", fld(m, "window_sum_") == z3.If(n >= 1, at(p, n - 1) - at(p, n - 1 - k), 0)),
        ("window-sum-of-squares", fld(m, "window_sum_2_") == z3.If(n >= 1, at(q, n - 1) - at(q, n - 1 - k), 0))]


def new_ens(c, upd):
    a, b = c.this, c.this1
    h = fld(a, "$h")
    out = [("window-size-unchanged", fld(b, "window_size_") == fld(a, "window_size_"))]
    if upd:
        out.append(("history-revised", z3.And(last_set(fld(b, "$h"), h, c.a(0)),
                                              c.V.eq(fld(b, "$p"), fld(a, "$p")), c.V.eq(fld(b, "$q"), fld(a, "$q")))))
    else:
        out.append(("history-extended", z3.And(pushed(fld(b, "$h"), h, c.a(0)), *[
            z3.And(fld(b, g).hi == h.hi + 1, forall(1, lambda k: z3.Implies(
                z3.And(0 <= k, k < h.hi), at(fld(b, g), k) == at(fld(a, g), k)))) for g in ("$p", "$q")])))
    return out + inv(b)


def g_add(c):
    h, p, q = (fld(c.this, g) for g in ("$h", "$p", "$q"))
    n = h.hi
    for g, s, x in (("$p", p, at(h, n - 1)), ("$q", q, sq(at(h, n - 1)))):
        push_ghost(c, g, z3.If(n == 0, z3.RealVal(0), at(s, n - 1) + x))
    push_ghost(c, "$h", c.a(0))


mods = lambda c: [c.this_loc]
ADD = Contract(CLS + "::AddNewValue", lambda c: inv(c.this) + [("count-range", fld(c.this, "num_values_") < INT_MAX)],
               lambda c: new_ens(c, False), mods, ghost_exit=g_add)
UPD = Contract(CLS + "::UpdateCurrentValue", lambda c: inv(c.this) + [("has-value", fld(c.this, "$h").hi >= 1)],
               lambda c: new_ens(c, True), mods, ghost_exit=lambda c: set_last_ghost(c, "$h", c.a(0)))


def mean(m):
    h = fld(m, "$h")
    k = z3.ToReal(wcount(h.hi, fld(m, "window_size_")))
    return sums(m)[0] / k


def variance(m):
    """population variance of the window: mean of the squares minus square of the mean"""
    h = fld(m, "$h")
    k = z3.ToReal(wcount(h.hi, fld(m, "window_size_")))
    s, s2 = sums(m)
    return s2 / k - (s / k) * (s / k)


def value_post(f):
    def g(c):
        n = fld(c.this, "$h").hi
        return [("value", z3.Implies(n >= 1, c.res == f(c.this))), ("zero-without-values", z3.Implies(n == 0, c.res == 0))]
    return g


rd = lambda c: inv(c.this)
none = lambda c: []
SIZE = Contract(CLS + "::GetWindowSize", rd, lambda c: [("number-in-window", c.res == z3.If(
    fld(c.this, "$h").hi == 0, 0, wcount(fld(c.this, "$h").hi, fld(c.this, "window_size_"))))], none)
NUM = Contract(CLS + "::GetNumValues", rd, lambda c: [("number-added", c.res == fld(c.this, "$h").hi)], none)
MEAN = Contract(CLS + "::GetMean", rd, value_post(mean), none)


def cauchy_schwarz(m):
    """k * sum of squares >= square of the sum, over the window (lemma VarianceNonNegative, proved by induction)"""
    h = fld(m, "$h")
    n = h.hi
    k = z3.ToReal(wcount(n, fld(m, "window_size_")))
    s, s2 = sums(m)
    return z3.Implies(n >= 1, k * s2 >= s * s)


def var_req(c):
    return inv(c.this) + [("lemma-VarianceNonNegative", cauchy_schwarz(c.this))]


def var_post(c):
    return value_post(variance)(c) + [("never-negative", c.res >= 0)]


VAR = Contract(CLS + "::GetVariance", rd, var_post, none)
VAR_BODY = Contract(CLS + "::GetVariance", var_req, var_post, none)


def sd_post(c):
    n = fld(c.this, "$h").hi
    return [("never-negative", c.res >= 0), ("root-of-variance", z3.Implies(n >= 1, c.res * c.res == variance(c.this))),
            ("zero-without-values", z3.Implies(n == 0, c.res == 0))]


SD = Contract(CLS + "::GetStandardDeviation", rd, sd_post, none)
CTOR = Contract(CLS + "::" + CLS, lambda c: [("window-nonnegative", c.a(0) >= 0)],
                lambda c: inv(c.this1) + [("empty", fld(c.this1, "$h").hi == 0), ("window", fld(c.this1, "window_size_") == c.a(0))],
                mods, nparams=1, pick=lambda f, ex: is_int_ctor(f))


def is_int_ctor(f):
    return bool(f.params) and "int" in f.params[0]["type"]["qualType"] and "&" not in f.params[0]["type"]["qualType"]


def lemma_runner(task, ex):
    """Induction over the number k of values in the window starting at position lo:
    D(k) = k*(q[lo+k]-q[lo]) - (p[lo+k]-p[lo])^2 >= 0 and k = 0 implies both differences vanish; k >= 1 implies the
    sum of squares is at least s^2/k.  The last value may be the current one, which is not in p and q yet."""
    k, s, s2, x = z3.Real("k"), z3.Real("s"), z3.Real("s2"), z3.Real("x")
    D = lambda k, s, s2: z3.And(k * s2 - s * s >= 0, z3.Implies(k == 0, z3.And(s == 0, s2 == 0)))
    t = z3.Real("t")
    ex.oblige("lemma:VarianceNonNegative/base", D(z3.RealVal(0), z3.RealVal(0), z3.RealVal(0)), None, "lemma")
    ex.pc = []
    # (k+1)(s2+x^2) - (s+x)^2 = (k s2 - s^2) + (s2 - 2 s x + k x^2); k times the second term is (k s2 - s^2) + (s - k x)^2
    ex.oblige("lemma:VarianceNonNegative/identity", k * (s2 - 2 * s * x + k * x * x) == (k * s2 - s * s) + (s - k * x) * (s - k * x),
              None, "lemma")
    ex.pc = []
    ex.oblige("lemma:VarianceNonNegative/positive", z3.Implies(z3.And(k >= 1, k * t >= 0), t >= 0), None, "lemma")
    ex.pc = []
    ex.assume(k >= 1)
    ex.assume(k * s2 - s * s >= 0)
    ex.assume(t == s2 - 2 * s * x + k * x * x)
    ex.assume(t >= 0)
    ex.oblige("lemma:VarianceNonNegative/step", (k + 1) * (s2 + x * x) - (s + x) * (s + x) >= 0, None, "lemma")
    ex.pc = []
    ex.oblige("lemma:VarianceNonNegative/first-value", D(z3.RealVal(1), x, x * x), None, "lemma")
    ex.pc = []


LEMMA = Task("VarianceNonNegative", None, None, runner=lemma_runner, mode="real")
