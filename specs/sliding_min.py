"""Contracts of SlidingWindowMinimum/Maximum, over the ghost history $h of all values (last = current one)."""
from specs.ind_common import *

GHOSTS = {"SlidingWindowMinimum": [("$h", "std::vector<float>")], "SlidingWindowMaximum": [("$g", "std::vector<float>")]}


def wlo(n, W):
    """first history index of the window"""
    return z3.If(n - W > 0, n - W, 0)


def entries_inv(d, h, W, n, first, last):
    """deque entries (v,t): increasing, each the minimum of its stretch of the history; first <= t <= last; the last
    entry, if any, has t == last"""
    v = lambda j: at(d, j, "first")
    t = lambda j: at(d, j, "second")
    return [("deque-entries", forall(1, lambda j: z3.Implies(z3.And(d.lo <= j, j < d.hi), z3.And(
                first <= t(j), t(j) <= last, v(j) == at(h, t(j) - 1))))),
            ("deque-increasing", forall(2, lambda i, j: z3.Implies(z3.And(d.lo <= i, i < j, j < d.hi), z3.And(
                t(i) < t(j), v(i) < v(j))))),
            ("deque-bounds", z3.And(d.lo >= 0, d.lo <= d.hi))]


def cover(d, h, first, last):
    """entry j is the minimum of everything after entry j-1 (of everything, for the front entry)"""
    v = lambda j: at(d, j, "first")
    t = lambda j: at(d, j, "second")
    return ("deque-suffix-minima", forall(2, lambda i, j: z3.Implies(
        z3.And(d.lo <= j, j < d.hi, first - 1 <= i, i < last, z3.Or(j == d.lo, i >= t(j - 1))), at(h, i) >= v(j))))


def inv(m):
    W, n, cur, cm = fld(m, "window_size_"), fld(m, "num_values_"), fld(m, "current_value_"), fld(m, "current_sliding_window_minimum_")
    d, h = seq(m, "window_"), fld(m, "$h")
    first = z3.If(n - W + 1 > 1, n - W + 1, 1)
    front = at(d, d.lo, "first")
    return [("window-positive", W >= 1),
            ("history", z3.And(h.lo == 0, n == h.hi, n >= 0)),
            ("current", z3.Implies(n >= 1, cur == at(h, n - 1))),
            ("minimum", z3.Implies(n >= 1, cm == z3.If(d.hi == d.lo, cur, z3.If(front < cur, front, cur)))),
            ("deque-empty-iff", (d.hi == d.lo) == z3.Or(W == 1, n <= 1)),
            ("deque-last", z3.Implies(d.hi > d.lo, at(d, d.hi - 1, "second") == n - 1))] + \
        entries_inv(d, h, W, n, first, n - 1) + [cover(d, h, first, n - 1)]


def is_window_min(x, h, W, n, sign=1):
    lo = wlo(n, W)
    return [("no-smaller-value", forall(1, lambda k: z3.Implies(z3.And(lo <= k, k < n), sign * x <= sign * at(h, k)))),
            ("attained", exists(1, lambda k: z3.And(lo <= k, k < n, x == at(h, k))))]


def requires(c):
    return inv(c.this) + [("count-range", fld(c.this, "num_values_") < INT_MAX - 1)]


def ens(c):
    a, b = c.this, c.this1
    out = [("window-size-unchanged", fld(b, "window_size_") == fld(a, "window_size_"))]
    return out + inv(b)


def add_ens(c):
    return [("history-extended", pushed(fld(c.this1, "$h"), fld(c.this, "$h"), c.a(0)))] + ens(c)


def upd_ens(c):
    return [("history-revised", last_set(fld(c.this1, "$h"), fld(c.this, "$h"), c.a(0)))] + ens(c)


def mods(c):
    return [c.this_loc]


def g_add(c):
    push_ghost(c, "$h", c.a(0))


def g_upd(c):
    set_last_ghost(c, "$h", c.a(0))


# ---- loops of AddNewValue; $h is still the old history there (n values, last one = current value to be pushed)
def members(L):
    m = L.ex.read(L.fc.this_loc)
    return m, seq(m, "window_"), fld(m, "$h"), fld(m, "window_size_")


def back_inv(L):
    """popping larger values at the back: what was popped stays covered by the value to be pushed"""
    m, d, h, W = members(L)
    m0 = L.fc.this
    d0 = seq(m0, "window_")
    n = h.hi
    cur = at(h, n - 1)
    t = lambda j: at(d, j, "second")
    first = z3.If(n - W + 1 > 1, n - W + 1, 1)
    return [("same-front", z3.And(d.lo == d0.lo, d.hi <= d0.hi)),
            ("entries-kept", L.V.eq(d.data, d0.data) if not L.V.same(d.data, d0.data) else z3.BoolVal(True)),
            ("popped-not-smaller", forall(1, lambda i: z3.Implies(
                z3.And(first - 1 <= i, i < n, z3.Or(d.hi == d.lo, i >= t(d.hi - 1))), at(h, i) >= cur)))] + \
        entries_inv(d, h, W, n, first, n - 1) + [cover(d, h, first, n - 1)]


def front_inv(L):
    m, d, h, W = members(L)
    n = h.hi
    t = lambda j: at(d, j, "second")
    first = z3.If(n - W + 1 > 1, n - W + 1, 1)
    return [("non-empty", d.lo < d.hi), ("last-is-current", t(d.hi - 1) == n),
            ("only-front", d.lo >= seq(L.fc.this, "window_").lo)] + \
        entries_inv(d, h, W, n, first, n) + [
            ("suffix-minima", cover(d, h, z3.If(n - W + 2 > 1, n - W + 2, 1), n)[1])]


def calls(L, name):
    def w(x):
        return x.get("kind") == "MemberExpr" and x.get("name") == name or any(w(y) for y in x.get("inner", []))
    return w(L.node)


LOOPS = [LoopSpec("pop-back", back_inv, measure=lambda L: size(members(L)[1]), applies=lambda L: not calls(L, "pop_front")),
         LoopSpec("pop-front", front_inv, measure=lambda L: size(members(L)[1]), applies=lambda L: not calls(L, "pop_back"))]

ADD = Contract("SlidingWindowMinimum::AddNewValue", requires, add_ens, mods, ghost_exit=g_add, loops=LOOPS)
UPD = Contract("SlidingWindowMinimum::UpdateCurrentValue", lambda c: inv(c.this) + [("has-value", fld(c.this, "num_values_") >= 1)],
               upd_ens, mods, ghost_exit=g_upd)


def get_ens(c):
    m = c.this
    return [(n, z3.Implies(fld(m, "num_values_") >= 1, g)) for n, g in
            is_window_min(c.res, fld(m, "$h"), fld(m, "window_size_"), fld(m, "$h").hi)] + \
        [("zero-without-values", z3.BoolVal(True))]


GET = Contract("SlidingWindowMinimum::GetSlidingWindowMinimum", lambda c: inv(c.this), get_ens, lambda c: [])
NUM = Contract("SlidingWindowMinimum::GetNumValues", lambda c: inv(c.this), lambda c: [("number-added", c.res == fld(c.this, "$h").hi)],
               lambda c: [])
WIN = Contract("SlidingWindowMinimum::GetWindowSize", lambda c: inv(c.this), lambda c: [
    ("number-in-window", z3.And(c.res <= fld(c.this, "window_size_"), c.res <= fld(c.this, "$h").hi,
                                z3.Or(c.res == fld(c.this, "window_size_"), c.res == fld(c.this, "$h").hi)))], lambda c: [])
CTOR = Contract("SlidingWindowMinimum::SlidingWindowMinimum", lambda c: [("window-positive", c.a(0) >= 1)],
                lambda c: inv(c.this1) + [("empty", fld(c.this1, "$h").hi == 0), ("window", fld(c.this1, "window_size_") == c.a(0))],
                lambda c: [c.this_loc], nparams=1, pick=lambda f, ex: ty_int(f))


def ty_int(f):
    return f.params and "int" in f.params[0].get("type", {}).get("qualType", "") and "&" not in f.params[0]["type"]["qualType"]


# ---- the maximum is the minimum of the negated history; $g is the history of the values themselves
def mx(v):
    return fld(v, "sliding_window_minimum_")


def xinv(m):
    g, h = fld(m, "$g"), fld(mx(m), "$h")
    return inv(mx(m)) + [("negated-history", z3.And(g.lo == 0, g.hi == h.hi, forall(1, lambda i: z3.Implies(
        z3.And(0 <= i, i < g.hi), at(h, i) == -at(g, i)))))]


def xreq(c):
    return xinv(c.this) + [("count-range", fld(mx(c.this), "num_values_") < INT_MAX - 1)]


def xens(c):
    return [("window-size-unchanged", fld(mx(c.this1), "window_size_") == fld(mx(c.this), "window_size_"))] + xinv(c.this1)


XADD = Contract("SlidingWindowMaximum::AddNewValue", xreq, lambda c: [
    ("history-extended", pushed(fld(c.this1, "$g"), fld(c.this, "$g"), c.a(0)))] + xens(c), mods,
    ghost_exit=lambda c: push_ghost(c, "$g", c.a(0)))
XUPD = Contract("SlidingWindowMaximum::UpdateCurrentValue", lambda c: xinv(c.this) + [("has-value", fld(mx(c.this), "num_values_") >= 1)],
                lambda c: [("history-revised", last_set(fld(c.this1, "$g"), fld(c.this, "$g"), c.a(0)))] + xens(c), mods,
                ghost_exit=lambda c: set_last_ghost(c, "$g", c.a(0)))
XGET = Contract("SlidingWindowMaximum::GetSlidingWindowMaximum", lambda c: xinv(c.this), lambda c: [
    (n, z3.Implies(fld(mx(c.this), "num_values_") >= 1, g)) for n, g in
    is_window_min(c.res, fld(c.this, "$g"), fld(mx(c.this), "window_size_"), fld(c.this, "$g").hi, -1)], lambda c: [])
XNUM = Contract("SlidingWindowMaximum::GetNumValues", lambda c: xinv(c.this), lambda c: [("number-added", c.res == fld(c.this, "$g").hi)],
                lambda c: [])
XWIN = Contract("SlidingWindowMaximum::GetWindowSize", lambda c: xinv(c.this), lambda c: [
    ("number-in-window", z3.And(c.res <= fld(mx(c.this), "window_size_"), c.res <= fld(c.this, "$g").hi,
                                z3.Or(c.res == fld(mx(c.this), "window_size_"), c.res == fld(c.this, "$g").hi)))], lambda c: [])
XCTOR = Contract("SlidingWindowMaximum::SlidingWindowMaximum", lambda c: [("window-positive", c.a(0) >= 1)],
                 lambda c: xinv(c.this1) + [("empty", fld(c.this1, "$g").hi == 0), ("window", fld(mx(c.this1), "window_size_") == c.a(0))],
                 lambda c: [c.this_loc], nparams=1, pick=lambda f, ex: ty_int(f))
