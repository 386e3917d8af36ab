"""H05: resampling yields contiguous aligned ticks that summarise their records.
With q(k) = timestamp of record k / sampling rate, FIRST(j) is the first record at or after interval q(begin)+j, so that
tick j covers exactly the records [FIRST(j), FIRST(j+1)); VOLUME(k) is the prefix sum of the volumes."""
from specs.hist_common import *

ASSUMES = ["floating-point arithmetic is exact (real numbers) for the sum of volumes", "timestamps up to 2^61"]
REPLAY = ("history_oracle.cc", ["H05"], "history")
FIRST = z3.Function("FIRST", I, I)
VOLUME = z3.Function("VOLUME", I, R)
TS_MAX = 2 ** 61


def setup(ex, c):
    range_args(ex, c)


def q(c, k):
    s, _, _ = rng(c)
    return AR.TDIV(ts(s, k), c.a(2))


def requires(c):
    s, b, e = rng(c)
    return [("sampling-rate", c.a(2) > 0), ("ordered", ordered(s, b, e)),
            ("timestamps", forall(1, lambda k: z3.Implies(z3.And(b <= k, k < e), z3.And(ts(s, k) >= 0, ts(s, k) <= TS_MAX))))]


def define(c):
    """definitions of FIRST and VOLUME, and the lemma Monotone for the intervals"""
    s, b, e = rng(c)
    A = c.ex.assume
    A(forall(2, lambda i, j: z3.Implies(z3.And(b <= i, i <= j, j < e), q(c, i) <= q(c, j)),
             patterns=lambda i, j: [z3.MultiPattern(q(c, i), q(c, j))]))
    A(forall(1, lambda k: z3.Implies(z3.And(b <= k, k < e), q(c, k) >= 0), patterns=lambda k: [q(c, k)]))
    A(forall(1, lambda j: z3.Implies(j >= 0, z3.And(b <= FIRST(j), FIRST(j) <= e)), patterns=lambda j: [FIRST(j)]))
    A(forall(2, lambda j, k: z3.Implies(z3.And(j >= 0, b <= k, k < e), (k < FIRST(j)) == (q(c, k) < q(c, b) + j)),
             patterns=lambda j, k: [z3.MultiPattern(FIRST(j), ts(s, k))]))
    A(VOLUME(b) == 0)
    A(forall(1, lambda k: z3.Implies(z3.And(b <= k, k < e), VOLUME(k + 1) == VOLUME(k) + rec(s, k, "volume")),
             patterns=lambda k: [rec(s, k, "volume")]))


def summary(c, out, j, s0, e0):
    """tick j of out summarises the records [s0, e0) (flat at the previous close when there are none)"""
    s, b, e = rng(c)
    o = lambda f, i=j: at(out, out.lo + i, f)
    price = lambda k: rec(s, k, "price")
    return z3.If(s0 < e0, z3.And(
        o("open") == price(s0), o("close") == price(e0 - 1),
        forall(1, lambda k: z3.Implies(z3.And(s0 <= k, k < e0), z3.And(o("low") <= price(k), price(k) <= o("high")))),
        exists(1, lambda k: z3.And(s0 <= k, k < e0, price(k) == o("low"))),
        exists(1, lambda k: z3.And(s0 <= k, k < e0, price(k) == o("high"))),
        o("volume") == VOLUME(e0) - VOLUME(s0)),
        z3.And(j >= 1, *[o(f) == o("close", j - 1) for f in ("open", "high", "low", "close")], o("volume") == 0))


def aligned(c, out, n):
    s, b, e = rng(c)
    return forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n), at(out, out.lo + j, "timestamp_sec") == c.a(2) * (q(c, b) + j)))


def ensures(c):
    s, b, e = rng(c)
    out = c.res
    n = size(out)
    return [("number-of-ticks", n == z3.If(b == e, 0, q(c, e - 1) - q(c, b) + 1)),
            ("contiguous-aligned", aligned(c, out, n)),
            ("summaries", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n), summary(c, out, j, FIRST(j), FIRST(j + 1)))))]


def out_loc(L):
    return L.loc("resampled_ohlc_history", lambda v: isinstance(v, Seq) and isinstance(v.data, Rec) and "close" in v.data.f, True)


def outer_inv(L):
    c = L.fc
    s, b, e = rng(c)
    out = L.ex.read(out_loc(L))
    p = b_pos(L)
    n = size(out)
    return [("position", z3.And(b <= p, p <= e)),
            ("number-of-ticks", n == z3.If(p == b, 0, q(c, p - 1) - q(c, b) + 1)),
            ("start", out.lo == 0),
            ("contiguous-aligned", aligned(c, out, n)),
            ("finished", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n - 1), z3.And(
                FIRST(j + 1) <= p, summary(c, out, j, FIRST(j), FIRST(j + 1)))))),
            ("current", z3.Implies(n >= 1, z3.And(FIRST(n - 1) < p, FIRST(n) >= p, summary(c, out, n - 1, FIRST(n - 1), p))))]


def b_pos(L):
    return L.place(L.fc.a(0).loc, rng(L.fc)[1])


def gap_inv(L):
    """filling the gap before record p: the ticks so far are finished and their intervals lie before p's"""
    c = L.fc
    s, b, e = rng(c)
    ol = out_loc(L)
    out, o0 = L.ex.read(ol), L.old(ol)
    n, n0 = size(out), size(o0)
    p = outer_pos(L)
    return [("start", z3.And(out.lo == 0, n >= n0, z3.Implies(n0 == 0, n == 0))),
            ("old-ticks-kept", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n0), L.V.eq(L.V.sel(out.data, j), L.V.sel(o0.data, j))))),
            ("contiguous-aligned", aligned(c, out, n)),
            ("before-the-record", z3.Implies(n > n0, q(c, b) + n - 1 < q(c, p))),
            ("last-close", z3.Implies(n0 >= 1, at(out, n - 1, "close") == at(o0, n0 - 1, "close"))),
            ("flat", forall(1, lambda j: z3.Implies(z3.And(n0 <= j, j < n), summary(c, out, j, FIRST(j), FIRST(j)))))]


def outer_guess(L):
    out = L.ex.read(out_loc(L))
    return carried_fields(L, out, out.hi - 1, size(out) > 0, ("timestamp_sec", "close")) + carried_flags(L, size(out) > 0)


def gap_guess(L):
    out, rate = L.ex.read(out_loc(L)), L.fc.a(2)
    return carried_fields(L, out, out.hi - 1, size(out) > 0, ("timestamp_sec",), (0, rate)) + carried_fields(
        L, out, out.hi - 1, size(out) > 0, ("close",))


def outer_pos(L):
    """position of the enclosing loop over the records: the iterator variable that is no parameter"""
    return outer_cursor(L, L.fc.a(0).loc)


C = Contract("Resample", requires, ensures, lambda c: [], ghost_entry=define,
             loops=[LoopSpec("records", outer_inv, candidates=outer_guess), LoopSpec("fill-gap", gap_inv, candidates=gap_guess)])


def lemma_runner(task, ex):
    a, b, P = z3.Ints("a b P")
    ex.assume(z3.And(0 <= a, a <= b, P > 0))
    for x in (a, b):
        ex.assume(AR.tdiv_axiom(x, P))
    u, v = AR.TDIV(a, P), AR.TDIV(b, P)
    ex.oblige("lemma:Monotone/product", z3.Implies(u >= v + 1, P * u >= P * v + P), None, "lemma")
    ex.assume(z3.Implies(u >= v + 1, P * u >= P * v + P))
    ex.oblige("lemma:Monotone", u <= v, None, "lemma")
    ex.pc = []


def tasks(P):
    return [Task("Resample", "Resample", C, [], mode="real", setup=setup),
            Task("Monotone", None, None, runner=lemma_runner, mode="real")]
