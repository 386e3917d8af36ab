"""H02: the reported history gaps are the largest ones, in chronological order.
The candidate gaps are numbered in the order they are offered to the queue: first [start, first record) when start > 0,
then the gaps between consecutive records, last [last record, end) when end > 0."""
from specs.hist_common import *

ASSUMES = ["std::priority_queue and std::sort behave as the C++ standard says (their comparators are proved to be strict weak orders)",
           "timestamps up to 2^61"]
REPLAY = ("history_oracle.cc", ["H02"], "history")
TS_MAX = 2 ** 61


def setup(ex, c):
    range_args(ex, c)


def requires(c):
    s, b, e = rng(c)
    return [("ordered", ordered(s, b, e)),
            ("timestamps", forall(1, lambda k: z3.Implies(z3.And(b <= k, k < e), z3.And(ts(s, k) >= 0, ts(s, k) <= TS_MAX)))),
            ("interval", z3.And(c.a(2) <= TS_MAX, c.a(3) <= TS_MAX))]


def given(c):
    """whether the start of the interval is given (0/1)"""
    return z3.If(c.a(2) > 0, z3.IntVal(1), z3.IntVal(0))


def cand(c, i):
    """candidate gap number i: its two timestamps"""
    s, b, e = rng(c)
    k = b + i - given(c)
    return z3.If(k < b, c.a(2), ts(s, k)), z3.If(k + 1 < e, ts(s, k + 1), c.a(3))


def count(c):
    s, b, e = rng(c)
    return z3.If(b == e, 0, given(c) + (e - b - 1) + z3.If(c.a(3) > 0, 1, 0))


def length(c, i):
    f, t = cand(c, i)
    return t - f


def queue(c):
    q = [v for v in c.post.values() if isinstance(v, Rec) and v.cls == "pq"]
    if len(q) > 1:
        raise AnnotationMismatch("priority queue")
    return q[0] if q else None


def ensures(c):
    n, m, out = c.a(4), count(c), c.res
    r = [("number-of-gaps", size(out) == z3.If(m < n, m, n)),
         ("chronological", forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < size(out)),
                                                           at(out, out.lo + i, "first") <= at(out, out.lo + j, "first"))))]
    Q = queue(c)
    if Q is None:
        return r + [("no-records", m == 0)]
    perm = c.ex.last_sort[0] if c.ex.last_sort else lambda i: i
    base = Q.f["np"] - size(out)
    src = lambda i: z3.Select(Q.f["ord"], base + perm(out.lo + i) - out.lo)
    rep = lambda k: z3.And(base <= z3.Select(Q.f["when"], k), z3.Select(Q.f["when"], k) < Q.f["np"],
                           z3.Select(Q.f["ord"], z3.Select(Q.f["when"], k)) == k)
    return r + [
        ("every-reported-gap-is-a-gap", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < size(out)), z3.And(
            0 <= src(i), src(i) < m, rep(src(i)), at(out, out.lo + i, "first") == cand(c, src(i))[0],
            at(out, out.lo + i, "second") == cand(c, src(i))[1])))),
        ("no-gap-twice", forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < size(out)), src(i) != src(j)))),
        ("the-largest", forall(2, lambda i, k: z3.Implies(z3.And(0 <= i, i < size(out), 0 <= k, k < m, z3.Not(rep(k))),
                                                         length(c, k) <= length(c, src(i)))))]


def is_pq(v):
    return isinstance(v, Rec) and v.cls == "pq"


def offered(c, Q, m):
    """the first m candidates were offered and the largest are kept"""
    d, live = Q.f["c"], Q.f["live"]
    n = c.a(4)
    inr = lambda i: z3.And(0 <= i, i < m)
    return [("offered", z3.And(d.lo == 0, d.hi == m, m >= 0)),
            ("elements", forall(1, lambda i: z3.Implies(inr(i), z3.And(at(d, i, "first") == cand(c, i)[0], at(d, i, "second") == cand(c, i)[1])))),
            ("kept", Q.f["n"] == z3.If(m < n, m, n)),
            ("live-inside", forall(1, lambda i: z3.Implies(z3.Select(live, i), inr(i)))),
            ("none-left-out-early", forall(1, lambda i: z3.Implies(z3.And(inr(i), z3.Not(z3.Select(live, i))), m > n))),
            ("largest-kept", forall(2, lambda i, j: z3.Implies(z3.And(inr(i), z3.Not(z3.Select(live, i)), z3.Select(live, j)),
                                                              at(d, i, "second") - at(d, i, "first") <= at(d, j, "second") - at(d, j, "first"))))]


def scan_inv(L):
    """the gaps offered so far are the first candidates; where the loop is (the guesses) tells how many"""
    c = L.fc
    s, b, e = rng(c)
    Q = L.val("gap_queue", is_pq, True)
    m = Q.f["c"].hi
    return [("records", b < e), ("pops", Q.f["np"] >= 0), ("number-offered", z3.And(given(c) <= m, m <= count(c)))] + offered(c, Q, m)


def scan_guess(L):
    """guesses: the number of gaps offered follows from the position of an iterator or index of the loop (the gap that
    ends at record x is candidate number x - 1, after the one before the first record if there is one), an iterator
    trails another one, and what is carried from the previous record"""
    c = L.fc
    s, b, e = rng(c)
    m = L.val("gap_queue", is_pq, True).f["c"].hi - given(c)
    its = iterators(L)
    out = []
    for nm, x in [(nm, p - b) for nm, p, _ in its] + L.carried(I):
        out += [("%s:%s" % (nm, t), z) for t, z in (
            ("first", 0 <= x), ("last", x <= e - b), ("before-last", x < e - b), ("later", x > 0),
            ("no-gap-before-first", m == z3.If(x > 0, x - 1, 0)), ("gaps", m == x), ("gaps-behind", m == x - 1), ("gaps-ahead", m == x + 1))]
        out += carried_fields(L, s, b + x - 1, x > 0, tag=nm) + carried_fields(L, s, b + x, z3.BoolVal(True), tag=nm + "+") + carried_flags(L, x > 0)
    for nm, p, _ in its:
        for n2, q, q0 in its:
            if n2 != nm:
                out += [("%s-trails-%s" % (n2, nm), q == p - 1), ("%s-then-trails-%s" % (n2, nm), q == z3.If(p > b, p - 1, q0))]
    return out


def iterators(L):
    """the iterators into the history that the loop moves: name, position, position before the loop"""
    out = []
    for did, l in L.ex.fr.env.items():
        if l.root in L.modroots():
            v = v_of(L, l)
            if isinstance(v, It) and v.loc.same(L.fc.a(0).loc) and not any(l.same(x) for _, x in out):
                out.append((v.idx, l))
    return [("it%d" % i, p, L.old(l).idx) for i, (p, l) in enumerate(out)]


def v_of(L, l):
    try:
        return L.ex.read(l)
    except Exception:
        return None


def drain_inv(L):
    """the elements taken out so far are those of the queue at entry, each once"""
    ql = L.loc("gap_queue", is_pq, True)
    Q, Q0 = L.ex.read(ql), L.old(ql)
    out = L.val("history_gaps", lambda v: isinstance(v, Seq), True)
    d, live, live0, np, np0 = Q.f["c"], Q.f["live"], Q0.f["live"], Q.f["np"], Q0.f["np"]
    order, when = lambda p: z3.Select(Q.f["ord"], p), lambda i: z3.Select(Q.f["when"], i)
    return [("out", z3.And(out.lo == 0, out.hi >= 0, np == np0 + out.hi, Q.f["n"] + out.hi == Q0.f["n"], np0 >= 0)),
            ("elements-kept", z3.And(d.lo == Q0.f["c"].lo, d.hi == Q0.f["c"].hi, L.V.eq(d.data, Q0.f["c"].data))),
            ("still-in-or-taken", forall(1, lambda i: z3.Implies(z3.Select(live0, i), z3.Or(z3.Select(live, i), z3.And(
                np0 <= when(i), when(i) < np, order(when(i)) == i))))),
            ("in-were-in", forall(1, lambda i: z3.Implies(z3.Select(live, i), z3.Select(live0, i)))),
            ("taken", forall(1, lambda p: z3.Implies(z3.And(np0 <= p, p < np), z3.And(
                z3.Select(live0, order(p)), z3.Not(z3.Select(live, order(p))), when(order(p)) == p,
                at(d, order(p), "first") == at(out, p - np0, "first"), at(d, order(p), "second") == at(out, p - np0, "second"))))),
            ("out-is-taken", forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < out.hi), z3.And(
                at(d, order(np0 + k), "first") == at(out, k, "first"), at(d, order(np0 + k), "second") == at(out, k, "second")))))]


def entry(c):
    c.ex.last_sort = None


C = Contract("GetPriceHistoryGaps", requires, ensures, lambda c: [], ghost_entry=entry,
             loops=[LoopSpec("records", scan_inv, candidates=scan_guess), LoopSpec("drain", drain_inv)])


def tasks(P):
    return [Task("GetPriceHistoryGaps", "GetPriceHistoryGaps", C, [], mode="real", setup=setup)]
