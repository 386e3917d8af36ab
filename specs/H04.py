"""H04: the outlier context covers exactly the neighbourhoods of the last outliers.
NEAR(i, k): index k is in the context of one of the outliers first..i-1 (recursive definition of "there is one"), and
HIT(i, k): index k is one of these outliers; first is the number of the first outlier taken into account."""
from specs.hist_common import *

ASSUMES = ["std::map behaves as the C++ standard says"]
REPLAY = ("history_oracle.cc", ["H04"], "history")
NEAR = z3.Function("NEAR", I, I, B)
HIT = z3.Function("HIT", I, I, B)
MAX = 2 ** 64 - 1


def outliers(c):
    return c.a(0)


def first(c):
    n, last = size(outliers(c)), c.a(4)
    return z3.If(z3.Or(last == 0, n <= last), 0, n - last)


def near(c, i, k):
    """k is a context index of outlier number i"""
    j = at(outliers(c), outliers(c).lo + i)
    return z3.And(0 <= k, k < c.a(1), j - c.a(2) <= k, k <= j + c.a(3))


def requires(c):
    s = outliers(c)
    return [("vector-sizes", z3.And(0 <= size(s), size(s) < 2 ** 62, c.a(1) < 2 ** 62)),
            ("indices", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < size(s)), z3.And(0 <= at(s, s.lo + i), at(s, s.lo + i) < c.a(1))))),
            ("sorted", forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < size(s)), at(s, s.lo + i) < at(s, s.lo + j))))]


def def_step(c, i):
    return z3.Implies(z3.And(0 <= i, i < size(outliers(c))), z3.And(
        forall(2, lambda n, k: z3.Implies(n == i + 1, NEAR(n, k) == z3.Or(NEAR(i, k), near(c, i, k))), patterns=lambda n, k: [NEAR(n, k)]),
        forall(2, lambda n, k: z3.Implies(n == i + 1, HIT(n, k) == z3.Or(HIT(i, k), k == at(outliers(c), outliers(c).lo + i))),
               patterns=lambda n, k: [HIT(n, k)])))


def define(c):
    c.ex.assume(forall(1, lambda k: z3.Not(NEAR(first(c), k))))
    c.ex.assume(forall(1, lambda k: z3.Not(HIT(first(c), k))))


def contents(c, m, i):
    return [("exactly-the-neighbourhoods", forall(1, lambda k: z3.Select(m.dom, k) == NEAR(i, k))),
            ("exactly-the-outliers-marked", forall(1, lambda k: z3.Implies(z3.Select(m.dom, k), z3.Select(m.data, k) == HIT(i, k))))]


def ensures(c):
    return contents(c, c.res, size(outliers(c)))


def the_map(L):
    return L.loc("index_to_outlier", lambda v: isinstance(v, MapV), True)


def outer_inv(L):
    c = L.fc
    i = position(L)
    return [("position", z3.And(first(c) <= i, i <= size(outliers(c)))),
            ("marked-are-near", forall(1, lambda k: z3.Implies(HIT(i, k), NEAR(i, k))))]


def outer_guess(L):
    """the contents after i outliers; or contexts and marks are added by different loops"""
    c = L.fc
    i, m, s = position(L), L.ex.read(the_map(L)), outliers(c)
    n = size(s)
    inside = lambda e: forall(1, lambda p: z3.Implies(z3.And(first(c) <= p, p < e), z3.Select(m.dom, at(s, s.lo + p))))
    return contents(c, m, i) + [("all-neighbourhoods", contents(c, m, n)[0][1]), ("visited-inside", inside(i)), ("outliers-inside", inside(n)),
                                ("none-marked", forall(1, lambda k: z3.Implies(z3.Select(m.dom, k), z3.Not(z3.Select(m.data, k)))))]


def position(L):
    return L.cursor(None, "i")


def inner_inv(L):
    c = L.fc
    k = L.cursor(None, "k")
    l = the_map(L)
    m, m0 = L.ex.read(l), L.old(l)
    k0 = L.ghost.setdefault("k0", k)        # the value on entry
    i = L.nest()[-2].cursor(None, "i") if len(L.nest()) > 1 else None
    if i is None:
        raise AnnotationMismatch("loop over the context of an outlier")
    j = at(outliers(c), outliers(c).lo + i)
    return [("position", k >= k0), ("only-context-indices", forall(1, lambda q: z3.Implies(z3.And(k0 <= q, q < k), near(c, i, q)))),
            ("added", forall(1, lambda q: z3.Select(m.dom, q) == z3.Or(z3.Select(m0.dom, q), z3.And(k0 <= q, q < k)))),
            ("marks-kept", forall(1, lambda q: z3.Implies(z3.And(z3.Select(m.dom, q), q != j), marks_kept(m, m0, q))))]


def marks_kept(m, m0, q):
    return z3.Select(m.data, q) == z3.And(z3.Select(m0.dom, q), z3.Select(m0.data, q))


def inner_guess(L):
    """the outlier's own mark: as before, or set when it is reached"""
    c = L.fc
    k, k0, l = L.cursor(None, "k"), L.ghost["k0"], the_map(L)
    m, m0 = L.ex.read(l), L.old(l)
    j = at(outliers(c), outliers(c).lo + L.nest()[-2].cursor(None, "i"))
    return [("own-mark-kept", z3.Implies(z3.Select(m.dom, j), marks_kept(m, m0, j))),
            ("own-mark-set", z3.Implies(z3.And(k0 <= j, j < k), z3.Select(m.data, j))),
            ("own-mark-set-first", z3.And(z3.Select(m.dom, j), z3.Select(m.data, j)))]


C = Contract("GetOutlierIndicesWithContext", requires, ensures, lambda c: [], ghost_entry=define,
             loops=[LoopSpec("outliers", outer_inv, head=lambda L: [def_step(L.fc, position(L))], candidates=outer_guess),
                    LoopSpec("context", inner_inv, candidates=inner_guess)])


def tasks(P):
    return [Task("GetOutlierIndicesWithContext", "GetOutlierIndicesWithContext", C, [], mode="real")]
