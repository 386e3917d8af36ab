"""H01: history subsets contain exactly the records of the requested time interval.
std::lower_bound is an assumed library contract whose precondition (the range is partitioned by the comparator) is
proved at each call."""
import os
from specs.ind_common import *

TUF = os.path.join(os.path.dirname(__file__), "tu", "history_subset.cc")
UNITS = [(TUF, ("trader::",))]
ASSUMES = ["histories are ordered by non-decreasing timestamps", "std::lower_bound, std::copy behave as the C++ standard says"]
REPLAY = ("history_oracle.cc", ["H01"], "history")
TYPES = ("PriceRecord", "OhlcTick", "SideInputRecord")


def ts(h, k):
    return at(h, k, "timestamp_sec")


def ordered(h):
    return forall(2, lambda i, j: z3.Implies(z3.And(h.lo <= i, i <= j, j < h.hi), ts(h, i) <= ts(h, j)))


def wanted(h, k, start, end):
    return z3.And(z3.Or(start <= 0, ts(h, k) >= start), z3.Or(end <= 0, ts(h, k) < end))


def requires(c):
    return [("ordered", ordered(c.a(0)))]


def exactly(h, b, e, start, end):
    return z3.And(h.lo <= b, b <= e, e <= h.hi), forall(1, lambda k: z3.Implies(
        z3.And(h.lo <= k, k < h.hi), z3.And(b <= k, k < e) == wanted(h, k, start, end)))


def subset_ens(c):
    h, r = c.a(0), c.res
    b, e = r.f["first"], r.f["second"]
    if not (isinstance(b, It) and isinstance(e, It)):
        raise AnnotationMismatch("result of HistorySubset")
    valid, iff = exactly(h, b.idx, e.idx, c.a(1), c.a(2))
    return [("iterators-of-the-history", z3.BoolVal(b.loc.same(c.argv[0]) and e.loc.same(c.argv[0]))),
            ("valid-range", valid), ("exactly-the-interval", iff)]


def make_result(c):
    """fresh result at call sites: two iterators into the history"""
    l = c.argv[0]
    return Rec("pair", {"first": It(l, z3.Int(c.ex.fresh_name("subset_begin"))), "second": It(l, z3.Int(c.ex.fresh_name("subset_end")))})


def pick(t):
    return lambda f, ex=None: f.targs and f.targs[0].replace("trader::", "") == t


SUBSET = {t: Contract("HistorySubset", requires, subset_ens, lambda c: [], result=make_result, pick=pick(t), nparams=3) for t in TYPES}


def copy_ens(c):
    h, r, (b, e) = c.a(0), c.res, c.ghost["range"]
    return [("number-of-records", size(r) == e - b),
            ("the-interval's-records-in-order", forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < e - b), c.V.eq(
                c.V.sel(r.data, r.lo + k), c.V.sel(h.data, b + k)))))]


def some_range(c):
    """the records of the interval are a range (proved for the result of HistorySubset)"""
    h = c.a(0)
    b, e = z3.Int("range_begin"), z3.Int("range_end")
    c.ghost["range"] = (b, e)
    for g in exactly(h, b, e, c.a(1), c.a(2)):
        c.ex.assume(g)


def copy_inv(L):
    """a loop over the records of the interval that appends them to the result (the code at hand calls std::copy instead)"""
    c, ex = L.fc, L.ex
    h = c.a(0)
    is_range = lambda v: isinstance(v, Rec) and v.cls == "pair" and isinstance(v.f["first"], It) and isinstance(v.f["second"], It)
    r = L.val("history_subset", is_range)
    ol = L.loc("history_subset_copy", lambda v: isinstance(v, Seq), True)
    its = [l for nm, (l, d) in ex.fr.names.items() if l.root in L.modroots() and isinstance(ex.read(l), It)]
    if len(its) != 1:
        raise AnnotationMismatch("iterator of the loop")
    k, k0, out, out0 = ex.read(its[0]).idx, L.old(its[0]).idx, ex.read(ol), L.old(ol)
    return [("position", z3.And(k0 <= k, k <= r.f["second"].idx)),
            ("size", z3.And(out.lo == out0.lo, out.hi == out0.hi + k - k0)),
            ("copied", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < k - k0), c.V.eq(
                c.V.sel(out.data, out0.hi + i), c.V.sel(h.data, k0 + i)))))]


COPY = {t: Contract("HistorySubsetCopy", requires, copy_ens, lambda c: [], ghost_entry=some_range, pick=pick(t), nparams=3,
                    loops=[LoopSpec("copy", copy_inv)]) for t in TYPES}


def tasks(P):
    out = []
    for t in TYPES:
        out.append(Task("HistorySubset<%s>" % t, "HistorySubset", SUBSET[t], [], pick=pick(t)))
        out.append(Task("HistorySubsetCopy<%s>" % t, "HistorySubsetCopy", COPY[t], [SUBSET[t]], pick=pick(t)))
    return out
