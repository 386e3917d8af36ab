"""S01: the side input lookup returns the latest record not after the given time."""
from specs.side_common import *

ASSUMES = ["std::upper_bound behaves as the C++ standard says (its precondition is proved)",
           "at most 2^31-1 records (indices are of type int)"]
REPLAY = ("history_oracle.cc", ["S01"], "history")


def latest(c, r):
    """r is the last record whose timestamp is not after the given one, -1 when all are later"""
    t, x = times(c.this), c.a(0)
    n = size(t)
    return [("in-range", z3.And(-1 <= r, r < n)),
            ("not-after", forall(1, lambda k: z3.Implies(z3.And(0 <= k, k <= r), at(t, t.lo + k) <= x))),
            ("later-ones-are-after", forall(1, lambda k: z3.Implies(z3.And(r < k, k < n), at(t, t.lo + k) > x)))]


def invariant(c):
    return [g for g in inv(c.this) if g[0] == "increasing"] + [("records", z3.And(times(c.this).lo == 0, size(times(c.this)) <= N))]


def hint_req(c):
    t, p = times(c.this), c.a(1)
    return invariant(c) + [("valid-hint", z3.Or(p < 0, z3.And(p < size(t), at(t, t.lo + p) <= c.a(0))))]


INDEX = Contract("SideInput::GetSideInputIndex", invariant, lambda c: latest(c, c.res), lambda c: [], nparams=1)
HINT = Contract("SideInput::GetSideInputIndex", hint_req, lambda c: latest(c, c.res), lambda c: [], nparams=2)


def tasks(P):
    return [Task("GetSideInputIndex", "SideInput::GetSideInputIndex", INDEX, [], nparams=1),
            Task("GetSideInputIndex(hint)", "SideInput::GetSideInputIndex", HINT, [INDEX], nparams=2)] + constructor_tasks(P, CTOR_TIMES, asserts="assume")

