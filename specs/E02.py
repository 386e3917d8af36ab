"""E02: traders see only current or past side input, with its age.

Callees are used through the contracts proved for them in S01 and S02: the lookup returns the latest record not after the given
time (with its precondition on the hint), the accessors return the signals SIG(record, i) and the timestamp of a record."""
from specs.eval_common import *
from specs.S01 import latest, hint_req, invariant
from specs.side_common import times, increasing

ASSUMES = ["the ticks are ordered by non-decreasing timestamps", "the signals of a record are the function SIG (side input objects are immutable)",
           "the age of the signals is exact (real numbers)"]
REPLAY = ("eval_oracle.cc", ["E02"], "eval")
SIG = z3.Function("SIG", I, I, R)
NSIG = z3.Int("NSIG")


def side(c):
    """the side input object"""
    m = main(c)
    p = m.a(SIDE)
    if p.loc is None:
        raise AnnotationMismatch("side input")
    return m.at(m.pre, p.loc)


def requires(c):
    s, b, e = rng(c, BEGIN)
    sd = side(c)
    return [("ordered", ordered(s, b, e)), ("side-input", z3.Implies(has_side(c), z3.And(NSIG >= 0, *[g for _, g in invariant_of(sd)])))]


def invariant_of(sd):
    t = times(sd)
    return [("increasing", increasing(t)), ("records", z3.And(t.lo == 0, t.hi >= 1, t.hi <= INT_MAX))]


def the_object(c):
    return [("the-side-input", z3.BoolVal(c.this_loc.same(main(c).a(SIDE).loc)))]


def valid_record(c):
    return [("valid-record", z3.And(0 <= c.a(0), c.a(0) < size(times(c.this))))]


def appended(c):
    o0, o1, k = c.a(1), c.a1(1), c.a(0)
    return [("size", z3.And(o1.lo == o0.lo, o1.hi == o0.hi + NSIG)),
            ("kept", forall(1, lambda i: z3.Implies(z3.And(o0.lo <= i, i < o0.hi), at(o1, i) == at(o0, i)))),
            ("signals", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < NSIG), at(o1, o0.hi + i) == SIG(k, i))))]


SIDE_INPUT = [Contract("SideInput::GetNumberOfSignals", the_object, lambda c: [("", c.res == NSIG)], lambda c: []),
              Contract("SideInput::GetSideInputIndex", lambda c: the_object(c) + invariant(c), lambda c: latest(c, c.res), lambda c: [], nparams=1),
              Contract("SideInput::GetSideInputIndex", lambda c: the_object(c) + hint_req(c), lambda c: latest(c, c.res), lambda c: [], nparams=2),
              Contract("SideInput::GetSideInputTimestamp", lambda c: the_object(c) + valid_record(c),
                       lambda c: [("", c.res == at(times(c.this), times(c.this).lo + c.a(0)))], lambda c: []),
              Contract("SideInput::GetSideInputSignals", lambda c: the_object(c) + valid_record(c), appended, lambda c: [c.argv[1]], nparams=2),
              Contract("SideInput::GetSideInputSignal", lambda c: the_object(c) + valid_record(c), lambda c: [("", c.res == SIG(c.a(0), c.a(1)))], lambda c: []),
              Contract("SideInput::GetNumberOfRecords", the_object, lambda c: [("", c.res == size(times(c.this)))], lambda c: [])]


def update_req(c):
    """the signals shown to the trader at time x"""
    t = times(side(c))
    x = cur_tick(c).f["timestamp_sec"]
    sg = c.a(1)
    before = z3.Or(z3.Not(has_side(c)), at(t, t.lo) > x)

    def latest_at(k):
        return z3.And(0 <= k, k < size(t), at(t, t.lo + k) <= x, z3.Or(k + 1 == size(t), at(t, t.lo + k + 1) > x))
    k = z3.Int(c.ex.fresh_name("latest"))
    return [("no-signals-before-the-first-record", z3.Implies(before, size(sg) == 0)),
            ("number-of-signals", z3.Implies(z3.Not(before), size(sg) == NSIG + 1)),
            ("signals-of-the-latest-record", z3.Implies(z3.And(z3.Not(before), latest_at(k)), forall(1, lambda i: z3.Implies(
                z3.And(0 <= i, i < NSIG), at(sg, sg.lo + i) == SIG(k, i))))),
            ("age", z3.Implies(z3.And(z3.Not(before), latest_at(k)), at(sg, sg.hi - 1) == z3.ToReal(x - at(t, t.lo + k))))]


def is_signals(v):
    return isinstance(v, Seq) and z3.is_expr(v.data) and v.data.sort().range() == R


def inv(L):
    """no record has been passed: the hint is valid for the next tick, and without it there are no signals yet"""
    c = L.fc
    s, b, e = history(c)
    t = times(side(c))
    sg = L.val("side_input_signals", is_signals)
    prev = L.val("prev_side_input_index", lambda v: isinstance(v, z3.ArithRef) and v.sort() == I, True)
    k = G(c, "ticks")
    return [("hint", z3.Implies(has_side(c), z3.And(-1 <= prev, prev < size(t), z3.Implies(prev >= 0, z3.And(k > 0, at(t, t.lo + prev) <= ts(s, b + k - 1)))))),
            ("empty-without-record", z3.Implies(z3.Or(z3.Not(has_side(c)), prev < 0), size(sg) == 0))]


EVENTS = events(UPDATE={"requires": update_req})
C = Contract("ExecuteTrader", requires, all_visited, None, ghost_entry=entry, loops=[tick_loop(inv), order_loop(lambda L, j: [])])


def tasks(P):
    return [Task("ExecuteTrader", "ExecuteTrader", C, EVENTS + VOL + SIDE_INPUT, setup=setup)]
