"""S02: the side input storage returns the original signals.  The constructor is proved to store every timestamp and signal of
the source history; the accessors are proved to return them, for any object that stores a source history."""
from specs.side_common import *

ASSUMES = ["at most 2^31-1 records and signals in total (indices are of type int)"]
REPLAY = ("history_oracle.cc", ["S02"], "history")
HIST = "source"


def source(c):
    """a source history (ghost) whose records the object stores"""
    if "source" not in c.ghost:
        c.ghost["source"] = c.ex.fresh(c.ex.tt.parse("std::vector<trader::SideInputRecord>"), "source")
    return c.ghost["source"]


def entry(c):
    s = source(c)
    n = c.this.f["num_signals_"]
    define_offset(c, n)
    for nm, g in stored(s, c.this, s.hi) + [("", z3.And(s.lo == 0, s.hi >= 1, s.hi <= N, n >= 0, OFFSET(s.hi) <= N))]:
        c.ex.assume(g)
    c.ex.assume(forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < s.hi), nsig(s, k) == n)))
    if len(c.argv):
        k = c.a(0)
        c.ex.assume(z3.Implies(z3.And(0 <= k, k < s.hi), z3.And(OFFSET(k) == n * k, OFFSET(k) >= 0, OFFSET(k) + n <= OFFSET(s.hi))))
        # the stored signals of the record asked for, by their position in the storage
        d = data(c.this)
        c.ex.assume(forall(1, lambda p: z3.Implies(z3.And(0 <= k, k < s.hi, OFFSET(k) <= p, p < OFFSET(k) + n),
                                                  at(d, p) == sig(s, k, p - OFFSET(k))), patterns=lambda p: [at(d, p)]))


def valid_record(c):
    return [("valid-record", z3.And(0 <= c.a(0), c.a(0) < size(times(c.this))))]


def valid_signal(c):
    return valid_record(c) + [("valid-signal", z3.And(0 <= c.a(1), c.a(1) < c.this.f["num_signals_"]))]


SIGNAL = Contract("SideInput::GetSideInputSignal", valid_signal, lambda c: [("the-signal", c.res == sig(source(c), c.a(0), c.a(1)))],
                  lambda c: [], ghost_entry=entry)


def appended(c, out, out0, j):
    return [("size", z3.And(out.lo == out0.lo, out.hi == out0.hi + j)),
            ("earlier-contents-kept", forall(1, lambda i: z3.Implies(z3.And(out0.lo <= i, i < out0.hi), at(out, i) == at(out0, i)))),
            ("signals-appended", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < j), at(out, out0.hi + i) == sig(source(c), c.a(0), i))))]


def append_inv(L):
    c = L.fc
    j = L.cursor(None, "signal_index")
    out = L.ex.read(c.argv[1])
    return [("position", z3.And(0 <= j, j <= c.this.f["num_signals_"]))] + appended(c, out, c.a(1), j)


def append_head(L):
    """instance of the entry assumption at the current signal"""
    c = L.fc
    s, n, j, k = source(c), c.this.f["num_signals_"], L.cursor(None, "signal_index"), c.a(0)
    return [z3.Implies(z3.And(0 <= k, k < s.hi, 0 <= j, j < n), at(data(c.this), OFFSET(k) + j) == sig(s, k, j)),
            z3.Implies(z3.And(0 <= k, k < s.hi, 0 <= j, j < n), z3.And(n * k + j >= 0, at(data(c.this), n * k + j) == sig(s, k, j)))]


SIGNALS = Contract("SideInput::GetSideInputSignals", valid_record, lambda c: appended(c, c.a1(1), c.a(1), c.this.f["num_signals_"]),
                   None, ghost_entry=entry, loops=[LoopSpec("signals", append_inv, head=append_head)])
COUNT = Contract("SideInput::GetNumberOfSignals", None, lambda c: [("number-of-signals", c.res == c.this.f["num_signals_"])], lambda c: [],
                 ghost_entry=entry)
RECORDS = Contract("SideInput::GetNumberOfRecords", None, lambda c: [("number-of-records", c.res == source(c).hi)], lambda c: [], ghost_entry=entry)
TIME = Contract("SideInput::GetSideInputTimestamp", valid_record,
                lambda c: [("the-timestamp", c.res == at(source(c), c.a(0), "timestamp_sec"))], lambda c: [], ghost_entry=entry)


def tasks(P):
    t = lambda c: Task(c.key.split("::")[1], c.key, c, [])
    return constructor_tasks(P) + [t(c) for c in (SIGNAL, SIGNALS, COUNT, RECORDS, TIME)]
