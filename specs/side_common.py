"""Shared vocabulary of the side input properties: an abstract SideInput object is related to its records only through the
class invariant "increasing timestamps, number of signals times number of records values".
OFFSET(k) is the number of signals before record k."""
from specs.ind_common import *

UNITS = [("base/side_input.cc", ("trader::",))]
N = 2 ** 31 - 1
OFFSET = z3.Function("OFFSET", I, I)


def define_offset(c, n):
    """OFFSET(k) = n * k: the lemma OffsetMonotone (the product and the recurrence are only given where they are needed)"""
    A = c.ex.assume
    A(OFFSET(0) == 0)
    A(forall(2, lambda k, m: z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= OFFSET(k), OFFSET(k) + n <= OFFSET(m))),
             patterns=lambda k, m: [z3.MultiPattern(OFFSET(k), OFFSET(m))]))


def offset_lemma(task, ex):
    n, k, m = z3.Ints("n k m")
    ex.assume(z3.And(n >= 0, 0 <= k, k < m))
    ex.oblige("lemma:OffsetMonotone", z3.And(0 <= n * k, n * k + n <= n * m), None, "lemma")
    ex.oblige("lemma:OffsetRecurrence", z3.And(n * 0 == 0, n * (k + 1) == n * k + n), None, "lemma")
    ex.pc = []


def times(o):
    v = o.f["timestamp_sec_history_"]
    if not isinstance(v, Seq):
        raise AnnotationMismatch("timestamp_sec_history_")
    return v


def data(o):
    return o.f["data_"]


def increasing(s, get=None):
    get = get or (lambda k: at(s, k))
    return forall(2, lambda i, j: z3.Implies(z3.And(s.lo <= i, i < j, j < s.hi), get(i) < get(j)))


def inv(o):
    """class invariant: established by the constructor, relied on by the methods"""
    t, d, n = times(o), data(o), o.f["num_signals_"]
    return [("sizes", z3.And(t.lo == 0, d.lo == 0, t.hi >= 0, n >= 0, t.hi <= N, d.hi <= N, d.hi == OFFSET(t.hi))),
            ("increasing", increasing(t))]


def c_signal(s):
    v = s.data.f["signal"]
    if not isinstance(v, Seq):
        raise AnnotationMismatch("signals of a side input record")
    return v


def nsig(s, k):
    v = c_signal(s)
    return z3.Select(v.hi, k) - z3.Select(v.lo, k)


def sig(s, k, i):
    """signal i of record k of the source history"""
    v = c_signal(s)
    return z3.Select(z3.Select(v.data, k), z3.Select(v.lo, k) + i)


def source_req(c):
    s = c.a(0)
    n = nsig(s, 0)
    return [("non-empty", z3.And(s.lo == 0, s.hi >= 1)),
            ("increasing", increasing(s, lambda k: at(s, k, "timestamp_sec"))),
            ("positive", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.hi), at(s, i, "timestamp_sec") > 0))),
            ("equal-signal-counts", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.hi), nsig(s, i) == n))),
            ("sizes", z3.And(n >= 0, s.hi <= N, OFFSET(s.hi) <= N))]


def stored_times(s, t, m):
    return z3.And(t.lo == 0, t.hi == m), forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < m), at(t, k) == at(s, k, "timestamp_sec")))


def stored_signals(s, d, m, n):
    return forall(2, lambda k, i: z3.Implies(z3.And(0 <= k, k < m, 0 <= i, i < n), at(d, OFFSET(k) + i) == sig(s, k, i)),
                  patterns=lambda k, i: [z3.MultiPattern(OFFSET(k), sig(s, k, i))])


def stored(s, o, m, signals=True):
    """the first m records of the source s are stored in o"""
    t, d, n = times(o), data(o), o.f["num_signals_"]
    a, b = stored_times(s, t, m)
    if not signals:
        return [("number-of-records", a), ("timestamps", b)]
    return [("number-of-signals", n == nsig(s, 0)), ("number-of-records", a), ("timestamps", b),
            ("number-of-values", z3.And(d.lo == 0, d.hi == OFFSET(m))), ("signals", stored_signals(s, d, m, n))]


def records_inv(L, signals=True):
    c = L.fc
    s = c.a(0)
    m = L.cursor(c.argv[0])
    o = L.ex.read(c.this_loc)
    out = [("position", z3.And(0 <= m, m <= s.hi))] + stored(s, o, m, signals)
    try:
        prev = L.val("prev_timestamp_sec")
        out.append(("previous", prev == z3.If(m == 0, 0, at(s, m - 1, "timestamp_sec"))))
    except AnnotationMismatch:
        pass
    return out


def records_head(L):
    """the recurrence of OFFSET at the current record"""
    m = L.cursor(L.fc.argv[0])
    return [z3.Implies(m >= 0, OFFSET(m + 1) == OFFSET(m) + nsig(L.fc.a(0), 0))]


def signals_inv(L):
    """copying the signals of record m, before which m timestamps were stored"""
    c = L.fc
    s = c.a(0)
    o = L.ex.read(c.this_loc)
    o0 = L.old(c.this_loc)
    n, d, d0 = nsig(s, 0), data(o), data(o0)
    if not L.outer:
        raise AnnotationMismatch("signals are copied outside the loop over the records")
    m = times(L.outer[-1].athead(c.this_loc)).hi
    done = d.hi - d0.hi
    j, _ = signal_cursor(L)
    return [("position", z3.And(0 <= j, j <= n, done == j, d.lo == 0, d0.hi == OFFSET(m))),
            ("kept", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < d0.hi), at(d, i) == at(d0, i)))),
            ("copied", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < j), at(d, d0.hi + i) == sig(s, m, i)),
                              patterns=lambda i: [sig(s, m, i)])),
            ("rest", z3.And(o.f["num_signals_"] == o0.f["num_signals_"], L.V.eq(times(o).data, times(o0).data), times(o).hi == times(o0).hi,
                            times(o).lo == 0))]


def signal_cursor(L):
    ex = L.ex
    its = []
    for did, l in ex.fr.env.items():
        if l.root in L.modroots():
            try:
                v = ex.read(l)
            except Exception:
                continue
            if isinstance(v, It) and isinstance(ex.read(v.loc), Seq) and not v.loc.same(L.fc.argv[0]):
                its.append((v.idx - ex.read(v.loc).lo, size(ex.read(v.loc))))
            elif isinstance(v, z3.ArithRef) and v.sort() == I:
                its.append((v, None))
    if len(its) != 1:
        raise AnnotationMismatch("position in the signals")
    return its[0]


def ctor_entry(c):
    define_offset(c, nsig(c.a(0), 0))


def times_kept_inv(L):
    """the timestamps are not changed while signals are copied"""
    o, o0 = L.ex.read(L.fc.this_loc), L.old(L.fc.this_loc)
    j, n = signal_cursor(L)
    if n is None:
        n = nsig(L.fc.a(0), 0)
    return [("timestamps-kept", z3.And(L.V.eq(times(o).data, times(o0).data), times(o).hi == times(o0).hi, times(o).lo == 0)),
            ("position", z3.And(0 <= j, j <= n))] + ([("count", o.f["num_signals_"] == o0.f["num_signals_"])])


CTOR = Contract("SideInput::SideInput", source_req, lambda c: stored(c.a(0), c.this1, c.a(0).hi) + inv(c.this1), None, ghost_entry=ctor_entry,
                loops=[LoopSpec("records", records_inv, head=records_head), LoopSpec("signals", signals_inv)])
# for the lookup only the timestamps matter
CTOR_TIMES = Contract("SideInput::SideInput", source_req, lambda c: stored(c.a(0), c.this1, c.a(0).hi, False) + [("increasing", increasing(times(c.this1)))],
                      None, ghost_entry=ctor_entry,
                      loops=[LoopSpec("records", lambda L: records_inv(L, False), head=records_head), LoopSpec("signals", times_kept_inv)])


def constructor_tasks(P, contract=CTOR, **k):
    return [Task("SideInput", "SideInput::SideInput", contract, [], nparams=1, **k), Task("OffsetMonotone", None, None, runner=offset_lemma)]
