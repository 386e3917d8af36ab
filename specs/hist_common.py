"""Shared vocabulary of the price history properties: functions taking a range [begin, end) of a price history."""
from specs.ind_common import *

UNITS = [("base/history.cc", ("trader::",))]


def range_args(ex, c, i=0):
    """two iterators into one sequence, lo <= begin <= end <= hi"""
    it = ex.read(c.argv[i])
    if not isinstance(it, It) or not isinstance(ex.read(c.argv[i + 1]), It):
        raise AnnotationMismatch("iterator range parameters")
    b, e = z3.Int("begin"), z3.Int("end")
    ex.write(c.argv[i], It(it.loc, b))
    ex.write(c.argv[i + 1], It(it.loc, e))
    s = ex.read(it.loc)
    ex.assume(z3.And(s.lo == 0, s.lo <= b, b <= e, e <= s.hi))


def rng(c, i=0):
    """sequence, begin and end position of the range"""
    it, e = c.a(i), c.a(i + 1)
    return c.at(c.pre, it.loc), it.idx, e.idx


def rec(s, k, f):
    return at(s, k, f)


def ts(s, k):
    return at(s, k, "timestamp_sec")


def ordered(s, b, e):
    return forall(2, lambda i, j: z3.Implies(z3.And(b <= i, i <= j, j < e), ts(s, i) <= ts(s, j)))


def outer_cursor(L, seqloc):
    """position (absolute index) of an enclosing loop over seqloc: the only iterator variable of the function that is
    neither a parameter nor modified by this loop"""
    ex = L.ex
    if L.outer:
        return L.outer[-1].place(seqloc, rng(L.fc)[1])
    params = {p["id"] for p in ex.fr.func.params}
    mr = L.modroots()
    out = []
    for did, l in ex.fr.env.items():
        if did in params or l.root in mr:
            continue
        try:
            v = ex.read(l)
        except Exception:
            continue
        if isinstance(v, It) and v.loc.same(seqloc):
            out.append(v.idx)
    if len(out) != 1:
        raise AnnotationMismatch("position of the enclosing loop")
    return out[0]


def carried_fields(L, seq, k, some, fields=("timestamp_sec",), offsets=(0,), tag=""):
    """guesses: a local variable carries a field of element k of a sequence, if there is one"""
    out = []
    for f in fields:
        x = at(seq, k, f)
        for nm, v in L.carried(x.sort()):
            for o in offsets:
                out.append(("%scarried:%s:%s:%s" % (tag, nm, f, o), z3.Implies(some, v == x + o)))
    return out


def carried_flags(L, some):
    """guesses: a flag tells whether there is a previous element"""
    return [("flag:%s:%s" % (nm, y), v == (some if y else z3.Not(some))) for nm, v in L.carried(B) for y in (True, False)]
