"""H03: outlier removal partitions the history by the documented jump rule.
Ghost functions over record positions k: LAST(k) is the last kept record before k (or begin-1), KEPT(k) the number of
kept records before k, CONF(k, j, a) the number of confirmations of k's jump from record j on when a valid records have
been looked at."""
from specs.hist_common import *

ASSUMES = ["floating-point arithmetic is exact (real numbers); no NaN", "sqrt is an uninterpreted function"]
REPLAY = ("history_oracle.cc", ["H03"], "history")
LAST = z3.Function("LAST", I, I)
KEPT = z3.Function("KEPT", I, I)
CONF = z3.Function("CONF", I, I, I, I)
KEEP = z3.Function("KEEP", I, B)
PERSIST, LOOKAHEAD = 3, 10


def f32(x):
    import struct
    from fractions import Fraction
    fr = Fraction(struct.unpack("f", struct.pack("f", x))[0])
    return z3.Q(fr.numerator, fr.denominator)


def setup(ex, c):
    range_args(ex, c)


def valid(s, k):
    return z3.And(rec(s, k, "price") > 0, rec(s, k, "volume") >= 0)


def jump(c, k):
    """thresholds of record k seen from the last kept record: (jumped up, jumped down, 80% up, 80% down)"""
    s, b, e = rng(c)
    ref, price = rec(s, LAST(k), "price"), rec(s, k, "price")
    mins = z3.ToReal(ts(s, k) - ts(s, LAST(k))) / 60
    mins = z3.If(mins > 1, mins, z3.RealVal(1))
    factor = (1 + c.a(2)) * AR.SQRT(mins)
    up, down = ref * factor, ref / factor
    return price > up, price < down, f32(0.8) * up + f32(0.2) * ref, f32(0.8) * down + f32(0.2) * ref


def confirms(c, k, j):
    s, b, e = rng(c)
    u, d, mu, md = jump(c, k)
    return z3.Or(z3.And(u, rec(s, j, "price") > mu), z3.And(d, rec(s, j, "price") < md))


def outlier(c, k):
    u, d, _, _ = jump(c, k)
    return z3.And(z3.Or(u, d), CONF(k, k + 1, 0) < PERSIST)


def conf_rec(c, k, j, a):
    s, b, e = rng(c)
    return CONF(k, j, a) == z3.If(z3.Or(j >= e, a >= LOOKAHEAD), 0, z3.If(
        valid(s, j), z3.If(confirms(c, k, j), 1, 0) + CONF(k, j + 1, a + 1), CONF(k, j + 1, a)))


def keep_def(c, k):
    s, b, e = rng(c)
    return z3.Implies(z3.And(b <= k, k < e), z3.And(
        KEEP(k) == z3.And(valid(s, k), z3.Or(LAST(k) < b, z3.Not(outlier(c, k)))),
        LAST(k + 1) == z3.If(KEEP(k), k, LAST(k)), KEPT(k + 1) == KEPT(k) + z3.If(KEEP(k), 1, 0)))


def define(c):
    s, b, e = rng(c)
    A = c.ex.assume
    A(z3.And(LAST(b) == b - 1, KEPT(b) == 0))
    A(forall(1, lambda k: keep_def(c, k), patterns=lambda k: [KEEP(k)]))
    A(forall(3, lambda k, j, a: z3.Implies(z3.And(b <= k, k < j, j <= e, a >= 0), conf_rec(c, k, j, a)),
             patterns=lambda k, j, a: [CONF(k, j, a)]))
    A(forall(3, lambda k, j, a: CONF(k, j, a) >= 0, patterns=lambda k, j, a: [CONF(k, j, a)]))      # lemma NonNegative


def requires(c):
    return [("deviation", c.a(2) >= 0)]


def out_state(c, clean, idx, idx0, p):
    """after the records before position p"""
    s, b, e = rng(c)
    r = [("cleaned-size", size(clean) == KEPT(p)),
         ("kept-records-unchanged-in-order", forall(1, lambda k: z3.Implies(z3.And(b <= k, k < p, KEEP(k)), z3.And(
             0 <= KEPT(k), KEPT(k) < KEPT(p), c.V.eq(c.V.sel(clean.data, clean.lo + KEPT(k)), c.V.sel(s.data, k)))), patterns=lambda k: [KEEP(k)]))]
    if idx is not None:
        r += [("outliers-reported-in-order", z3.And(idx.lo == idx0.lo, size(idx) == size(idx0) + p - b - KEPT(p), forall(1, lambda k: z3.Implies(
            z3.And(b <= k, k < p, z3.Not(KEEP(k))), z3.And(0 <= k - b - KEPT(k), k - b - KEPT(k) < p - b - KEPT(p), at(idx, idx0.hi + k - b - KEPT(k)) == k - b)), patterns=lambda k: [KEEP(k)]))),
            ("earlier-output-kept", forall(1, lambda i: z3.Implies(z3.And(idx0.lo <= i, i < idx0.hi), at(idx, i) == at(idx0, i))))]
    return r


def indices(c, store):
    p = c.a(3)
    if not isinstance(p, Ptr) or p.loc is None:
        raise AnnotationMismatch("output pointer")
    return c.at(store, p.loc), p.null


def ensures(c):
    s, b, e = rng(c)
    idx0, null = indices(c, c.pre)
    idx, _ = indices(c, c.post)
    return [(n, z3.Or(null, g) if "report" in n or "earlier" in n else g) for n, g in out_state(c, c.res, idx, idx0, e)] + [
        ("counting", z3.And(size(c.res) <= e - b))]


def outer_inv(L):
    c = L.fc
    s, b, e = rng(c)
    p = L.place(c.a(0).loc, b)
    clean = L.val("price_history_clean", lambda v: isinstance(v, Seq) and isinstance(v.data, Rec), True)
    idx0, null = indices(c, c.pre)
    idx, _ = indices(c, L.ex.store)
    return [("position", z3.And(b <= p, p <= e)), ("start", clean.lo == 0),
            ("last", z3.And(b - 1 <= LAST(p), LAST(p) < p, KEPT(p) >= 0, KEPT(p) <= p - b)),
            ("first", (LAST(p) < b) == (KEPT(p) == 0)),
            ("last-kept", z3.Implies(LAST(p) >= b, L.V.eq(L.V.sel(clean.data, clean.hi - 1), L.V.sel(s.data, LAST(p)))))] + [
        (n, z3.Or(null, g) if "report" in n or "earlier" in n else g) for n, g in out_state(c, clean, idx, idx0, p)]


def counters(L):
    """number of valid records looked at (it bounds the loop) and of those that confirm the jump"""
    try:
        return L.val("lookahead"), L.val("lookahead_persistent")
    except AnnotationMismatch:
        ints = L.counters()
        inc = [l for l in ints if L.tested(l)]
        if len(ints) != 2 or len(inc) != 1:
            raise
        return L.ex.read(inc[0]), L.ex.read([l for l in ints if l is not inc[0]][0])


def ahead(L, k):
    """the record the look-ahead comes to next: the one after record k when it starts"""
    return k + 1 + L.moved(L.fc.a(0).loc)


def look_inv(L):
    c = L.fc
    s, b, e = rng(c)
    k = outer_cursor(L, c.a(0).loc)
    j = ahead(L, k)
    seen, conf = counters(L)
    return [("position", z3.And(k + 1 <= j, j <= e)), ("seen", z3.And(0 <= seen, seen <= LOOKAHEAD)), ("confirmed", conf >= 0),
            ("rest", conf + CONF(k, j, seen) == CONF(k, k + 1, 0)), ("prev", CONF(k, j, seen) >= 0)]


def outer_head(L):
    """the definitions at the current record"""
    c = L.fc
    return [keep_def(c, L.place(c.a(0).loc, rng(c)[1]))]


def look_head(L):
    c = L.fc
    s, b, e = rng(c)
    k, seen = outer_cursor(L, c.a(0).loc), counters(L)[0]
    j = ahead(L, k)
    return [z3.Implies(z3.And(b <= k, k < j, j <= e, seen >= 0), conf_rec(c, k, j, seen))]


C = Contract("RemoveOutliers", requires, ensures, None, ghost_entry=define,
             loops=[LoopSpec("records", outer_inv, head=outer_head), LoopSpec("look-ahead", look_inv, head=look_head)])


def lemma_runner(task, ex):
    """CONF >= 0 by induction on the number of remaining records"""
    k, j, a, e = z3.Ints("k j a e")
    v, cf = z3.Bools("valid confirms")
    ex.assume(forall(1, lambda i: z3.And(CONF(k, j + 1, i) >= 0)))
    ex.assume(CONF(k, j, a) == z3.If(z3.Or(j >= e, a >= LOOKAHEAD), 0, z3.If(v, z3.If(cf, 1, 0) + CONF(k, j + 1, a + 1), CONF(k, j + 1, a))))
    ex.oblige("lemma:NonNegative", CONF(k, j, a) >= 0, None, "lemma")
    ex.pc = []


def tasks(P):
    return [Task("RemoveOutliers", "RemoveOutliers", C, [], mode="real", setup=setup),
            Task("NonNegative", None, None, runner=lemma_runner, mode="real")]
