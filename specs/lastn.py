"""Contracts of LastNOhlcTicks, and the rule by which its observers see the window change."""
from specs.ind_common import *

CLS = "LastNOhlcTicks"
TS_MAX = 2 ** 61
# $s: the window as the observers last saw it; $q: index (timestamp / period) of the last tick
GHOSTS = {CLS: [("$s", "std::deque<OhlcTick>"), ("$q", "int64_t")]}
UPD, NEW, REM = "last_tick_updated_callback_", "new_tick_added_callback_", "new_tick_added_and_oldest_tick_removed_callback_"


def win(v):
    return seq(v, "last_n_ohlc_ticks_")


def tick_at(V, s, k):
    return V.sel(s.data, k)


def valid_tick(t):
    o, h, l, c = (t.f[k] for k in ("open", "high", "low", "close"))
    return z3.And(l > 0, l <= o, l <= c, o <= h, c <= h, t.f["volume"] >= 0)


def all_valid(V, s):
    return forall(1, lambda k: z3.Implies(z3.And(s.lo <= k, k < s.hi), valid_tick(tick_at(V, s, k))))


def same_range(V, a, b, lo, hi):
    """a[k] == b[k] for lo <= k < hi"""
    if V.same(a.data, b.data):
        return z3.BoolVal(True)
    return forall(1, lambda k: z3.Implies(z3.And(lo <= k, k < hi), V.eq(tick_at(V, a, k), tick_at(V, b, k))))


def event(V, kind, s, d, old, new, N):
    """The window changed from s to d in one step of the given kind and the observer is told (old, new)."""
    out = [("new-tick-is-last", z3.And(d.lo < d.hi, V.eq(new, tick_at(V, d, d.hi - 1)))), ("at-most-N", d.hi - d.lo <= N)]
    if kind == UPD:
        out += [("last-tick-revised", z3.And(d.lo == s.lo, d.hi == s.hi, same_range(V, d, s, s.lo, s.hi - 1))),
                ("previous-tick", V.eq(old, tick_at(V, s, s.hi - 1))),
                ("open-kept", z3.And(new.f["open"] == old.f["open"], new.f["timestamp_sec"] == old.f["timestamp_sec"],
                                     new.f["high"] >= old.f["high"], new.f["low"] <= old.f["low"]))]
    elif kind == NEW:
        out += [("tick-appended", z3.And(d.lo == s.lo, d.hi == s.hi + 1, same_range(V, d, s, s.lo, s.hi)))]
    else:
        out += [("tick-appended-oldest-removed", z3.And(d.lo == s.lo + 1, d.hi == s.hi + 1, s.hi - s.lo == N,
                                                        same_range(V, d, s, d.lo, s.hi))),
                ("removed-tick", V.eq(old, tick_at(V, s, s.lo)))]
    return out


def requires(notify, valid):
    def f(c):
        m, t = c.this, c.a(0)
        d, N, P = win(m), fld(m, "num_ohlc_ticks_"), fld(m, "period_size_sec_")
        ne = d.hi > d.lo
        out = [("parameters", z3.And(N >= 1, P >= 1)),
               ("window-size", z3.And(d.hi - d.lo <= N, d.lo >= 0)),
               ("timestamp", z3.And(t.f["timestamp_sec"] >= 0, t.f["timestamp_sec"] <= TS_MAX)),
               ("aligned-window", z3.Implies(ne, z3.And(at(d, d.hi - 1, "timestamp_sec") == P * fld(m, "$q"), fld(m, "$q") >= 0))),
               ("chronological", z3.Implies(ne, fld(m, "$q") <= AR.TDIV(t.f["timestamp_sec"], P)))]
        if notify:
            s = fld(m, "$s")
            out += [("observers-set", z3.And(*[fld(m, k).isset for k in (UPD, NEW, REM)])),
                    ("observers-up-to-date", c.V.eq(s, d))]
        if valid:
            out += [("valid-ticks", z3.And(valid_tick(t), all_valid(c.V, d)))]
        return out
    return f


def flat(V, d, d0, P, q0, k):
    t, p = tick_at(V, d, k), at(d0, d0.hi - 1, "close")
    return z3.And(t.f["timestamp_sec"] == P * (q0 + (k - d0.hi + 1)), t.f["open"] == p, t.f["high"] == p, t.f["low"] == p,
                  t.f["close"] == p, t.f["volume"] == 0)


def gap_inv(notify, valid):
    def f(L):
        m, m0, V = L.ex.read(L.fc.this_loc), L.fc.this, L.V
        d, d0, N, P, q0 = win(m), win(m0), fld(m, "num_ohlc_ticks_"), fld(m, "period_size_sec_"), fld(m0, "$q")
        ne = d0.hi > d0.lo
        a = AR.TDIV(L.fc.a(0).f["timestamp_sec"], P)
        k = d.hi - d0.hi
        out = [("window-grows", z3.And(d.hi >= d0.hi, z3.Implies(z3.Not(ne), d.hi == d0.hi), d.lo == z3.If(d0.lo > d.hi - N, d0.lo, d.hi - N))),
               ("old-ticks-kept", same_range(V, d, d0, d.lo, d0.hi)),
               ("gap-ticks-flat", forall(1, lambda k: z3.Implies(z3.And(d.lo <= k, d0.hi <= k, k < d.hi), flat(V, d, d0, P, q0, k)))),
               ("last-tick", z3.Implies(ne, z3.And(q0 + k <= a, z3.Implies(k > 0, q0 + k < a), at(d, d.hi - 1, "timestamp_sec") == P * (q0 + k),
                                                   at(d, d.hi - 1, "close") == at(d0, d0.hi - 1, "close"))))]
        if notify:
            out.append(("observers-up-to-date", V.eq(fld(m, "$s"), d)))
        if valid:
            out.append(("valid-ticks", all_valid(V, d)))
        return out
    return f


def gap_guess(L):
    """a local variable may run along with the timestamp of the last tick, or of the next one"""
    m, m0 = L.ex.read(L.fc.this_loc), L.fc.this
    d, d0, P, q0 = win(m), win(m0), fld(m, "period_size_sec_"), fld(m0, "$q")
    ts = P * (q0 + (d.hi - d0.hi))
    return [("carried:%s:%d" % (nm, o), z3.Implies(d0.hi > d0.lo, v == ts + o * P)) for nm, v in L.carried(I) for o in (0, 1)]


def gap_measure(L):
    m, m0 = L.ex.read(L.fc.this_loc), L.fc.this
    a = AR.TDIV(L.fc.a(0).f["timestamp_sec"], fld(m, "period_size_sec_"))
    return a - fld(m0, "$q") - (win(m).hi - win(m0).hi)


def window_post(c):
    """window after = the last N of (window before, gap ticks, tick) with same-period ticks merged"""
    V, m0, m, t = c.V, c.this, c.this1, c.a(0)
    d0, d, N, P = win(m0), win(m), fld(m0, "num_ohlc_ticks_"), fld(m0, "period_size_sec_")
    q0 = fld(m0, "$q")
    a = AR.TDIV(t.f["timestamp_sec"], P)
    ne = d0.hi > d0.lo
    merged = z3.And(ne, q0 == a)
    last, prev = tick_at(V, d, d.hi - 1), tick_at(V, d0, d0.hi - 1)
    f = lambda r, *ks: [r.f[k] for k in ks]
    keep = [k for k in last.f if k not in ("timestamp_sec", "open", "high", "low", "close", "volume")]
    return [("number-of-ticks", d.hi == z3.If(ne, d0.hi + (a - q0), d0.hi + 1)),
            ("window-is-last-N", d.lo == z3.If(d0.lo > d.hi - N, d0.lo, d.hi - N)),
            ("period-aligned", last.f["timestamp_sec"] == P * a),
            ("older-ticks-kept", same_range(V, d, d0, d.lo, d0.hi - 1)),
            ("previous-tick-kept", z3.Implies(z3.And(ne, z3.Not(merged), d.lo < d0.hi), V.eq(tick_at(V, d, d0.hi - 1), prev))),
            ("gap-ticks-flat", forall(1, lambda k: z3.Implies(z3.And(ne, d.lo <= k, d0.hi <= k, k < d.hi - 1), flat(V, d, d0, P, q0, k)))),
            ("new-tick", z3.Implies(z3.Not(merged), z3.And(*[last.f[k] == t.f[k] for k in ("open", "high", "low", "close", "volume")]))),
            ("merged-tick", z3.Implies(merged, z3.And(
                last.f["open"] == prev.f["open"], last.f["high"] == AR.fmax(prev.f["high"], t.f["high"]),
                last.f["low"] == AR.fmin(prev.f["low"], t.f["low"]), last.f["close"] == t.f["close"],
                last.f["volume"] == AR.fop(c.ex.mode, "+", prev.f["volume"], t.f["volume"])))),
            ("index", fld(m, "$q") == a)]


def post(notify, valid):
    def f(c):
        out = window_post(c) if not notify else []
        if notify:
            out.append(("observers-up-to-date", c.V.eq(fld(c.this1, "$s"), win(c.this1))))
        if valid:
            out.append(("valid-ticks", all_valid(c.V, win(c.this1))))
        return out
    return f


def g_exit(c):
    c.ex.write(c.this_loc.sub("$q"), AR.TDIV(c.a(0).f["timestamp_sec"], fld(c.this, "period_size_sec_")))


def mods(c):
    return [c.this_loc.sub("last_n_ohlc_ticks_"), c.this_loc.sub("$q"), c.this_loc.sub("$s")]


def kind_of(v):
    n = str(v.target[1]).split(".")[-1] if v.target else ""
    if n not in (UPD, NEW, REM):
        raise AnnotationMismatch("observer %s" % n)
    return n


def observer(notify):
    def h(ex, v, args):
        if not notify:
            return None
        kind = kind_of(v)
        c = ex.task.ctx_of(ex)
        m = ex.read(c.this_loc)
        vals = [ex.rvalue(a) for a in args]
        if len(vals) != (1 if kind == NEW else 2):
            raise AnnotationMismatch("observer arguments")
        for nm, g in event(ex.V, kind, fld(m, "$s"), win(m), vals[0], vals[-1], fld(m, "num_ohlc_ticks_")):
            ex.oblige("Update/notify:%s:%s" % (kind.replace("_callback_", ""), nm), g, None, "notify")
        ex.write(c.this_loc.sub("$s"), win(m))
        return None
    return h


def update_task(name, notify, valid, mode):
    C = Contract(CLS + "::Update", requires(notify, valid), post(notify, valid), mods, ghost_exit=g_exit,
                 loops=[LoopSpec("fill-gap", gap_inv(notify, valid), measure=gap_measure, candidates=gap_guess)])
    return Task(name, CLS + "::Update", C, [], mode=mode, callback=observer(notify))


def register_task(fn, field):
    def ens(c):
        return [("observer-stored", z3.And(fld(c.this1, field).isset == c.a(0).isset,
                                           z3.BoolVal(fld(c.this1, field).target == c.a(0).target)))]
    C = Contract(CLS + "::" + fn, None, ens, lambda c: [c.this_loc.sub(field)])
    return Task(fn, CLS + "::" + fn, C, [])
