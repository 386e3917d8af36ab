"""I01: the last-N tick window equals resampling the update history; observers see every change exactly once."""
from specs.lastn import *
from specs import lastn as M

UNITS = [("indicators/last_n_ohlc_ticks.cc", ("trader::",))]
GHOSTS = M.GHOSTS
ASSUMES = ["timestamps up to 2^61", "observers do not call back into the window they observe",
           "single-precision rounding of the added volumes is an arbitrary monotone function"]
REPLAY = ("indicators_oracle.cc", ["I01"], "indicators")


def get_post(c):
    return [("returns-window", c.V.eq(c.res, win(c.this)))]


def ctor_post(c):
    m = c.this1
    d = win(m)
    return [("empty", d.lo == d.hi), ("parameters", z3.And(fld(m, "num_ohlc_ticks_") == c.a(0), fld(m, "period_size_sec_") == c.a(1))),
            ("no-observers", z3.And(*[z3.Not(fld(m, k).isset) for k in (UPD, NEW, REM)]))]


def tasks(P):
    out = [update_task("UpdateWindow", False, False, "rnd"), update_task("UpdateNotifies", True, False, "rnd"),
           update_task("UpdateValid", False, True, "rnd"),
           register_task("RegisterLastTickUpdatedCallback", UPD), register_task("RegisterNewTickAddedCallback", NEW),
           register_task("RegisterNewTickAddedAndOldestTickRemovedCallback", REM),
           Task("GetLastNOhlcTicks", CLS + "::GetLastNOhlcTicks", Contract(CLS + "::GetLastNOhlcTicks", None, get_post, lambda c: []), []),
           Task("Constructor", CLS + "::" + CLS, Contract(CLS + "::" + CLS, lambda c: [("parameters", z3.And(c.a(0) >= 1, c.a(1) >= 1))],
                                                          ctor_post, lambda c: [c.this_loc], nparams=2), [], nparams=2)]
    return out
