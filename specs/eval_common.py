"""Shared vocabulary of the simulation properties (E01..E04): ExecuteTrader under contract with ghost monitors.

ExecuteTrader is verified against the contracts of what it calls.  The contracts of Account::ExecuteOrder, Trader::Update and
Logger (the observable events of a simulation) carry ghost code: their preconditions state what must hold when the event happens,
their effects record it.  The ghost state is

  ticks   ticks completely processed          pend    the orders emitted by the most recent update
  nexec   pending orders executed on the      upd     the trader has been updated on the current tick
          current tick                        acc     the account, as left by the last event
  count   successfully executed orders        (more per property)
"""
from specs.hist_common import *

UNITS = [("eval/eval.cc", ("trader::", "(anonymous namespace)::"))]
GHOSTS = {"Volatility": [("$h", "int64_t")]}
CFG, BEGIN, END, SIDE, FAST, TRADER, LOGGER = range(7)


def main(c):
    return c.ex.task.ctx_of(c.ex)


def G(c, name):
    """value of a ghost variable"""
    m = main(c)
    return m.ex.read(m.ghost[name])


def setG(c, name, v):
    m = main(c)
    m.ex.write(m.ghost[name], v)


def new_ghost(c, name, v):
    c.ghost[name] = c.ex.new_root("ghost." + name, v)


def setup(ex, c):
    range_args(ex, c, BEGIN)


def history(c):
    m = main(c)
    return rng(m, BEGIN)


def cur_tick(c):
    s, b, e = history(c)
    return c.V.sel(s.data, b + G(c, "ticks"))


def num_ticks(c):
    s, b, e = history(c)
    return e - b


def ptr_null(c, i):
    p = main(c).a(i)
    if not isinstance(p, Ptr):
        raise AnnotationMismatch("pointer parameter %d" % i)
    return p.null


def has_logger(c):
    return z3.Not(ptr_null(c, LOGGER))


def has_side(c):
    return z3.Not(ptr_null(c, SIDE))


def entry(c):
    t = lambda s: c.ex.tt.parse(s)
    new_ghost(c, "ticks", z3.IntVal(0))
    new_ghost(c, "nexec", z3.IntVal(0))
    new_ghost(c, "count", z3.IntVal(0))
    new_ghost(c, "upd", z3.BoolVal(False))
    new_ghost(c, "acc", c.ex.fresh(t("trader::Account"), "acc"))
    p = c.ex.fresh(t("std::vector<trader::Order>"), "pend")
    new_ghost(c, "pend", Seq(p.et, p.data, z3.IntVal(0), z3.IntVal(0), p.kind))


def is_account(v):
    return isinstance(v, Rec) and "base_balance" in v.f and "total_fee" in v.f


def is_orders(v):
    return isinstance(v, Seq) and isinstance(v.data, Rec) and "side" in v.data.f


def account_of(L):
    return L.ex.read(L.loc("account", is_account))


def orders_of(L):
    return L.ex.read(L.loc("orders", is_orders))


# ---- events.  Every property adds its own requirements
class Event:
    """contract of an event: requirements by name, ghost effect"""

    def __init__(self, key, nparams, effect, modifies=None, pick=None):
        self.key, self.nparams, self.eff, self.modifies, self.pick = key, nparams, effect, modifies, pick

    def contract(self, requires=None, effect=None, ensures=None):
        def eff(c):
            self.eff(c)
            if effect:
                effect(c)
        return Contract(self.key, requires, ensures, self.modifies, nparams=self.nparams, effect=eff, pick=self.pick)


def init_effect(c):
    setG(c, "acc", c.this1)


def exec_effect(c):
    setG(c, "acc", c.this1)
    setG(c, "nexec", G(c, "nexec") + 1)
    setG(c, "count", z3.If(c.res, G(c, "count") + 1, G(c, "count")))


def update_effect(c):
    setG(c, "pend", c.a1(4))
    setG(c, "upd", z3.BoolVal(True))


INIT = Event("Account::InitAccount", 1, init_effect)
EXEC = Event("Account::ExecuteOrder", 3, exec_effect)
UPDATE = Event("Trader::Update", 5, update_effect)
LOG_TICK = Event("Logger::LogExchangeState", 2, lambda c: None, lambda c: [])
LOG_ORDER = Event("Logger::LogExchangeState", 3, lambda c: None, lambda c: [])
LOG_STATE = Event("Logger::LogTraderState", 1, lambda c: None, lambda c: [])
STATE = Event("Trader::GetInternalState", 0, lambda c: None, lambda c: [])

# the rest of what ExecuteTrader calls
VOL = [Contract("Volatility::Volatility", None, None), Contract("Volatility::Update", None, None, nparams=3),
       Contract("Volatility::GetVolatility", None, None, lambda c: [])]
SIDE_CALLS = [Contract("SideInput::GetNumberOfSignals", None, lambda c: [("", c.res >= 0)], lambda c: []),
              Contract("SideInput::GetSideInputIndex", None, lambda c: [("", c.res >= -1)], lambda c: []),
              Contract("SideInput::GetSideInputTimestamp", None, None, lambda c: []),
              Contract("SideInput::GetSideInputSignals", None, None)]


def events(**k):
    """contracts of all events; k: name -> dict(requires=.., effect=.., ensures=..)"""
    out = []
    for nm, e in (("INIT", INIT), ("EXEC", EXEC), ("UPDATE", UPDATE), ("LOG_TICK", LOG_TICK), ("LOG_ORDER", LOG_ORDER),
                  ("LOG_STATE", LOG_STATE), ("STATE", STATE)):
        out.append(e.contract(**k.get(nm, {})))
    return out


# ---- loops
def depth(L):
    return len(L.nest())


def position(L):
    return L.moved(L.fc.a(BEGIN).loc)


def tick_loop(inv, step=None, ghosts=(), head=None):
    """the loop over the ticks: the ghost tick counter follows it"""
    def invariant(L):
        k = position(L)
        return [("position", z3.And(0 <= k, k <= num_ticks(L.fc), G(L.fc, "ticks") == k)),
                ("nothing-happened-on-this-tick", z3.And(G(L.fc, "nexec") == 0, z3.Not(G(L.fc, "upd"))))] + inv(L)

    def stp(L):
        if step:
            step(L)
        setG(L.fc, "ticks", G(L.fc, "ticks") + 1)
        setG(L.fc, "nexec", z3.IntVal(0))
        setG(L.fc, "upd", z3.BoolVal(False))
    return LoopSpec("ticks", invariant, step=stp, ghosts=lambda L: [L.fc.ghost[g] for g in ("ticks", "nexec", "upd") + tuple(ghosts)],
                    applies=lambda L: depth(L) == 1, head=head, candidates=tick_guess)


def tick_guess(L):
    """guesses: locals that carry a price or the time of the previous tick, tell whether there was one, or count the ticks"""
    s, b, e = history(L.fc)
    k = position(L)
    out = carried_fields(L, s, b + k - 1, k > 0, ("timestamp_sec", "open", "high", "low", "close", "volume")) + carried_flags(L, k > 0)
    out.append(("not-at-the-end", b + k < e))      # where the loop tests for the end after a tick
    for nm, v in L.carried(z3.IntSort()):
        out += [("ticks:%s:%d" % (nm, o), v == k + o) for o in (0, -1)]
    return out


def order_loop(inv):
    """the loop over the pending orders of one tick"""
    def invariant(L):
        j = L.cursor()
        return [("position", z3.And(0 <= j, j <= size(orders_of(L))))] + inv(L, j)
    return LoopSpec("orders", invariant, applies=lambda L: depth(L) == 2)


def all_visited(c):
    return [("every-tick-visited", G(c, "ticks") == num_ticks(c))]
