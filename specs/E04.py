"""E04: the log shows every tick, and every executed order right after its execution.

Ghost state of the log: logt (the tick was logged), owed (an executed order has not been logged yet), last (that order), logs (the
trader state was logged after the update), state (number of updates; the trader's internal state is STATE of it)."""
from specs.eval_common import *

REPLAY = ("eval_oracle.cc", ["E04"], "eval")
ASSUMES = ["the trader's internal state changes only by updates"]
STATE_OF = z3.Function("STATE", I, AR.string_literal('""').sort())


def entry4(c):
    entry(c)
    for g in ("logt", "owed", "logs"):
        new_ghost(c, g, z3.BoolVal(False))
    new_ghost(c, "last", c.ex.fresh(c.ex.tt.parse("trader::Order"), "last"))
    new_ghost(c, "state", z3.IntVal(0))


def the_logger(c):
    return [("the-logger", z3.BoolVal(c.this_loc.same(main(c).a(LOGGER).loc)))]


def log_tick_req(c):
    return the_logger(c) + [("once-per-tick", z3.Not(G(c, "logt"))),
                            ("before-the-orders", z3.And(G(c, "nexec") == 0, z3.Not(G(c, "upd")))),
                            ("current-tick", c.V.eq(c.a(0), cur_tick(c))), ("account", c.V.eq(c.a(1), G(c, "acc")))]


def exec_req(c):
    return [("tick-logged-before", z3.Implies(has_logger(c), G(c, "logt"))), ("previous-order-logged", z3.Implies(has_logger(c), z3.Not(G(c, "owed"))))]


def exec_eff(c):
    setG(c, "owed", c.res)
    setG(c, "last", c.a(1))


def log_order_req(c):
    return the_logger(c) + [("just-executed", G(c, "owed")), ("current-tick", c.V.eq(c.a(0), cur_tick(c))),
                            ("account-after-the-order", c.V.eq(c.a(1), G(c, "acc"))), ("the-order", c.V.eq(c.a(2), G(c, "last")))]


def update_req(c):
    return [("tick-logged-before", z3.Implies(has_logger(c), G(c, "logt"))), ("executed-orders-logged", z3.Implies(has_logger(c), z3.Not(G(c, "owed"))))]


def log_state_req(c):
    return the_logger(c) + [("after-the-update", G(c, "upd")), ("once-per-update", z3.Not(G(c, "logs"))), ("state-after-the-update", c.a(0) == STATE_OF(G(c, "state")))]


def set_true(name):
    return lambda c: setG(c, name, z3.BoolVal(True))


def tick_step(L):
    c, ex = L.fc, L.ex
    lg = has_logger(c)
    ex.oblige("ExecuteTrader/tick:logged", z3.Implies(lg, G(c, "logt")), None, "inv")
    ex.oblige("ExecuteTrader/tick:executed-orders-logged", z3.Implies(lg, z3.Not(G(c, "owed"))), None, "inv")
    ex.oblige("ExecuteTrader/tick:state-logged-after-update", z3.Implies(lg, G(c, "logs") == G(c, "upd")), None, "inv")
    setG(c, "logt", z3.BoolVal(False))
    setG(c, "logs", z3.BoolVal(False))
    setG(c, "owed", z3.BoolVal(False))


def inv(L):
    c = L.fc
    return [("account", L.V.eq(account_of(L), G(c, "acc"))), ("nothing-logged-on-this-tick", z3.Not(z3.Or(G(c, "logt"), G(c, "logs"), G(c, "owed"))))]


def orders_inv(L, j):
    c = L.fc
    return [("account", L.V.eq(account_of(L), G(c, "acc"))), ("executed-orders-logged", z3.Implies(has_logger(c), z3.Not(G(c, "owed"))))]


EVENTS = events(LOG_TICK={"requires": log_tick_req, "effect": set_true("logt")},
                EXEC={"requires": exec_req, "effect": exec_eff},
                LOG_ORDER={"requires": log_order_req, "effect": lambda c: setG(c, "owed", z3.BoolVal(False))},
                UPDATE={"requires": update_req, "effect": lambda c: setG(c, "state", G(c, "state") + 1)},
                STATE={"ensures": lambda c: [("", c.res == STATE_OF(G(c, "state")))]},
                LOG_STATE={"requires": log_state_req, "effect": set_true("logs")})
C = Contract("ExecuteTrader", None, all_visited, None, ghost_entry=entry4,
             loops=[tick_loop(inv, tick_step, ("logt", "logs", "owed")), order_loop(orders_inv)])


def tasks(P):
    return [Task("ExecuteTrader", "ExecuteTrader", C, EVENTS + VOL + SIDE_CALLS, setup=setup)]
