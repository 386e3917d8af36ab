"""E01: the simulation is causal.

Obligations at the events: an order is executed only as the next pending one, on the current tick, with the account configuration
and the account left by the previous event; the trader is updated only after all pending orders were executed, at most once per
tick, on ticks with volume, with the current tick, the account's balances and an empty order list, whose contents then become the
pending orders.  At the end of every tick all orders that were pending have been executed, and the trader has been updated if and
only if the tick has volume."""
from specs.eval_common import *

ASSUMES = ["an update emits its orders through the vector it is given"]
REPLAY = ("eval_oracle.cc", ["E01"], "eval")


def same(c, a, b):
    return c.V.eq(a, b)


def exec_req(c):
    m = main(c)
    p = G(c, "pend")
    k = G(c, "nexec")
    return [("before-the-update", z3.Not(G(c, "upd"))),
            ("next-pending-order", z3.And(k < size(p), same(c, c.a(1), c.V.sel(p.data, p.lo + k)))),
            ("current-tick", same(c, c.a(2), cur_tick(c))),
            ("account-configuration", same(c, c.a(0), m.a(CFG))),
            ("account", same(c, c.this, G(c, "acc")))]


def update_req(c):
    return [("once-per-tick", z3.Not(G(c, "upd"))),
            ("pending-orders-executed-first", G(c, "nexec") == size(G(c, "pend"))),
            ("tick-with-volume", cur_tick(c).f["volume"] != 0),
            ("current-tick", same(c, c.a(0), cur_tick(c))),
            ("balances", z3.And(c.a(2) == G(c, "acc").f["base_balance"], c.a(3) == G(c, "acc").f["quote_balance"])),
            ("no-orders-yet", size(c.a(4)) == 0)]


def init_req(c):
    return [("account-configuration", same(c, c.a(0), main(c).a(CFG))), ("before-the-first-tick", G(c, "ticks") == 0)]


def same_orders(V, a, b):
    return z3.And(size(a) == size(b), forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < size(a)), V.eq(V.sel(a.data, a.lo + i), V.sel(b.data, b.lo + i)))))


def state_inv(L):
    c = L.fc
    return [("account", L.V.eq(account_of(L), G(c, "acc"))), ("pending-orders", same_orders(L.V, orders_of(L), G(c, "pend")))]


def tick_step(L):
    c = L.fc
    vol = cur_tick(c).f["volume"]
    L.ex.oblige("ExecuteTrader/tick:updated-iff-volume", G(c, "upd") == (vol != 0), None, "inv")
    L.ex.oblige("ExecuteTrader/tick:all-pending-executed", z3.Or(G(c, "upd"), G(c, "nexec") == size(G(c, "pend"))), None, "inv")


def orders_inv(L, j):
    c = L.fc
    return [("executed", G(c, "nexec") == j), ("before-the-update", z3.Not(G(c, "upd")))] + state_inv(L)


EVENTS = events(INIT={"requires": init_req}, EXEC={"requires": exec_req}, UPDATE={"requires": update_req})
C = Contract("ExecuteTrader", None, all_visited, None, ghost_entry=entry,
             loops=[tick_loop(state_inv, tick_step), order_loop(orders_inv)])


def tasks(P):
    return [Task("ExecuteTrader", "ExecuteTrader", C, EVENTS + VOL + SIDE_CALLS, setup=setup)]
