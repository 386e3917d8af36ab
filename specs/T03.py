"""T03: batches contain every parameter combination exactly once.

FLAT(i, j, ..) is the position of the combination (i, j, ..) in the lexicographic enumeration, built from the block offsets
W_k(x) = x * (length of the k-th list).  The invariant of every loop of the nest is the same: the positions below the current size
hold the emitters of their combinations."""
from specs.trader_common import *

UNITS = [("traders/rebalancing_trader.cc", ("trader::",)), ("traders/stop_trader.cc", ("trader::",)),
         ("traders/trader_factory.cc", ("trader::", "(anonymous namespace)::"))]
ASSUMES = ["the number of combinations is below 2^31"]
PLAN = [("cvc5", 2), ("z3-new", 3), ("z3", 3), ("cvc5", 30), ("z3-new", 30), ("z3", 20)]
REPLAY = ("traders_oracle.cc", ["T03"], "traders")
W = [z3.Function("W%d" % k, I, I) for k in range(4)]
FLATF = {2: z3.Function("FLAT2", I, I, I), 4: z3.Function("FLAT4", I, I, I, I, I)}
REB, STP = "RebalancingTraderEmitter", "StopTraderEmitter"
FIELDS = {REB: ["alpha", "epsilon"],
          STP: ["stop_order_margin", "stop_order_move_margin", "stop_order_increase_per_day", "stop_order_decrease_per_day"]}


def flat(ix):
    return FLATF[len(ix)](*ix)


def flat_def(ix):
    x = ix[0]
    for k in range(1, len(ix)):
        x = W[k](x) + ix[k]
    return x


def lens(c, n):
    return [size(c.a(k)) for k in range(n)]


def in_range(ix, ns):
    return z3.And(*[z3.And(0 <= i, i < n) for i, n in zip(ix, ns)])


def step_facts(ns, x, k):
    return W[k](x + 1) == W[k](x) + ns[k]


def entry(n):
    def f(c):
        ns = lens(c, n)
        A = c.ex.assume
        for k in range(1, n):
            w = W[k]
            A(w(0) == 0)
            A(forall(1, lambda x: z3.Implies(x >= 0, z3.And(w(x) == x * ns[k], w(x) >= 0)), patterns=lambda x: [w(x)]))
            A(forall(2, lambda x, y: z3.Implies(z3.And(0 <= x, x < y), w(x) + ns[k] <= w(y)), patterns=lambda x, y: [z3.MultiPattern(w(x), w(y))]))
        A(forall(n, lambda *ix: flat(ix) == flat_def(ix), patterns=lambda *ix: [flat(ix)]))
    return f


def lemma(task, ex):
    n, k, m = z3.Ints("n k m")
    ex.assume(z3.And(n >= 0, 0 <= k, k < m))
    ex.oblige("lemma:offset-step", (k + 1) * n == k * n + n, None, "lemma")
    ex.oblige("lemma:offset-nonnegative", k * n >= 0, None, "lemma")
    ex.oblige("lemma:offset-monotone", k * n + n <= m * n, None, "lemma")
    ex.pc = []


def emitter(c, v, cls):
    """the emitter owned by the pointer v, when it is of class cls"""
    if not (isinstance(v, Rec) and v.cls == "uptr"):
        raise AnnotationMismatch("owned emitter")
    key = [k for k in v.f if k.startswith("as_") and k.endswith("::" + cls)] or [k for k in v.f if k == "as_" + cls]
    if len(key) != 1:
        raise AnnotationMismatch("emitter class " + cls)
    return v.f[key[0]], z3.And(z3.Not(v.f["null"]), v.f["tag"] == c.ex.P.class_tag(key[0][3:]))


def holds(c, v, cls, vals):
    e, is_cls = emitter(c, v, cls)
    return z3.And(is_cls, *[e.f["trader_config_"].f[f] == x for f, x in zip(FIELDS[cls], vals)])


def filled(c, batch, cls):
    n = len(FIELDS[cls])
    ns = lens(c, n)

    def body(*ix):
        p = flat(ix)
        return z3.Implies(z3.And(in_range(ix, ns), p < batch.hi), z3.And(p >= 0, holds(c, c.V.sel(batch.data, p), cls, [at(c.a(k), ix[k]) for k in range(n)])))
    return forall(n, body, patterns=lambda *ix: [flat(ix)])


def batch_of(L):
    c = L.fc
    out = []
    for did, l in L.ex.fr.env.items():
        try:
            v = L.ex.read(l)
        except Exception:
            continue
        if isinstance(v, Seq) and v.et.k == "uptr" and not any(v is x for x in out):
            out.append(v)
    if len(out) != 1:
        raise AnnotationMismatch("the batch under construction")
    return out[0]


def positions(L, cls, level):
    """positions in the parameter lists, outermost first (0 for the loops not entered yet)"""
    n = len(FIELDS[cls])
    nest = L.nest()
    if len(nest) != level + 1:
        raise AnnotationMismatch("nesting of the loops over the parameter lists")
    return [nest[k].cursor(L.fc.argv[k]) for k in range(level + 1)] + [z3.IntVal(0)] * (n - level - 1)


def level_inv(cls, level):
    def f(L):
        c = L.fc
        n = len(FIELDS[cls])
        ns = lens(c, n)
        ix = positions(L, cls, level)
        b = batch_of(L)
        rng = [z3.And(0 <= ix[k], ix[k] < ns[k]) for k in range(level)] + [z3.And(0 <= ix[level], ix[level] <= ns[level])]
        return [("position", z3.And(*rng)), ("size", z3.And(b.lo == 0, b.hi == flat(ix))), ("filled", filled(c, b, cls)), ("class", all_of_class(c, b, cls))]
    return f


def level_head(cls, level):
    """instances of the block offset definitions for the next position"""
    def f(L):
        c = L.fc
        n = len(FIELDS[cls])
        ns = lens(c, n)
        ix = positions(L, cls, level)
        out = [flat(ix) == flat_def(ix)]
        x = ix[0]
        for k in range(1, n):
            out.append(step_facts(ns, x, k))
            x = W[k](x) + ix[k]
        nxt = list(ix)
        nxt[level] = ix[level] + 1
        out.append(flat(nxt) == flat_def(nxt))
        return out
    return f


def all_of_class(c, b, cls):
    return forall(1, lambda i: z3.Implies(z3.And(b.lo <= i, i < b.hi), emitter(c, c.V.sel(b.data, i), cls)[1]))


def class_post(cls):
    """every member of a batch is an emitter of the class, and a batch of non-empty lists is not empty"""
    n = len(FIELDS[cls])
    return lambda c: [("class", z3.And(c.res.lo == 0, c.res.hi >= 0, all_of_class(c, c.res, cls))),
                      ("non-empty", z3.Implies(z3.And(*[m > 0 for m in lens(c, n)]), c.res.hi > 0))]


def batch_post(cls):
    def f(c):
        n = len(FIELDS[cls])
        ns = lens(c, n)
        total = ns[0]
        for k in range(1, n):
            total = W[k](total)
        return [("size", z3.And(c.res.lo == 0, c.res.hi == total)), ("combinations", filled(c, c.res, cls))] + class_post(cls)(c)
    return f


def sizes_req(n):
    return lambda c: [("sizes", z3.And(*[z3.And(c.a(k).lo == 0, c.a(k).hi >= 0) for k in range(n)]))]


def batch_contract(cls):
    n = len(FIELDS[cls])
    return Contract(cls + "::GetBatchOfTraders", sizes_req(n), batch_post(cls), None, ghost_entry=entry(n),
                    loops=[LoopSpec("list%d" % k, level_inv(cls, k), head=level_head(cls, k)) for k in range(n)])


def new_post(cls, fresh):
    def f(c):
        t, ok = emitter(c, c.res, cls)
        return [("class", ok), ("configuration", c.V.eq(t.f["trader_config_"], fld(c.this, "trader_config_")))] + \
               [("initial:" + k, t.f[k] == v) for k, v in fresh.items()]
    return f


NEW_R = Contract("RebalancingTraderEmitter::NewTrader", None, new_post("RebalancingTrader", {"last_timestamp_sec_": 0}), lambda c: [])
NEW_S = Contract("StopTraderEmitter::NewTrader", None, new_post("StopTrader", {"last_timestamp_sec_": 0, "mode_": 0}), lambda c: [])
CT_R = Contract(REB + "::" + REB, None, lambda c: [("configuration", c.V.eq(fld(c.this1, "trader_config_"), c.a(0)))])
CT_S = Contract(STP + "::" + STP, None, lambda c: [("configuration", c.V.eq(fld(c.this1, "trader_config_"), c.a(0)))])


def name_req(c):
    return [("known-name", z3.Or(name_is(c, "rebalancing"), name_is(c, "stop")))]


def name_is(c, text):
    return c.a(0) == AR.string_literal('"%s"' % text)


def get_post(c):
    _, reb = emitter(c, c.res, REB)
    _, stp = emitter(c, c.res, STP)
    return [("rebalancing", z3.Implies(name_is(c, "rebalancing"), reb)), ("stop", z3.Implies(name_is(c, "stop"), stp))]


def batch_of_class(c, cls):
    return z3.And(c.res.hi > c.res.lo, all_of_class(c, c.res, cls))


def get_batch_post(c):
    return [("rebalancing", z3.Implies(name_is(c, "rebalancing"), batch_of_class(c, REB))),
            ("stop", z3.Implies(name_is(c, "stop"), batch_of_class(c, STP)))]


GET = Contract("trader::GetTrader", name_req, get_post)
GETB = Contract("trader::GetBatchOfTraders", name_req, get_batch_post)


def batch_class_contract(cls):
    """the part of the contract of the batch functions that their callers need"""
    return Contract(cls + "::GetBatchOfTraders", sizes_req(len(FIELDS[cls])), class_post(cls))


def tasks(P):
    return [Task("RebalancingBatch", REB + "::GetBatchOfTraders", batch_contract(REB)),
            Task("StopBatch", STP + "::GetBatchOfTraders", batch_contract(STP)),
            Task("OffsetLemma", None, None, runner=lemma),
            Task("NewRebalancingTrader", NEW_R.key, NEW_R, []),
            Task("NewStopTrader", NEW_S.key, NEW_S, []),
            Task("GetTrader", "GetTrader", GET, []),
            Task("GetBatchOfTraders", "GetBatchOfTraders", GETB, [batch_class_contract(REB), batch_class_contract(STP)], nparams=1)]
