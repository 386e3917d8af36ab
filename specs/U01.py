"""U01: delimited messages are read back exactly or an error is reported (streams as in io_common)."""
import os
from specs.io_common import *

UNITS = [(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tu/proto_io.cc"), ("trader::",))]
ASSUMES = IO_ASSUMES
REPLAY = ("util_oracle.cc", ["U01"], "util")
MSGS = T("seq", "vector", T("proto", "OhlcTick"))


def with_streams(ex, ctx):
    for i, p in enumerate(ctx.f.params):
        t = ex.tt.parse(ty(p))
        if t.k == "ref" and t.a[0].k == "stream":
            ex.write(ctx.argv[i], stream(ex, z3.Bool(ex.fresh_name("stream state"))))


def cont(k):
    return z3.And(ROK(k), RSIG(k) == 0)


# ---- reading
def r_entry(c):
    IN = c.ex.fresh(MSGS, "IN")
    c.ex.assume(z3.And(IN.lo == 0, IN.hi >= 0))
    ghosts(c, IN=IN, pos=z3.IntVal(0), handed=z3.IntVal(0), failed=z3.BoolVal(False))


def fn_param(c):
    for i, p in enumerate(c.f.params):
        v = c.at(c.pre, c.argv[i])
        if isinstance(v, FnV):
            return v
    raise AnnotationMismatch("reader parameter")


def opened(c):
    for i in range(len(c.argv)):
        v = c.a(i)
        if isinstance(v, z3.ExprRef) and v.sort() == StrSort:
            return OPEN(v)
    return z3.BoolVal(True)


def r_req(c):
    return [("reader", fn_param(c).isset)]


def r_ens(c):
    n, N = g(c.ex, "handed"), g(c.ex, "IN").hi
    ok = c.res.f["ok"]
    stopped = z3.And(n >= 1, z3.Not(cont(n - 1)))
    o = opened(c)
    return [("in-order-until-the-reader-stops", z3.And(0 <= n, n <= N, forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < n - 1), cont(k)), patterns=lambda k: [ROK(k)]))),
            ("reader-decides", z3.Implies(z3.And(o, stopped), ok == ROK(n - 1))),
            ("to-the-end", z3.Implies(z3.And(o, z3.Not(stopped)), n == N)),
            ("error-unless-clean", z3.Implies(z3.And(o, z3.Not(stopped)), ok == CLEAN)),
            ("cannot-open", z3.Implies(z3.Not(o), z3.And(z3.Not(ok), n == 0)))]


def r_inv(L):
    ex = L.ex
    pos, n, N = g(ex, "pos"), g(ex, "handed"), g(ex, "IN").hi
    return [("position", z3.And(0 <= pos, pos <= N, n == pos)),
            ("continued", forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), cont(k)), patterns=lambda k: [ROK(k)]))]


def gh(*nms):
    return lambda L: [L.fc.ghost[x] for x in nms]


def r_measure(L):
    return g(L.ex, "IN").hi - g(L.ex, "pos")


def vec(c):
    for i, p in enumerate(c.f.params):
        if isinstance(c.a(i), Seq):
            return i
    raise AnnotationMismatch("message vector")


def collected(c, old, new, n):
    """new is old followed by the first n messages"""
    IN = g(c.ex, "IN")
    V = c.V
    return z3.And(size(new) == size(old) + n, new.lo == old.lo,
                  forall(1, lambda k: z3.Implies(z3.And(old.lo <= k, k < old.hi), V.eq(V.sel(new.data, k), V.sel(old.data, k)))),
                  forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < n), V.eq(V.sel(new.data, old.hi + k), V.sel(IN.data, k)))))


def v_inv(L):
    ex, c = L.ex, L.fc
    pos, N = g(ex, "pos"), g(ex, "IN").hi
    i = vec(c)
    return [("position", z3.And(0 <= pos, pos <= N)), ("collected", collected(c, c.a(i), ex.read(c.argv[i]), pos))]


def v_ens(c):
    i = vec(c)
    pos, N = g(c.ex, "pos"), g(c.ex, "IN").hi
    o, ok = opened(c), c.res.f["ok"]
    return [("all-messages", z3.Implies(o, z3.And(pos == N, collected(c, c.a(i), c.a1(i), N)))), ("error-unless-clean", z3.Implies(o, ok == CLEAN)),
            ("cannot-open", z3.Implies(z3.Not(o), z3.And(z3.Not(ok), c.V.eq(c.a(i), c.a1(i)))))]


# ---- writing
def w_entry(c):
    ghosts(c, ser=z3.IntVal(0), flushed=z3.BoolVal(False))


def w_setup(ex, ctx):
    with_streams(ex, ctx)
    for i in range(len(ctx.argv)):
        v = ex.read(ctx.argv[i])
        if is_stream(v):
            ex.assume(v.f["ok"])
    range_args(ex, ctx)


def w_inv(L):
    ex, c = L.ex, L.fc
    s, b, e = main_range(ex)
    k = L.cursor()
    n = g(ex, "ser")
    return [("position", z3.And(0 <= n, b + n <= e, n == k + s.lo - b)), ("serialised", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n), SOK(j)), patterns=lambda j: [SOK(j)]))]


def w_measure(L):
    s, b, e = main_range(L.ex)
    return e - b - g(L.ex, "ser")


def w_ens(c):
    s, b, e = main_range(c.ex)
    ok, n = c.res.f["ok"], g(c.ex, "ser")
    o = opened(c)
    every = forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < e - b), SOK(j)), patterns=lambda j: [SOK(j)])
    return [("success-means-all-written", z3.Implies(ok, z3.And(o, n == e - b, every, GOOD, g(c.ex, "flushed")))),
            ("error-means-something-failed", z3.Implies(z3.Not(ok), z3.Or(z3.Not(o), z3.Not(every), z3.Not(GOOD)))),
            ("cannot-open", z3.Implies(z3.Not(o), n == 0))]


def reads(kind):
    """pick the overload with a reader or with a vector"""
    def f(fn, *a):
        return any(("function<" in ty(p)) == (kind == "fn") and ("function<" in ty(p) or "vector<" in ty(p)) for p in fn.params)
    return f


def tasks(P):
    out = []
    rl = LoopSpec("messages", r_inv, r_measure, ghosts=gh("pos", "handed", "failed"))
    vl = LoopSpec("messages", v_inv, r_measure, ghosts=gh("pos", "failed"))
    wl = LoopSpec("messages", w_inv, w_measure, ghosts=gh("ser"))
    nomod = lambda c: [a for a in c.argv if not isinstance(c.ex.read(a), z3.ExprRef)]
    for src in ("IStream", "File"):
        nm = "ReadDelimitedMessagesFrom" + src
        kw = dict(KW, setup=with_streams, opt={"file mode": 8})
        out.append(Task(nm + "(reader)", nm, Contract(nm, r_req, r_ens, nomod, ghost_entry=r_entry, loops=[rl]), [], pick=reads("fn"), **kw))
        out.append(Task(nm + "(vector)", nm, Contract(nm, None, v_ens, nomod, ghost_entry=r_entry, loops=[vl]), [], pick=reads("vec"), **kw))
    for dst in ("OStream", "File"):
        nm = "WriteDelimitedMessagesTo" + dst
        out.append(Task(nm, nm, Contract(nm, None, w_ens, nomod, ghost_entry=w_entry, loops=[wl]), [], setup=w_setup,
                        **dict(KW, opt={"file mode": 16, "destroy": destroy})))
    return out
