"""The observer rule: an indicator that owns a LastNOhlcTicks window keeps its invariant over window and ghost history.

LastNOhlcTicks::Update is (proved in I01) a finite sequence of single steps of the window, each notified exactly once
to the registered observer after it happened.  Hence an invariant Inv(window, state) that (Init) holds for the
constructed object and (Step) is kept by every kind of step followed by the registered observer's body holds after
every Update.  The observers are found by executing the real constructor, which registers them."""
from specs.lastn import *
from engine.values import *
from engine.frontend import ty as node_ty

LN = "LastNOhlcTicks"


def merge_fn(v, built):
    """v with the std::function members of built"""
    if isinstance(v, Rec) and isinstance(built, Rec):
        return Rec(v.cls, {k: merge_fn(x, built.f[k]) if k in built.f else x for k, x in v.f.items()})
    if isinstance(v, FnV) and isinstance(built, FnV):
        return built
    return v


class Observer:
    def __init__(self, cls, ctor_nparams, ctor_req, N, inv, ghost, uses=(), member="last_n_ohlc_ticks_", step_req=None,
                 valid=False, num="n", init_ghost=None, mode="real", update_req=None, period=None,
                 at_update=None, step_post=None):
        self.cls, self.np, self.ctor_req, self.N, self._inv, self.ghost = cls, ctor_nparams, ctor_req, N, inv, ghost
        self.uses, self.member, self.step_req, self.valid = list(uses), member, step_req, valid
        # at_update(c, m): what Update must have established in the object m when it hands the tick to the window;
        # step_post(m0, m1): relation between the states before and after every step
        self.at_update, self.step_post = at_update, step_post
        self.init_ghost, self.mode, self.update_req, self.period = init_ghost, mode, update_req, period

    # ---- state views
    def owner(self, loc):
        return loc

    def window_inv(self, m, d, args):
        ln = fld(m, self.member)
        return [("window-parameters", z3.And(fld(ln, "num_ohlc_ticks_") == self.N(args), self.N(args) >= 1,
                                             fld(ln, "period_size_sec_") == self.period(args), self.period(args) >= 1)),
                ("window", z3.And(d.lo >= 0, d.lo <= d.hi, d.hi - d.lo == z3.If(d.hi <= self.N(args), d.hi, self.N(args))))]

    def inv(self, ex, m, args):
        d = win(fld(m, self.member))
        return self.window_inv(m, d, args) + list(self._inv(ex, m, d, args))

    def ctor(self, P):
        c = P.func(self.cls + "::" + self.cls.split("::")[-1], self.np, lambda f, ex=None: True)
        c = [f for f in c if f.kind == "CXXConstructorDecl" and not any("&" in p["type"]["qualType"] and self.cls in p["type"]["qualType"] for p in f.params)]
        if len(c) != 1:
            raise AnnotationMismatch("constructor of %s" % self.cls)
        return c[0]

    def build(self, task, ex):
        """execute the real constructor"""
        f = self.ctor(ex.P)
        task.f = f
        obj = Rec(f.cls, {})
        for (nm, ft, init) in ex.P.all_fields(f.cls):
            t = ex.tt.parse(ft)
            if nm.startswith("$"):
                obj.f[nm] = ex.V.default(t)
            elif leaf_sort(t) is None or t.k == "str":
                obj.f[nm] = ex.default_init(t)
            else:
                obj.f[nm] = ex.fresh(t, "uninit." + nm)
        this = ex.new_root("this", obj)
        args = [ex.fresh(ex.tt.parse(node_ty(p)), "ctor%d" % i) for i, p in enumerate(f.params)]
        ctx = CallCtx(ex, f, this, [ex.new_root("arg", a) for a in args], Contract(self.cls))
        task._ctx = ctx
        for nm, g in self.ctor_req(args):
            ex.assume(g)
        ctx.snapshot_pre()
        ex.run_body(f, this, [ex.read(l) for l in ctx.argv])
        return this, args

    def fresh_state(self, ex, this, valid_ticks=True):
        built = ex.read(this)
        v = merge_fn(ex.fresh(T("rec", self.cls), "state"), built)
        ex.write(this, v)
        return v

    # ---- tasks
    def init_task(self):
        def run(task, ex):
            this, args = self.build(task, ex)
            if self.init_ghost:
                self.init_ghost(ex, this, args)
            if ex.dpos >= len(ex.prefix):
                task.ends.append(list(ex.pc))
            m = ex.read(this)
            d = win(fld(m, self.member))
            ex.oblige(task.name + "/empty-window", z3.And(d.lo == 0, d.hi == 0), None, "post")
            for nm, g in self.inv(ex, m, args):
                ex.oblige(task.name + "/inv:" + nm, g, None, "post")
        return Task("Init", self.cls, None, self.uses, runner=run, mode=self.mode)

    def step_task(self, kind):
        name = {UPD: "TickUpdated", NEW: "TickAdded", REM: "TickAddedOldestRemoved"}[kind]

        def run(task, ex):
            this, args = self.build(task, ex)
            if ex.pc is not None and self.init_ghost:
                self.init_ghost(ex, this, args)
            m = self.fresh_state(ex, this)
            s = win(fld(m, self.member))
            for nm, g in self.inv(ex, m, args):
                ex.assume(g)
            if self.valid:
                ex.assume(all_valid(ex.V, s))
            if self.step_req:
                for nm, g in self.step_req(m, args):
                    ex.assume(g)
            # the window makes one step
            wl = this.sub(self.member).sub("last_n_ohlc_ticks_")
            d = ex.fresh(ex.tt.parse("std::deque<OhlcTick>"), "after")
            ot = ex.tt.parse("OhlcTick")
            new = ex.fresh(ot, "new_tick")
            old = ex.fresh(ot, "old_tick") if kind != NEW else None
            N = self.N(args)
            for nm, g in event(ex.V, kind, s, d, old, new, N):
                ex.assume(g)
            ex.assume(new.f["timestamp_sec"] >= 0)
            # the window keeps the last N ticks: one is removed only when there are N
            ex.assume(s.hi - s.lo == z3.If(s.hi <= N, s.hi, N))
            ex.assume(s.hi < INT_MAX - 2)
            if kind == UPD:
                ex.assume(s.hi > s.lo)
            if self.valid:
                ex.assume(all_valid(ex.V, d))
                ex.assume(valid_tick(new))
            ex.write(wl, d)
            m = m0 = ex.read(this)
            cb = fld(fld(m, self.member), kind)
            called = ex.branch(cb.isset) if not z3.is_true(z3.simplify(cb.isset)) else True
            if called:
                a = [ex.new_root("old", old)] if kind != NEW else []
                ex.call_value(cb, a + [ex.new_root("new", new)])
            self.ghost(ex, this, kind, old, new, s, d, args)
            if ex.dpos >= len(ex.prefix):
                task.ends.append(list(ex.pc))
            m = ex.read(this)
            w = win(fld(m, self.member))
            if self.step_post:
                for nm, g in self.step_post(m0, m):
                    ex.oblige("%s/%s" % (task.name, nm), g, None, "post")
            ex.oblige("%s/window-untouched" % task.name, ex.V.eq(w, d), None, "frame")
            for nm, g in self.inv(ex, m, args):
                ex.oblige("%s/inv:%s" % (task.name, nm), g, None, "post")
        return Task(name, self.cls, None, self.uses, runner=run, mode=self.mode)

    def update_task(self):
        """CLS::Update hands the tick to the window exactly once"""
        args = {}

        def setup(ex, ctx):
            f = self.ctor(ex.P)
            args[0] = [ex.fresh(ex.tt.parse(node_ty(p)), "ctor%d" % i) for i, p in enumerate(f.params)]
            args["calls"] = 0

        def req(c):
            out = list(self.ctor_req(args[0])) + self.inv(c.ex, c.this, args[0])
            if self.update_req:
                out += self.update_req(c)
            return out

        def ext(ex, this, a):
            c = ex.task.ctx_of(ex)
            own = Loc(this.root, this.path[:-1])
            m = ex.read(own)
            args["calls"] += 1
            ex.oblige(ex.cur_name() + "/window-updated-once", z3.BoolVal(args["calls"] == 1), None, "post")
            t = a[0] if not isinstance(a[0], Loc) else ex.read(a[0])
            ex.oblige(ex.cur_name() + "/window-gets-the-tick", ex.V.eq(t, c.a(0)), None, "post")
            for nm, g in self.inv(ex, m, args[0]):
                ex.oblige(ex.cur_name() + "/before-window-update:%s" % nm, g, None, "pre")
            if self.step_req:
                for nm, g in self.step_req(m, args[0]):
                    ex.oblige(ex.cur_name() + "/before-window-update:%s" % nm, g, None, "pre")
            if self.at_update:
                for nm, g in self.at_update(c, m):
                    ex.oblige(ex.cur_name() + "/before-window-update:%s" % nm, g, None, "pre")
            v = merge_fn(ex.havoc_value(m, "updated"), m)
            ex.write(own, v)
            for nm, g in self.inv(ex, v, args[0]):
                ex.assume(g)
            if self.step_req:
                for nm, g in self.step_req(v, args[0]):
                    ex.assume(g)
            if self.step_post:
                for nm, g in self.step_post(m, v):
                    ex.assume(g)
            args["after"] = v
            return None

        def ens(c):
            return [("window-updated", z3.BoolVal(args["calls"] == 1))] + \
                [("nothing-changed-afterwards", c.V.eq(c.this1, args["after"]) if args["calls"] == 1 else z3.BoolVal(False))] + \
                [("inv:" + nm, g) for nm, g in self.inv(c.ex, c.this1, args[0])]
        C = Contract(self.cls + "::Update", req, ens, lambda c: [c.this_loc])
        return Task("Update", self.cls + "::Update", C, self.uses, setup=setup, externals={LN + "::Update": ext}, mode=self.mode)

    def getter(self, name, post, uses=()):
        args = {}

        def setup(ex, ctx):
            f = self.ctor(ex.P)
            args[0] = [ex.fresh(ex.tt.parse(node_ty(p)), "ctor%d" % i) for i, p in enumerate(f.params)]

        C = Contract(self.cls + "::" + name, lambda c: list(self.ctor_req(args[0])) + self.inv(c.ex, c.this, args[0]) +
                     ([("valid-ticks", all_valid(c.V, win(fld(c.this, self.member))))] if self.valid else []),
                     lambda c: post(c, c.this, win(fld(c.this, self.member)), args[0]), lambda c: [])
        return Task(name, self.cls + "::" + name, C, self.uses + list(uses), setup=setup, mode=self.mode)

    def tasks(self):
        return [self.init_task(), self.step_task(UPD), self.step_task(NEW), self.step_task(REM), self.update_task()]


# ---- ghost sequences
def gset(ex, this, name, idx, v, hi=None):
    l = this.sub(name)
    s = ex.read(l)
    ex.write(l, Seq(s.et, ex.V.sto(s.data, idx, v), s.lo, s.hi if hi is None else hi, s.kind))
