"""Forward symbolic execution of clang ASTs, function by function, producing proof obligations.

Path enumeration is by re-execution with a decision prefix: the interpreter is written in direct style and every
fork point consults the prefix.  Loops are cut at their head by a contract (invariant) and the set of locations the
body may change is computed from the body itself; calls to functions with a contract use the contract only.
"""
import z3, re, itertools
from .types import *
from .values import *
from .frontend import ty, ty_sugar
from . import arith as AR


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


def quantified(f):
    """does the formula contain a quantifier?"""
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """This path contributes no further obligations (infeasible, cut at a loop head, or program aborted)."""


class NeedFork(Exception):
    """Raised during speculative (fork-free) evaluation."""


class Restart(Exception):
    """Loop modification set grew; restart exploration."""


from .contracts import AnnotationMismatch


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Obligation:
    __slots__ = ("name", "hyps", "goal", "func", "line", "kind", "info", "prop")

    def __init__(self, name, hyps, goal, func, line, kind, info=None):
        self.name, self.hyps, self.goal, self.func, self.line, self.kind, self.info = name, hyps, goal, func, line, kind, info


class Frame:
    __slots__ = ("env", "this", "tu", "func", "depth", "names", "callpath", "sink", "loops")

    def __init__(self, tu, func, this, depth, callpath):
        self.env = {}
        self.names = {}
        self.this = this
        self.tu = tu
        self.func = func
        self.depth = depth
        self.callpath = callpath
        self.loops = []


class Exec:
    MAX_DEPTH = 24
    MAX_PATHS = 6000

    def __init__(self, program, task):
        self.P = program
        self.V = program.V
        self.tt = program.tt
        self.task = task              # provides contracts, options, externals
        self.mode = task.mode         # 'real' | 'rnd'
        self.obls = []
        self.loop_mod = {}
        self.dropped = set()
        self.unbounded = set()
        self.loop_step = {}
        self.paths = 0
        self.inlined = set()
        self.used_contracts = set()
        self.lib_used = set()
        self.notes = set()
        self.covers = {}
        self._feas_cache = {}
        self.emitted = set()

    # ------------------------------------------------------------------ exploration
    def explore(self, run):
        """run() executes one path from scratch."""
        while True:
            try:
                work = [()]
                self.obls = []
                self.paths = 0
                self.emitted = set()
                while work:
                    self.prefix = work.pop()
                    self.work = work
                    self.dpos = 0
                    self.taken = []
                    self.reset()
                    self.paths += 1
                    if self.paths > self.MAX_PATHS:
                        raise Unsupported("too many paths")
                    try:
                        run()
                    except PathEnd:
                        pass
                return
            except Restart:
                continue

    def reset(self):
        self.store = {}
        self.pc = []
        self.guards = []
        self.cnt = itertools.count()
        self.frames = []
        self.dry = 0
        self.spec_depth = 0
        self.decided = None
        self.trace = []
        self.heads = {}
        self.static_roots = {}
        self.solver = None
        self.solver_n = 0

    def fresh_name(self, base):
        return "%s!%d" % (base, next(self.cnt))

    def fresh(self, t, name):
        if isinstance(t, str):
            t = self.tt.parse(t)
        n = self.fresh_name(name)
        facts = []

        def leaf(s, p, tt):
            if tt.k == "lo" and tt.a[0] != "deque":
                return z3.IntVal(0)
            c = z3.Const(n + p, s)
            self.leaf_facts(c, tt, facts)
            return c
        v = self.V.build(t, leaf)
        self.seq_facts(v, facts)
        for f in facts:
            self.assume(f)
        return v

    def leaf_facts(self, c, tt, facts):
        """Type invariants of a scalar (machine range of unsigned types, enum ranges)."""
        if tt.k == "int":
            bits, signed = tt.a
            if not signed:
                facts.append(c >= 0)
            if self.task.opt.get("ranges", True):
                hi = 2 ** (bits - 1) - 1 if signed else 2 ** bits - 1
                lo = -2 ** (bits - 1) if signed else 0
                facts.append(c <= hi)
                if signed:
                    facts.append(c >= lo)
        elif tt.k == "enum":
            vals = self.P.enum_values(tt.a[0])
            if vals:
                facts.append(z3.And(c >= min(vals), c <= max(vals)))
        elif tt.k in ("f32", "f64"):
            AR.mark_rep(c)

    def seq_facts(self, v, facts):
        if isinstance(v, Rec):
            for x in v.f.values():
                self.seq_facts(x, facts)
        elif isinstance(v, Seq):
            if isinstance(v.lo, z3.ArithRef) and v.lo.sort() == I:
                facts.append(v.lo <= v.hi)
                if v.kind == "deque":
                    facts.append(v.lo >= 0)
        if isinstance(v, Rec) and v.cls in self.P.protos:
            self.proto_facts(v, facts)

    def proto_facts(self, v, facts):
        m = self.P.protos[v.cls]
        for fl in m.fields:
            h = v.f.get("has_" + fl.name)
            if h is not None and isinstance(h, z3.BoolRef):
                x = v.f[fl.name]
                d = self.V.default(self.P.proto_ftype(fl))
                try:
                    facts.append(z3.Implies(z3.Not(h), self.V.eq(x, d)))
                except z3.Z3Exception:
                    pass
        for o, fls in m.oneofs.items():
            c = v.f[o + "_case"]
            if isinstance(c, z3.ArithRef):
                facts.append(z3.Or([c == 0] + [c == f.num for f in fls]))
                for f in fls:
                    facts.append(z3.Implies(c != f.num, self.V.eq(v.f[f.name], self.V.default(self.P.proto_ftype(f)))))

    def havoc_value(self, v, name, only=None):
        """Fresh value of the same shape; `only`: set of leaf paths to havoc (None = all)."""
        n = self.fresh_name(name)
        facts = []

        def go(x, path):
            if x is None:
                return None
            if isinstance(x, z3.ExprRef):
                if only is not None and path not in only:
                    return x
                c = z3.Const(n + path, x.sort())
                if x.sort() == R:
                    AR.mark_rep(c)
                return c
            if isinstance(x, Rec):
                r = Rec(x.cls, {k: go(y, path + "." + k) for k, y in x.f.items()})
                return r
            if isinstance(x, Seq):
                r = Seq(x.et, go(x.data, path + "[]"), go(x.lo, path + ".lo"), go(x.hi, path + ".hi"), x.kind)
                if isinstance(r.lo, z3.ArithRef) and not (r.lo.eq(x.lo) and r.hi.eq(x.hi)):
                    facts.append(r.lo <= r.hi)
                    if x.kind == "deque":
                        facts.append(r.lo >= 0)
                return r
            if isinstance(x, MapV):
                return MapV(x.kt, x.vt, go(x.dom, path + ".dom"), go(x.data, path + "[]"))
            if isinstance(x, It):
                return It(x.loc, go(x.idx, path + ".idx"))
            if isinstance(x, Ptr):
                return Ptr(x.loc, go(x.null, path + ".null"))
            if isinstance(x, FnV):
                return FnV(go(x.isset, path + ".isset"), x.target)
            return x
        r = go(v, "")
        for f in facts:
            self.assume(f)
        return r

    # ------------------------------------------------------------------ path condition
    def guarded(self, f):
        for g in reversed(self.guards):
            f = z3.Implies(g, f)
        return f

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(self.guarded(f))

    def feasible(self, cond):
        return self.try_solver(cond, 150, 0) != z3.unsat

    def surely(self, cond):
        """cond follows from the quantifier-free path facts by an easy (deterministically bounded) argument"""
        return self.try_solver(z3.And(*[g for g in self.guards], z3.Not(cond)), 4000, 60000) == z3.unsat

    def try_solver(self, cond, ms, rlimit):
        s = self.solver
        if s is None:
            s = self.solver = z3.SimpleSolver()
            s.set("timeout", 150)
            self.solver_n = 0
            self.solver_ids = []
        # incremental: add new pc facts (skip quantified ones)
        while self.solver_n < len(self.pc):
            f = self.pc[self.solver_n]
            self.solver_n += 1
            if not AR.has_quantifier(f):
                s.add(f)
        s.set("timeout", ms)
        s.set("rlimit", rlimit)
        s.push()
        s.add(cond)
        r = s.check()
        s.pop()
        return r

    def branch(self, cond, hint=""):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.spec_depth:
            raise NeedFork()
        if self.dpos < len(self.prefix):
            d = self.prefix[self.dpos]
            self.dpos += 1
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd()
            if t and f:
                d = True
                self.work.append(tuple(self.taken) + (False,))
                self.dpos += 1
                self.prefix = tuple(self.taken) + (True,)
            else:
                # forced: no decision recorded
                d = t
                self.assume(cond if d else z3.Not(cond))
                if self.decided is not None:
                    self.decided.append(cond if d else z3.Not(cond))
                self.taken.append(d)
                self.prefix = tuple(self.taken)
                self.dpos = len(self.taken)
                return d
        self.taken.append(d)
        self.assume(cond if d else z3.Not(cond))
        if self.decided is not None:
            self.decided.append(cond if d else z3.Not(cond))
        return d

    def merged(self, fn):
        """The value (a formula) of a side-effect free computation that branches: the union of all its paths."""
        snap = self.snapshot()
        saved = (self.prefix, self.dpos, self.taken, self.work, self.spec_depth, self.decided)
        nobl, ntrace, nfr = len(self.obls), len(self.trace), len(self.frames)
        top = next(self.cnt)
        self.cnt = itertools.count(top)
        out, work, k = FALSE, [()], 0
        try:
            self.spec_depth = 0
            while work:
                k += 1
                if k > 64:
                    raise Unsupported("too many paths in a comparator")
                self.restore(snap)
                del self.frames[nfr:]
                self.prefix, self.dpos, self.taken, self.work, self.decided = work.pop(), 0, [], work, []
                before = dict(self.store)
                try:
                    r = fn()
                except PathEnd:
                    continue
                if self.changed(before, self.store):
                    raise Unsupported("comparator with side effects")
                out = z3.Or(out, z3.And(*self.decided, r))
        finally:
            self.restore(snap)
            del self.frames[nfr:]
            del self.obls[nobl:]
            del self.trace[ntrace:]
            self.prefix, self.dpos, self.taken, self.work, self.spec_depth, self.decided = saved
        return z3.simplify(out)

    def oblige(self, name, goal, line=None, kind="check", info=None, hyps=None):
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        if self.dry:
            self.assume(goal)
            return
        if self.dpos >= len(self.prefix):
            g = self.guarded(goal)
            if not z3.is_true(z3.simplify(g)) or kind in ("post", "inv", "pre"):
                fn = self.frames[0].func.qname if self.frames and self.frames[0].func else self.task.name
                self.obls.append(Obligation(name, list(self.pc) if hyps is None else hyps, g, fn, line, kind, info))
        self.assume(goal)

    # ------------------------------------------------------------------ memory
    def new_root(self, base, v):
        r = self.fresh_name(base)
        self.store[r] = v
        return Loc(r)

    def read(self, loc):
        if isinstance(loc, Loc):
            v = self.store[loc.root]
            for p in loc.path:
                v = self.step(v, p)
            return v
        return loc

    def step(self, v, p):
        if isinstance(p, str):
            if isinstance(v, Rec):
                if p not in v.f:
                    raise Unsupported("no field %s in %s" % (p, v.cls))
                return v.f[p]
            raise Unsupported("field %s of %r" % (p, v))
        kind, idx = p
        if kind == "i":
            if not isinstance(v, Seq):
                raise Unsupported("index of %r" % (v,))
            e = self.V.sel(v.data, idx)
            self.elem_facts(v, e, idx)
            return e
        if kind == "k":
            if not isinstance(v, MapV):
                raise Unsupported("key of %r" % (v,))
            return self.V.sel(v.data, idx)
        raise Unsupported("path")

    def elem_facts(self, seq, e, idx):
        facts = []
        t = seq.et
        if t.k in ("proto", "rec", "pair", "seq"):
            self.seq_facts(e, facts)
            self.scalar_facts(e, t, facts)
        elif isinstance(e, z3.ExprRef):
            self.leaf_facts(e, t, facts)
        for f in facts:
            self.assume(f)

    def scalar_facts(self, v, t, facts):
        if isinstance(v, z3.ExprRef):
            self.leaf_facts(v, t, facts)
        elif isinstance(v, Rec):
            if t.k == "proto":
                m = self.P.protos[t.a[0]]
                for fl in m.fields:
                    if fl.label != "repeated" and not fl.typ.startswith("msg:"):
                        self.scalar_facts(v.f[fl.name], self.P.proto_ftype(fl), facts)
            elif t.k == "pair":
                self.scalar_facts(v.f["first"], t.a[0], facts)
                self.scalar_facts(v.f["second"], t.a[1], facts)

    def write(self, loc, val):
        if self.spec_depth:
            # speculative evaluation may only write roots it created itself
            if loc.root in self.spec_roots[-1]:
                raise NeedFork()
        if self.task.on_write:
            self.task.on_write(self, loc)

        def go(v, path):
            if not path:
                return val
            p = path[0]
            if isinstance(p, str):
                return v.set(p, go(v.f[p], path[1:]))
            kind, idx = p
            if kind == "i":
                if len(path) == 1:
                    return Seq(v.et, self.V.sto(v.data, idx, val), v.lo, v.hi, v.kind)
                e = self.V.sel(v.data, idx)
                return Seq(v.et, self.V.sto(v.data, idx, go(e, path[1:])), v.lo, v.hi, v.kind)
            if kind == "k":
                e = self.V.sel(v.data, idx)
                return MapV(v.kt, v.vt, v.dom, self.V.sto(v.data, idx, go(e, path[1:])))
        if loc.root not in self.store:
            raise Unsupported("write to unknown object")
        self.store[loc.root] = go(self.store[loc.root], loc.path)

    # ------------------------------------------------------------------ frames
    @property
    def fr(self):
        return self.frames[-1]

    def bind(self, decl, loc):
        self.fr.env[decl["id"]] = loc
        if decl.get("name"):
            self.fr.names[decl["name"]] = (loc, decl)

    def lookup(self, did):
        for f in (self.frames[-1],):
            if did in f.env:
                return f.env[did]
        return None

    # ------------------------------------------------------------------ function invocation
    def call_func(self, f, this, args, line=None, force_inline=False):
        """args: list of Value|Loc in parameter order."""
        c = None if force_inline else self.task.contract_for(self, f)
        if c is not None:
            return self.apply_contract(c, f, this, args, line)
        if f.body is None:
            ext = self.task.external(f, self)
            if ext is not None:
                self.lib_used.add("external:" + f.qname)
                return ext(self, this, args)
            g = self.P.find_body(f)
            if g is None:
                if f.node.get("explicitlyDefaulted") or f.node.get("isImplicit"):
                    return self.defaulted(f, this, args)
                raise Unsupported("call to %s without body or contract" % f.qname)
            f = g
        elif f.is_virtual:
            ext = self.task.external(f, self)
            if ext is not None:
                return ext(self, this, args)
        if len(self.frames) > self.MAX_DEPTH:
            raise Unsupported("inlining too deep at %s" % f.qname)
        if any(fr.func is f for fr in self.frames) and f.kind != "lambda":
            raise Unsupported("recursion in %s" % f.qname)
        if self.frames:
            self.inlined.add(f.qname)
        return self.run_body(f, this, args)

    def run_body(self, f, this, args, env=None):
        fr = Frame(f.tu, f, this, len(self.frames), (self.frames[-1].callpath if self.frames else ()) + (f.qname,))
        if env:
            fr.env.update(env)
        self.frames.append(fr)
        try:
            for p, a in zip(f.params, args):
                self.bind_param(p, a)
            if f.kind == "CXXConstructorDecl":
                self.run_inits(f, this)
            try:
                self.stmt(f.body)
                return None
            except ReturnEx as r:
                return r.v
        finally:
            self.frames.pop()

    def bind_param(self, p, a):
        t = self.tt.parse(ty(p))
        if t.k == "ref":
            loc = a if isinstance(a, Loc) else self.new_root("tmp", a)
            self.bind(p, loc)
        else:
            v = self.read(a) if isinstance(a, Loc) else a
            v = self.coerce(v, t)
            self.bind(p, self.new_root(p.get("name") or "p", v))

    def coerce(self, v, t):
        """Adapt representation when a value is bound to an object of type t."""
        if t.k == "fn" and isinstance(v, Clo):
            return FnV(TRUE, ("clo", v))
        if t.k == "seq" and isinstance(v, Seq) and v.kind != t.a[0]:
            return Seq(v.et, v.data, v.lo, v.hi, t.a[0])
        if t.k == "statusor" and not (isinstance(v, Rec) and v.cls == "statusor"):
            return self.make_statusor(v, t)
        if t.k == "ptr" and isinstance(v, Ptr) and v.loc is None:
            return v
        return v

    def make_statusor(self, v, t):
        from .stdlib import status_ok
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(v, Rec) and v.cls == "status":
            self.oblige("StatusOr constructed from a non-OK status", z3.Not(status_ok(v)), kind="safety")
            return Rec("statusor", {"ok": FALSE, "status": v.f["s"], "value": self.V.default(t.a[0])})
        if t.a[0].k == "uptr" and isinstance(v, Ptr):
            v = self.uptr_from(v, t.a[0])
        return Rec("statusor", {"ok": TRUE, "status": z3.Const("status!ok", ObjSort), "value": v})

    def uptr_from(self, p, t):
        """unique_ptr value from a raw pointer produced by `new` (or nullptr)."""
        base = self.V.default(t)
        if p.loc is None:
            return base.set("null", TRUE)
        obj = self.read(p.loc)
        if isinstance(obj, Rec) and obj.cls == "uptr":
            return obj
        key = "as_" + obj.cls if isinstance(obj, Rec) else None
        r = base.set("null", p.null)
        if key and key in base.f:
            r = r.set(key, obj).set("tag", z3.IntVal(self.P.class_tag(obj.cls)))
        elif "val" in base.f:
            r = r.set("val", obj)
        else:
            raise Unsupported("unique_ptr of %r" % (obj,))
        return r

    def run_inits(self, f, this):
        for ini in f.inits:
            if "anyInit" in ini:
                fld = ini["anyInit"]
                fname = fld.get("name")
                ft = self.tt.parse(ty(fld))
                e = ini["inner"][0]
                if e.get("kind") == "CXXDefaultInitExpr":
                    v = self.field_default(f.cls, fname)
                elif ft.k == "ref":
                    raise Unsupported("reference member")
                else:
                    v = self.rvalue(self.ev(e))
                    if isinstance(v, Rec) and v.cls == "ilist":
                        v = self.from_ilist(v, ft)
                self.write(this.sub(fname), self.coerce(v, ft))
            elif "baseInit" in ini:
                e = ini["inner"][0]
                # base constructor on the same object
                if e.get("kind") == "CXXConstructExpr":
                    cf = self.find_ctor(e)
                    if cf is not None and cf.body is not None:
                        self.call_func(cf, this, [self.ev(a) for a in e.get("inner", [])])
            else:
                raise Unsupported("constructor initialiser")

    def field_default(self, cls, fname):
        for (n, ft, init) in self.P.all_fields(cls):
            if n == fname:
                t = self.tt.parse(ft)
                if init is None:
                    return self.default_init(t)
                v = self.rvalue(self.ev(init))
                return self.coerce(self.convert_scalar(v, None, t), t)
        raise Unsupported("field %s::%s" % (cls, fname))

    def default_init(self, t):
        """Default-initialised member/local: scalars are indeterminate, class types default-constructed."""
        if leaf_sort(t) is not None and t.k not in ("str",):
            return self.fresh(t, "uninit")
        if t.k == "ptr":
            return Ptr(None, z3.Bool(self.fresh_name("uninitptr")))
        return self.default_construct(t)

    def default_construct(self, t):
        if t.k == "rec":
            f = {}
            for (n, ft, init) in self.P.all_fields(t.a[0]):
                f[n] = None
            v = Rec(t.a[0], f)
            for (n, ft, init) in self.P.all_fields(t.a[0]):
                v.f[n] = self.field_default(t.a[0], n)
            return v
        if t.k == "lambda":
            raise Unsupported("default lambda")
        v = self.V.default(t)
        if t.k == "uptr":
            v = v.set("null", TRUE)
        return v

    def find_ctor(self, e):
        t = self.tt.parse(ty(e))
        if t.k != "rec":
            return None
        ct = e.get("ctorType", {}).get("qualType")
        cls = self.P.classes.get(t.a[0])
        cands = []
        for f in self.P.ctors(t.a[0]):
            if f.node.get("type", {}).get("qualType") == ct:
                cands.append(f)
        if len(cands) >= 1:
            for c in cands:
                if c.body is not None:
                    return c
            return cands[0]
        return None

    def defaulted(self, f, this, args):
        raise Unsupported("implicitly defined %s" % f.qname)

    # ------------------------------------------------------------------ contracts
    def apply_contract(self, c, f, this, args, line):
        from .contracts import CallCtx
        self.used_contracts.add(c.key)
        argv = []
        for p, a in zip(f.params, args):
            t = self.tt.parse(ty(p))
            if t.k == "ref":
                argv.append(a if isinstance(a, Loc) else self.new_root("tmp", a))
            else:
                v = self.read(a) if isinstance(a, Loc) else a
                argv.append(self.new_root(p.get("name") or "p", self.coerce(v, t)))
        ctx = CallCtx(self, f, this, argv, c)
        for nm, g in c.get_requires(ctx):
            self.oblige("%s/call:%s/pre:%s" % (self.cur_name(), f.qname, nm), g, line, "pre")
        ctx.snapshot_pre()
        mods = c.get_modifies(ctx)
        for loc in mods:
            v = self.read(loc)
            self.write(loc, self.havoc_value(v, f.qname.split("::")[-1] + "." + (str(loc.path[-1]) if loc.path else loc.root.split("!")[0])))
        rt = self.tt.parse(self.P.rtype(f))
        if c.result is not None:
            res = c.result(ctx)
        elif rt.k == "void":
            res = None
        elif rt.k == "ref":
            raise Unsupported("contract on function returning reference: %s" % f.qname)
        else:
            res = self.fresh(rt, f.qname.split("::")[-1] + ".res")
        ctx.snapshot_post(res)
        if c.traced:
            if self.spec_depth and self.guards:
                raise NeedFork()
            self.trace.append(ctx)
        for nm, g in c.get_ensures(ctx):
            self.assume(g)
        if c.effect is not None:
            c.effect(ctx)
        return res

    def cur_name(self):
        return self.task.name

    # ------------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if m is not None:
            return m(n)
        if k is None:
            return
        if k.endswith(("Expr", "Literal", "Operator", "Cleanups")):
            self.ev(n)
            return
        raise Unsupported("statement %s" % k)

    def s_CompoundStmt(self, n):
        try:
            for c in n.get("inner", []):
                self.stmt(c)
        except (BreakEx, ContinueEx, ReturnEx):
            self.end_scope(n)
            raise
        self.end_scope(n)

    def end_scope(self, n):
        """destructors with an effect (task hook), in reverse order of construction"""
        h = self.task.opt.get("destroy")
        if h is None:
            return
        for c in reversed(n.get("inner", [])):
            if c.get("kind") == "DeclStmt":
                for d in reversed(c.get("inner", [])):
                    if d.get("kind") == "VarDecl" and d["id"] in self.fr.env and not ty(d).rstrip().endswith("&"):
                        h(self, self.fr.env[d["id"]], self.tt.parse(ty(d)))

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        for c in n.get("inner", []):
            if not c.get("kind", "").endswith("Attr"):
                self.stmt(c)

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d.get("kind") == "VarDecl":
                self.var_decl(d)
            elif d.get("kind") in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "EmptyDecl", "UsingDirectiveDecl", "EnumDecl"):
                if d.get("kind") == "CXXRecordDecl":
                    raise Unsupported("local class")
                if d.get("kind") == "EnumDecl":
                    self.fr.tu._enum(d, [])
            elif d.get("kind") == "DecompositionDecl":
                self.decomposition(d)
            else:
                raise Unsupported("declaration %s" % d.get("kind"))

    def decomposition(self, d):
        init = [c for c in d.get("inner", []) if c.get("kind") != "BindingDecl"]
        binds = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]
        t = self.tt.parse(ty(d))
        v = self.ev(init[0])
        if t.k == "ref" and isinstance(v, Loc):
            loc = v
        else:
            loc = self.new_root("decomp", self.rvalue(v))
        val = self.read(loc)
        names = list(val.f.keys()) if isinstance(val, Rec) else None
        if not names or len(names) != len(binds):
            raise Unsupported("structured binding")
        self.fr.env[d["id"]] = loc
        for b, nm in zip(binds, names):
            self.fr.env[b["id"]] = loc.sub(nm)
            self.fr.names[b.get("name")] = (loc.sub(nm), b)

    def var_decl(self, d):
        t = self.tt.parse(ty(d))
        init = None
        for c in d.get("inner", []):
            if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")):
                init = c
        if d.get("storageClass") == "static" and not (d.get("constexpr") or ty(d).startswith("const ")):
            # function-local static: any value a previous call may have left
            loc = self.static_roots.get(d["id"])
            if loc is None:
                loc = self.new_root("static." + d.get("name", ""), self.fresh(t, "static." + d.get("name", "")))
                self.static_roots[d["id"]] = loc
                self.notes.add("static local %s treated as arbitrary at entry" % d.get("name"))
            self.bind(d, loc)
            return
        if t.k == "ref":
            v = self.ev(init)
            loc = v if isinstance(v, Loc) else self.new_root(d.get("name", "ref"), v)
            self.bind(d, loc)
            return
        if init is None:
            v = self.default_init(t)
        else:
            v = self.rvalue(self.ev(init))
            if isinstance(v, Rec) and v.cls == "ilist":
                v = self.from_ilist(v, t)
            v = self.coerce(v, t)
            if t.k == "uptr" and isinstance(v, Ptr):
                v = self.uptr_from(v, t)
        self.bind(d, self.new_root(d.get("name", "v"), v))

    def s_ReturnStmt(self, n):
        inner = n.get("inner", [])
        if not inner:
            raise ReturnEx(None)
        v = self.ev(inner[0])
        f = self.fr.func
        rt = self.tt.parse(self.P.rtype(f)) if f is not None and f.kind != "lambda" else None
        if f is not None and f.kind == "lambda":
            rt = self.tt.parse(f.rtype)
        if rt is not None and rt.k == "ref":
            if not isinstance(v, Loc):
                v = self.new_root("ret", v)
            raise ReturnEx(v)
        v = self.rvalue(v)
        if isinstance(v, Rec) and v.cls == "ilist" and rt is not None:
            v = self.from_ilist(v, rt)
        if rt is not None:
            if rt.k == "uptr" and isinstance(v, Ptr):
                v = self.uptr_from(v, rt)
            v = self.coerce(v, rt)
        raise ReturnEx(v)

    def s_IfStmt(self, n):
        inner = [c for c in n.get("inner", [])]
        i = 0
        if n.get("hasInit"):
            self.stmt(inner[i])
            i += 1
        if n.get("hasVar"):
            self.stmt(inner[i])
            i += 1
        if n.get("isConstexpr"):
            pass
        c = self.cond(inner[i])
        if self.branch(c):
            self.stmt(inner[i + 1])
        elif n.get("hasElse"):
            self.stmt(inner[i + 2])

    def cond(self, n):
        v = self.rvalue(self.ev(n))
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        if isinstance(v, FnV):
            return v.isset
        raise Unsupported("condition %r" % (v,))

    def s_WhileStmt(self, n):
        inner = n["inner"]
        if n.get("hasVar"):
            raise Unsupported("while with declaration")
        self.loop(n, inner[0], None, inner[1])

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.stmt(init)
        self.loop(n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body)

    def s_DoStmt(self, n):
        body, cond = n["inner"]
        self.loop(n, cond, None, body, do=True)

    def s_CXXForRangeStmt(self, n):
        inner = n["inner"]
        stmts = [c for c in inner]
        # [init?] range begin end cond inc var body
        if stmts[0].get("kind"):
            self.stmt(stmts[0])
        rng, beg, end, cond, inc, var, body = stmts[1:8]
        self.stmt(rng)
        arr = self.fr.env.get(rng["inner"][0].get("id"))
        v = self.read(arr) if arr is not None else None
        if isinstance(v, Rec) and v.cls == "ilist" and len(v.f) <= 40:
            # a constant list: executed element by element (exact, no invariant needed)
            d = var["inner"][0]
            try:
                for k in list(v.f):
                    self.bind(d, arr.sub(k) if ty(d).rstrip().endswith("&") else self.new_root(d.get("name", "v"), self.coerce(self.read(arr.sub(k)), self.tt.parse(ty(d)))))
                    try:
                        self.stmt(body)
                    except ContinueEx:
                        pass
            except BreakEx:
                pass
            return
        self.stmt(beg)
        self.stmt(end)
        self.loop(n, cond, inc, body, pre=var)

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_SwitchStmt(self, n):
        inner = n["inner"]
        cond = self.rvalue(self.ev(inner[0]))
        body = inner[-1]
        # flatten cases: list of (label or None, [stmts])
        flat = []

        def add(s):
            k = s.get("kind")
            if k == "CaseStmt":
                lab = s["inner"][0]
                flat.append(("case", lab))
                add(s["inner"][-1])
            elif k == "DefaultStmt":
                flat.append(("default", None))
                add(s["inner"][-1])
            else:
                flat.append(("stmt", s))
        for s in body.get("inner", []):
            add(s)
        start = None
        dflt = None
        for i, (k, x) in enumerate(flat):
            if k == "default":
                dflt = i
            if k == "case":
                lv = self.rvalue(self.ev(x))
                if self.branch(self.scalar_eq(cond, lv)):
                    start = i
                    break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "stmt":
                    self.stmt(x)
        except BreakEx:
            pass

    def scalar_eq(self, a, b):
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.ArithRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        return a == b

    # ------------------------------------------------------------------ loops
    def snapshot(self):
        return (dict(self.store), list(self.pc), list(self.guards), dict(self.heads))

    def restore(self, s):
        self.store, self.pc, self.guards, self.heads = dict(s[0]), list(s[1]), list(s[2]), dict(s[3])
        self.solver = None

    def body_once(self, body, inc, pre):
        """One iteration; returns normally at the back edge."""
        if pre is not None:
            self.stmt(pre)
        try:
            self.stmt(body)
        except ContinueEx:
            pass
        if inc is not None:
            self.ev(inc)

    def changed(self, before, after):
        """Set of (root, leafpath) whose value differs between two stores (roots existing before)."""
        out = set()
        for r, v in before.items():
            w = after.get(r)
            if w is v:
                continue
            lv = dict(self.V.leaves(v))
            lw = dict(self.V.leaves(w))
            if set(lv) != set(lw):
                raise Unsupported("object changes shape in a loop: %s" % r)
            self.check_locs(v, w, r)
            for p in lv:
                if not lv[p].eq(lw[p]):
                    out.add((r, p))
        return out

    def check_locs(self, v, w, r):
        if isinstance(v, It) and not v.loc.same(w.loc):
            raise Unsupported("iterator changes container in a loop")
        if isinstance(v, Ptr):
            if (v.loc is None) != (w.loc is None) or (v.loc is not None and not v.loc.same(w.loc)):
                raise Unsupported("pointer changes target in a loop")
        if isinstance(v, Rec):
            for k in v.f:
                self.check_locs(v.f[k], w.f[k], r)

    def havoc_set(self, mods, tag):
        byroot = {}
        for r, p in mods:
            byroot.setdefault(r, set()).add(p)
        for r in sorted(byroot):
            if r in self.store:
                self.store[r] = self.havoc_value(self.store[r], r.split("!")[0] + "@" + tag, byroot[r])

    def dry_modset(self, n, cond, inc, body, pre, do, mods):
        """Locations the loop body may change at the back edge, from the current (havoced) state."""
        snap = self.snapshot()
        saved = (self.prefix, self.dpos, self.taken, self.work, self.dry, self.spec_depth)
        frsnap = [(dict(f.env), dict(f.names)) for f in self.frames]
        nfr = len(self.frames)
        out, steps = set(), {}
        mark = next(self.cnt)       # names must not depend on whether this pass ran or its result was cached
        self.cnt = itertools.count(mark)
        self.dry += 1
        try:
            work = [()]
            npaths = 0
            while work:
                self.restore(snap)
                del self.frames[nfr:]
                for f, (e, nm) in zip(self.frames, frsnap):
                    f.env, f.names = dict(e), dict(nm)
                self.prefix = work.pop()
                self.dpos = 0
                self.taken = []
                self.work = work
                npaths += 1
                if npaths > 400:
                    raise Unsupported("too many paths in a loop body")
                try:
                    self.havoc_set(mods, "dry")
                    before = dict(self.store)
                    if cond is not None and not do:
                        if not self.branch(self.cond(cond)):
                            raise PathEnd()
                    self.body_once(body, inc, pre)
                    if do and not self.branch(self.cond(cond)):
                        raise PathEnd()
                    out |= self.changed(before, self.store)
                    self.deltas(before, self.store, steps)
                except (PathEnd, BreakEx, ReturnEx):
                    pass
        finally:
            self.restore(snap)
            self.cnt = itertools.count(mark)
            del self.frames[nfr:]
            for f, (e, nm) in zip(self.frames, frsnap):
                f.env, f.names = e, nm
            self.prefix, self.dpos, self.taken, self.work, self.dry, self.spec_depth = saved
        return out, {r: d for r, d in steps.items() if d is not None}

    @staticmethod
    def index_of(v):
        """the integer a variable stands for: its value, or the position of an iterator"""
        if isinstance(v, It):
            v = v.idx
        return v if isinstance(v, z3.ArithRef) and v.sort() == I else None

    def deltas(self, before, after, steps):
        """What one iteration adds to each integer variable or iterator: a constant, or None if it varies."""
        for r, v in before.items():
            a, b = self.index_of(v), self.index_of(after.get(r))
            if a is None or b is None:
                continue
            d = self.advance(a, b)
            if r in steps and steps[r] != d:
                o = steps[r]
                d = (d[0], d[1] or o[1]) if d and o and d[0] == o[0] and None in (d[1], o[1]) else None
            steps[r] = d

    @staticmethod
    def advance(a, b):
        """(constant added, modulus of the machine type or None)"""
        d = z3.simplify(b - a)
        if z3.is_int_value(d):
            return d.as_long(), None
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            x, y = b.arg(1), b.arg(2)
            dx, dy = z3.simplify(x - a), z3.simplify(y - a)
            if z3.is_app_of(y, z3.Z3_OP_ITE):
                ds = [dx, z3.simplify(y.arg(1) - a), z3.simplify(y.arg(2) - a)]
            else:
                ds = [dx, dy]
            if all(z3.is_int_value(t) for t in ds):
                ds = [t.as_long() for t in ds]
                for m in (2 ** 64, 2 ** 32):
                    if len({t % m for t in ds}) == 1 and min(abs(t) for t in ds) < 2 ** 16:
                        return min(ds, key=abs), m
        return None

    def relate(self, entry, steps):
        """Variables that advance by constants in every iteration advance together.  (Every back edge is checked against
        these steps, so this is an invariant by induction.)"""
        rs = sorted(steps, key=lambda r: (steps[r][1] is not None, abs(steps[r][0]) != 1, r))
        at = lambda r: (self.index_of(self.store[r]) - self.index_of(entry[r]))
        for r in rs:
            if steps[r][1] is None:
                self.assume(at(r) >= 0 if steps[r][0] > 0 else at(r) <= 0)
        if len(rs) < 2 or steps[rs[0]][1] is not None or abs(steps[rs[0]][0]) != 1:
            return
        if isinstance(self.store[rs[0]], It):
            # distances between iterators fit ptrdiff_t
            self.assume(z3.And(at(rs[0]) < 2 ** 63, at(rs[0]) > -2 ** 63))
        for r in rs[1:]:
            d, m = steps[r]
            x = steps[rs[0]][0] * d * at(rs[0])
            if m is None:
                self.assume(at(r) == x)
            else:
                x = self.index_of(entry[r]) + x
                self.assume(z3.Implies(z3.And(x >= 0, x < m), self.index_of(self.store[r]) == x))

    def reads_variable(self, n):
        if n.get("kind") == "DeclRefExpr" and n["referencedDecl"].get("kind") == "VarDecl":
            return True
        return any(self.reads_variable(c) for c in n.get("inner", []))

    def loop(self, n, cond, inc, body, pre=None, do=False):
        if self.spec_depth:
            raise NeedFork()
        key = (n["id"], self.fr.callpath, tuple(self.taken))
        mods = self.loop_mod.get(key)
        if mods is None:
            mods = set()
            for _ in range(12):
                m2, steps = self.dry_modset(n, cond, inc, body, pre, do, mods)
                if m2 <= mods:
                    break
                mods = mods | m2
            else:
                raise Unsupported("loop modification set does not stabilise")
            if not self.dry:
                self.loop_mod[key] = mods
                self.loop_step[key] = {r: d for r, d in steps.items() if d and d[0]}
        from .contracts import LoopCtx
        line = (n.get("range", {}).get("begin", {}) or {}).get("line")
        lctx = LoopCtx(self, n, cond, inc, body, mods, line)
        lctx.entry_store = dict(self.store)
        if self.dry:
            spec = None
        else:
            spec = self.task.loop_spec(self, n, lctx)
        tag = "L%s" % (self.task.loop_ordinal(n, self.fr.callpath) if not self.dry else "d")
        if spec is not None:
            spec.enter(lctx)
            for nm, g in spec.invariant(lctx):
                self.oblige("%s/%s/init:%s" % (self.cur_name(), spec.name, nm), g, line, "inv")
            self.candidates(spec, lctx, key, "init", line)
        if spec is None and not self.dry and not do and cond is not None and pre is None and self.reads_variable(cond):
            # a loop whose condition is decided by constants is executed iteration by iteration (exact, no invariant needed)
            try:
                for _ in range(40):
                    c = z3.simplify(self.cond(cond))
                    if z3.is_false(c):
                        return
                    if not z3.is_true(c):
                        break
                    self.body_once(body, inc, pre)
            except BreakEx:
                return
        here = (n["id"], self.fr.callpath)
        if spec is None and not self.dry and not do and cond is not None and pre is None and here not in self.unbounded:
            # a loop that provably ends after a few iterations needs no invariant either
            try:
                for _ in range(3):
                    if not self.branch(self.cond(cond)):
                        return
                    self.body_once(body, inc, pre)
                if not self.feasible(self.cond(cond)):
                    return
            except BreakEx:
                return
            self.unbounded.add(here)
            raise Restart()
        if spec is None and not self.dry:
            self.notes.add("loop without annotation in %s" % self.fr.func.qname)
        gm = set()
        if spec is not None:
            for gl in spec.ghosts(lctx):
                gm |= {(gl.root, p) for p in dict(self.V.leaves(self.store[gl.root]))}
        entry = dict(self.store)
        self.havoc_set(mods | gm, tag)
        steps = {} if self.dry else {r: d for r, d in self.loop_step.get(key, {}).items() if r in entry}
        self.relate(entry, steps)
        if spec is not None:
            lctx.head_store = dict(self.store)
            for g in spec.head(lctx):
                self.assume(g)
            for nm, g in spec.invariant(lctx):
                self.assume(g)
            for nm, g in spec.candidates(lctx):
                if (key, nm) not in self.dropped:
                    self.assume(g)
            lctx.at_head()
            meas0 = spec.measure(lctx)
        head = dict(self.store)
        try:
            if cond is not None and not do:
                if not self.branch(self.cond(cond)):
                    if spec is not None:
                        for nm, g in spec.exit_facts(lctx):
                            self.oblige("%s/%s/exit:%s" % (self.cur_name(), spec.name, nm), g, line, "inv")
                    return
            stack = self.fr.loops
            stack.append(lctx)
            try:
                self.body_once(body, inc, pre)
            finally:
                stack.pop()
            if do and not self.branch(self.cond(cond)):
                if spec is not None and not self.dry:
                    spec.step(lctx)
                return
        except BreakEx:
            return
        # back edge
        if self.dry:
            raise PathEnd()
        ch = self.changed(head, self.store)
        if not ch <= mods:
            self.loop_mod[key] = mods | ch
            raise Restart()
        if steps:
            now = {}
            self.deltas({r: head[r] for r in steps}, self.store, now)
            bad = [r for r in steps if now.get(r) not in (steps[r], (steps[r][0], None))]
            if bad:
                self.loop_step[key] = {r: d for r, d in steps.items() if r not in bad}
                raise Restart()
        if spec is not None:
            spec.step(lctx)
            for nm, g in spec.invariant(lctx):
                self.oblige("%s/%s/keep:%s" % (self.cur_name(), spec.name, nm), g, line, "inv")
            self.candidates(spec, lctx, key, "keep", line)
            if meas0 is not None:
                m1 = spec.measure(lctx)
                self.oblige("%s/%s/terminates" % (self.cur_name(), spec.name), z3.And(m1 < meas0, meas0 >= 0), line,
                            "term")
        raise PathEnd()

    def candidates(self, spec, lctx, key, at, line):
        """Guessed invariants about local variables the loop carries along: those that do not hold are given up (the
        exploration starts again without them), the others are obligations like any invariant."""
        cs = [(nm, g) for nm, g in spec.candidates(lctx) if (key, nm) not in self.dropped]
        if self.dpos >= len(self.prefix):
            bad = {(key, nm) for nm, g in cs if not self.entails(g)}
            if bad:
                self.dropped |= bad
                raise Restart()
        for nm, g in cs:
            self.oblige("%s/%s/%s:%s" % (self.cur_name(), spec.name, at, nm), g, line, "inv")

    def entails(self, g):
        from . import solve
        g = self.guarded(g)
        fs = solve.slice_hyps(list(self.pc), g) + [z3.Not(g)]
        fs += AR.axioms_for(fs, self.task.mode)
        ground = [f for f in fs if not quantified(f)]
        for part in ([ground, fs] if len(ground) < len(fs) else [fs]):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*part)
            if s.check() == z3.unsat:
                return True
        return False

    # ------------------------------------------------------------------ expressions
    def rvalue(self, v):
        return self.read(v) if isinstance(v, Loc) else v

    def ev(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s" % k)
        return m(n)

    def _pass(self, n):
        return self.ev(n["inner"][0])

    def e_SynthExpr(self, n):
        return n["call"]()

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = _pass
    e_SubstNonTypeTemplateParmExpr = _pass

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n["inner"][0])
        if isinstance(v, Loc):
            return v
        if isinstance(v, Rec) and v.cls == "ilist":
            v = self.from_ilist(v, self.tt.parse(ty(n)))
        return self.new_root("tmp", v)

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def e_FloatingLiteral(self, n):
        return AR.float_literal(n["value"], ty(n))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def e_StringLiteral(self, n):
        return AR.string_literal(n["value"])

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None, TRUE)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n):
        return self.V.default(self.tt.parse(ty(n)))

    def e_CXXScalarValueInitExpr(self, n):
        return self.V.default(self.tt.parse(ty(n)))

    def e_CXXDefaultArgExpr(self, n):
        # JSON does not carry the expression; the caller resolves it
        return ("defarg", n)

    def e_CXXThisExpr(self, n):
        return Ptr(self.fr.this, FALSE)

    def e_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        loc = self.lookup(rd["id"])
        if loc is not None:
            return loc
        k = rd["kind"]
        if k == "EnumConstantDecl":
            try:
                return z3.IntVal(self.P.enumerator(self.fr.tu, rd))
            except Unsupported:
                q = (rd.get("type", {}).get("qualType") or "")
                if "trader" in q or "::" not in q:
                    raise
                return z3.Int("enum!%s!%s" % (q, rd.get("name")))      # library enumerator: value unknown
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return ("func", rd)
        if k in ("VarDecl", "ParmVarDecl"):
            return self.global_var(rd, n)
        raise Unsupported("reference to %s %s" % (k, rd.get("name")))

    def global_var(self, rd, n):
        ev = self.P.enum_alias(rd)
        if ev is not None:
            return self.new_root("const", z3.IntVal(ev))
        g = self.fr.tu.vars.get(rd["id"])
        ext = self.task.global_value(self, rd, n)
        if ext is not None:
            return ext
        if g is None:
            g = self.P.find_var(rd)
        if g is None:
            raise Unsupported("global %s" % rd.get("name"))
        key = "global." + g["name"]
        if key in self.static_roots and self.static_roots[key].root in self.store:
            return self.static_roots[key]
        t = self.tt.parse(ty(g))
        const = g.get("constexpr") or ty(g).startswith("const ") or ty(g).rstrip().endswith("const") or re.search(r"\*const|const\[", ty(g)) or t.k == "carr"
        if const:
            init = [c for c in g.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
            if not init:
                raise Unsupported("constant %s without initialiser" % g["name"])
            try:
                v = self.rvalue(self.ev(init[0]))
            except Unsupported:
                v = self.P.constant(self.fr.tu, g) if t.k in ("int", "bool", "enum") else None
                if v is None:
                    raise
            if isinstance(v, Rec) and v.cls == "ilist" and t.k != "carr":
                v = self.from_ilist(v, t)
            loc = self.new_root(key, v)
        else:
            loc = self.new_root(key, self.fresh(t, key))
            self.notes.add("global %s treated as arbitrary at entry" % g["name"])
        self.static_roots[key] = loc
        return loc

    def e_MemberExpr(self, n):
        base = self.ev(n["inner"][0])
        if isinstance(base, Loc) and n.get("isArrow"):
            base = self.read(base)
        if isinstance(base, Ptr):
            self.oblige("%s/null-deref" % self.cur_name(), z3.Not(base.null), None, "safety")
            if base.loc is None:
                raise PathEnd()
            base = base.loc
        elif isinstance(base, It):
            base = base.loc.sub(("i", base.idx))
        if isinstance(base, Loc) and n["name"].lstrip() in ("first", "second"):
            try:
                v = self.read(base)
            except Exception:
                v = None
            if isinstance(v, MapIt):
                base = v
        if isinstance(base, MapIt):
            m = self.read(base.loc)
            self.oblige("%s/map iterator dereference" % self.cur_name(), FALSE if base.key is None else z3.And(
                z3.Not(base.end), z3.Select(m.dom, base.key)), None, "safety")
            if base.key is None:
                raise PathEnd()
            if n["name"].lstrip() == "second":
                return base.loc.sub(("k", base.key))
            base = Rec("pair", {"first": base.key, "second": base.key})
        if not isinstance(base, Loc):
            base = self.new_root("tmp", base)
        return base.sub(n["name"].lstrip())

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        if op == "&":
            v = self.ev(n["inner"][0])
            if isinstance(v, Loc):
                return Ptr(v, FALSE)
            raise Unsupported("address of %r" % (v,))
        if op == "*":
            v = self.rvalue(self.ev(n["inner"][0]))
            if isinstance(v, Ptr):
                self.oblige("%s/null-deref" % self.cur_name(), z3.Not(v.null), None, "safety")
                if v.loc is None:
                    raise PathEnd()
                return v.loc
            if isinstance(v, It):
                return self.deref_iter(v)
            if isinstance(v, tuple):
                return v
            raise Unsupported("deref of %r" % (v,))
        if op in ("++", "--"):
            loc = self.ev(n["inner"][0])
            old = self.read(loc)
            t = self.tt.parse(ty(n["inner"][0]))
            if isinstance(old, It):
                new = It(old.loc, old.idx + (1 if op == "++" else -1))
            else:
                new = self.arith("+" if op == "++" else "-", old, self.one_like(old), t)
            self.write(loc, new)
            return old if n.get("isPostfix") else loc
        v = self.rvalue(self.ev(n["inner"][0]))
        t = self.tt.parse(ty(n))
        if op == "!":
            return z3.Not(self.tobool(v))
        if op == "-":
            r = -v
            if t.k in ("f32", "f64"):
                AR.mark_rep_if(r, v)
                return r
            return self.wrap(r, t)
        if op == "+":
            return v
        if op == "__extension__":
            return v
        raise Unsupported("unary %s" % op)

    def one_like(self, v):
        return z3.IntVal(1) if v.sort() == I else z3.RealVal(1)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            rv = self.rvalue(self.ev(r))
            loc = self.ev(l)
            self.write(loc, rv)
            return loc
        if op == ",":
            self.ev(l)
            return self.ev(r)
        if op in ("&&", "||"):
            a = self.tobool(self.rvalue(self.ev(l)))
            a = z3.simplify(a)
            if op == "&&" and z3.is_false(a):
                return FALSE
            if op == "||" and z3.is_true(a):
                return TRUE
            g = a if op == "&&" else z3.Not(a)
            ok, b = self.speculate(g, lambda: self.tobool(self.rvalue(self.ev(r))))
            if ok:
                return z3.And(a, b) if op == "&&" else z3.Or(a, b)
            if self.branch(g):
                return self.tobool(self.rvalue(self.ev(r)))
            return FALSE if op == "&&" else TRUE
        a = self.rvalue(self.ev(l))
        b = self.rvalue(self.ev(r))
        return self.binop(op, a, b, self.tt.parse(ty(l)), self.tt.parse(ty(n)), self.tt.parse(ty(r)))

    def speculate(self, guard, fn):
        """Evaluate fn under guard without forking; on failure roll back and report False."""
        snap = (dict(self.store), list(self.pc), len(self.guards), len(self.obls), self.cnt)
        ntrace = len(self.trace)
        mark = next(self.cnt)
        self.cnt = itertools.count(mark)
        if not hasattr(self, "spec_roots"):
            self.spec_roots = []
        self.guards.append(guard)
        self.spec_depth += 1
        self.spec_roots.append(set(snap[0].keys()))
        self.solver = None
        try:
            v = fn()
            return True, v
        except (NeedFork, PathEnd, ReturnEx):
            self.store, self.pc = snap[0], snap[1]
            del self.obls[snap[3]:]
            del self.trace[ntrace:]
            self.cnt = itertools.count(mark)
            self.solver = None
            return False, None
        finally:
            self.spec_depth -= 1
            self.spec_roots.pop()
            del self.guards[snap[2]:]

    def binop(self, op, a, b, lt, rt, rtt=None):
        if isinstance(a, It) or isinstance(b, It):
            return self.iter_op(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!="):
                r = self.ptr_eq(a, b)
                return r if op == "==" else z3.Not(r)
            raise Unsupported("pointer arithmetic")
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, z3.BoolRef) and isinstance(b, z3.ArithRef):
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if isinstance(b, z3.BoolRef) and isinstance(a, z3.ArithRef):
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            r = {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
            if self.task.opt.get("nan") and isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef) and a.sort() == R and b.sort() == R:
                bad = [AR.NAN(x) for x in (a, b) if not z3.is_rational_value(z3.simplify(x))]
                if bad:
                    r = z3.Or(*bad, r) if op == "!=" else z3.And(*[z3.Not(x) for x in bad], r)
            return r
        if self.task.opt.get("nan") and isinstance(a, z3.ArithRef) and rt.k in ("f32", "f64"):
            raise Unsupported("floating-point arithmetic on possibly-NaN values")
        return self.arith(op, a, b, rt)

    def ptr_eq(self, a, b):
        a = a if isinstance(a, Ptr) else Ptr(None, TRUE)
        b = b if isinstance(b, Ptr) else Ptr(None, TRUE)
        if a.loc is None or b.loc is None:
            return a.null == b.null
        if a.loc.same(b.loc):
            return a.null == b.null
        return z3.And(a.null, b.null)

    def arith(self, op, a, b, t):
        if t.k in ("f32", "f64"):
            if a.sort() == I:
                a = z3.ToReal(a)
            if b.sort() == I:
                b = z3.ToReal(b)
            if op == "/":
                self.oblige("%s/divide-by-zero" % self.cur_name(), b != 0, None, "fdiv")
            return AR.fop(self.mode, op, a, b, t.k)
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op == "+":
            return self.wrap(a + b, t)
        if op == "-":
            return self.wrap(a - b, t)
        if op == "*":
            return self.wrap(a * b, t)
        if op in ("/", "%"):
            self.oblige("%s/divide-by-zero" % self.cur_name(), b != 0, None, "safety")
            q, r = self.int_div(a, b)
            return q if op == "/" else r
        if op in ("|", "&", "^") :
            if t.k == "int" and z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal({"|": x | y, "&": x & y, "^": x ^ y}[op])
            if t.k == "bool" or True:
                # bool operands promoted to int
                az, bz = a, b
                if op == "|":
                    return z3.If(z3.Or(az != 0, bz != 0), z3.IntVal(1), z3.IntVal(0)) if self.is01(a) and self.is01(b) else self.unsup("bit-or")
                if op == "&":
                    return z3.If(z3.And(az != 0, bz != 0), z3.IntVal(1), z3.IntVal(0)) if self.is01(a) and self.is01(b) else self.unsup("bit-and")
        if op in ("<<", ">>"):
            if z3.is_int_value(b):
                k = 2 ** b.as_long()
                return self.wrap(a * k, t) if op == "<<" else self.unsup("shift right")
        raise Unsupported("operator %s on %r" % (op, t))

    def unsup(self, m):
        raise Unsupported(m)

    def is01(self, a):
        return z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)) or z3.is_int_value(a) and a.as_long() in (0, 1)

    def int_div(self, a, b):
        """C++ truncated division."""
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(b):
            bv = b.as_long()
            if z3.is_int_value(a):
                av = a.as_long()
                q = abs(av) // abs(bv) * (1 if (av >= 0) == (bv >= 0) else -1)
                return z3.IntVal(q), z3.IntVal(av - bv * q)
        q, r = AR.tdiv(a, b), AR.tmod(a, b)
        self.assume(AR.tdiv_axiom(a, b))
        return q, r

    def wrap(self, e, t):
        """Machine wrap-around for unsigned types; signed overflow is reported where enabled."""
        if t.k != "int":
            return e
        bits, signed = t.a
        e = z3.simplify(e)
        if z3.is_int_value(e):
            v = e.as_long()
            if not signed:
                return z3.IntVal(v % (2 ** bits))
            return e
        if not signed:
            m = 2 ** bits
            if self.task.opt.get("nowrap") or self.surely(z3.And(e >= 0, e < m)):
                return e
            return z3.If(e < 0, e + m, z3.If(e >= m, e - m, e))
        if self.task.opt.get("overflow"):
            lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
            self.oblige("%s/signed-overflow" % self.cur_name(), z3.And(e >= lo, e <= hi), None, "safety")
        return e

    def iter_op(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if not a.loc.same(b.loc):
                raise Unsupported("comparing iterators of different containers")
            if op == "==":
                return a.idx == b.idx
            if op == "!=":
                return a.idx != b.idx
            if op == "<":
                return a.idx < b.idx
            if op == ">":
                return a.idx > b.idx
            if op == "<=":
                return a.idx <= b.idx
            if op == ">=":
                return a.idx >= b.idx
            if op == "-":
                d = z3.simplify(a.idx - b.idx)
                if not z3.is_int_value(d):
                    self.assume(z3.And(d >= -2 ** 63, d < 2 ** 63))      # ptrdiff_t
                return d
        if isinstance(a, It) and op in ("+", "-"):
            return It(a.loc, a.idx + b if op == "+" else a.idx - b)
        if isinstance(b, It) and op == "+":
            return It(b.loc, b.idx + a)
        raise Unsupported("iterator operator %s" % op)

    def deref_iter(self, it):
        s = self.read(it.loc)
        if isinstance(s, Seq):
            self.oblige("%s/iterator-in-range" % self.cur_name(), z3.And(it.idx >= s.lo, it.idx < s.hi), None, "safety")
        return it.loc.sub(("i", it.idx))

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        rv = self.rvalue(self.ev(r))
        loc = self.ev(l)
        lv = self.read(loc)
        if isinstance(lv, It):
            self.write(loc, self.iter_op(op, lv, rv))
            return loc
        ct = self.tt.parse(n.get("computeResultType", {}).get("qualType") or ty(n))
        clt = self.tt.parse(n.get("computeLHSType", {}).get("qualType") or ty(n))
        lt = self.tt.parse(ty(l))
        lv2 = self.convert_scalar(lv, lt, clt)
        res = self.arith(op, lv2, rv, ct)
        self.write(loc, self.convert_scalar(res, ct, lt))
        return loc

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        cv = z3.simplify(self.cond(c))
        if z3.is_true(cv):
            return self.ev(a)
        if self.is_assert_fail(b):
            self.do_assert(cv, n)
            return None
        if z3.is_false(cv):
            return self.ev(b)
        line = (n.get("range", {}).get("begin", {}) or {}).get("line")
        oka, va = self.speculate(cv, lambda: self.ev(a))
        if oka:
            okb, vb = self.speculate(z3.Not(cv), lambda: self.ev(b))
            if okb:
                if va is None and vb is None:
                    return None
                try:
                    if isinstance(va, Loc) and isinstance(vb, Loc) and va.same(vb):
                        return va
                    if isinstance(va, (Loc, z3.ExprRef, It, Rec)) and isinstance(vb, (Loc, z3.ExprRef, It, Rec)):
                        x, y = self.rvalue(va), self.rvalue(vb)
                        m = self.V.ite(cv, x, y)
                        if isinstance(m, z3.ExprRef) and m.sort() == R:
                            AR.mark_rep_if(m, x, y)
                        if n.get("valueCategory") == "lvalue":
                            return self.new_root("cond", m)
                        return m
                except Unsupported:
                    pass
        if self.branch(cv):
            return self.ev(a)
        return self.ev(b)

    def is_assert_fail(self, n):
        while n.get("kind") in ("ParenExpr", "ExprWithCleanups"):
            n = n["inner"][0]
        if n.get("kind") != "CallExpr":
            return False
        f = n["inner"][0]
        while f.get("kind") == "ImplicitCastExpr":
            f = f["inner"][0]
        return f.get("referencedDecl", {}).get("name") == "__assert_fail"

    def assert_text(self, n):
        out = []

        def w(x):
            if x.get("kind") == "StringLiteral":
                out.append(x["value"])
            for c in x.get("inner", []):
                w(c)
        w(n["inner"][2])
        return out[0].strip('"') if out else "assert"

    def do_assert(self, c, n):
        txt = self.assert_text(n)
        if self.task.asserts == "check":
            self.oblige("%s/assert:%s" % (self.cur_name(), txt), c, None, "assert")
        else:
            self.assume(c)
            if not self.spec_depth and not self.feasible(TRUE):
                raise PathEnd()

    # ------------------------------------------------------------------ casts
    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            return self.rvalue(self.ev(sub))
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "ArrayToPointerDecay",
                  "UserDefinedConversion", "BuiltinFnToFnPtr", "BaseToDerived"):
            v = self.ev(sub)
            if ck == "ArrayToPointerDecay":
                return v if not isinstance(v, Loc) else self.array_decay(v)
            return v
        if ck == "ConstructorConversion":
            v = self.ev(sub)
            t = self.tt.parse(ty(n))
            if t.k == "fn" and isinstance(self.rvalue(v), Clo):
                return FnV(TRUE, ("clo", self.rvalue(v)))
            return v
        if ck == "NullToPointer":
            return Ptr(None, TRUE)
        if ck == "ToVoid":
            self.ev(sub)
            return None
        v = self.rvalue(self.ev(sub))
        return self.convert(ck, v, self.tt.parse(ty(sub)), self.tt.parse(ty(n)))

    def array_decay(self, loc):
        v = self.read(loc)
        if isinstance(v, z3.ExprRef):
            return v
        return loc

    def convert(self, ck, v, ft, t):
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean",
                  "FloatingToBoolean", "BooleanToSignedIntegral"):
            return self.convert_scalar(v, ft, t)
        if ck in ("PointerToBoolean",):
            return self.tobool(v)
        if ck == "BitCast" or ck == "Dynamic":
            return v
        raise Unsupported("cast %s" % ck)

    def convert_scalar(self, v, ft, t):
        if not isinstance(v, z3.ExprRef):
            return v
        if t.k == "bool":
            return self.tobool(v)
        if t.k in ("f32", "f64"):
            if isinstance(v, z3.BoolRef):
                r = z3.If(v, z3.RealVal(1), z3.RealVal(0))
                AR.mark_rep(r)
                return r
            if v.sort() == I:
                if z3.is_int_value(v):
                    r = z3.RealVal(v.as_long())
                    AR.mark_rep(r)
                    return r
                return AR.rnd(self.mode, z3.ToReal(v), t.k)
            if ft is not None and ft.k == "f64" and t.k == "f32":
                return AR.rnd(self.mode, v, "f32", narrow=True)
            return v
        if t.k in ("int", "enum"):
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if v.sort() == R:
                # truncation toward zero
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                return r
            if t.k == "enum":
                return v
            if ft is None or ft.k not in ("int",) or ft == t:
                return v
            fb, fs = ft.a
            tb, tsg = t.a
            v = z3.simplify(v)
            if z3.is_int_value(v):
                x = v.as_long()
                x %= 2 ** tb
                if tsg and x >= 2 ** (tb - 1):
                    x -= 2 ** tb
                return z3.IntVal(x)
            if fs and tsg and tb >= fb:
                return v
            if not fs and ((tsg and tb > fb) or (not tsg and tb >= fb)):
                return v
            m = 2 ** tb
            if not tsg:
                if tb >= fb:
                    return v if self.surely(v >= 0) else z3.If(v >= 0, v, v + m)
                return z3.If(z3.And(v >= 0, v < m), v, AR.wrapfn(tb, False)(v))
            lo, hi = -2 ** (tb - 1), 2 ** (tb - 1) - 1
            return z3.If(z3.And(v >= lo, v <= hi), v, AR.wrapfn(tb, True)(v))
        return v

    def e_CXXStaticCastExpr(self, n):
        ck = n.get("castKind")
        if ck in ("NoOp", "ToVoid", "ConstructorConversion", "UserDefinedConversion", None, "DerivedToBase", "BaseToDerived"):
            if ck == "ToVoid":
                self.ev(n["inner"][0])
                return None
            v = self.ev(n["inner"][0])
            return v
        return self.e_ImplicitCastExpr(n)

    def e_CXXFunctionalCastExpr(self, n):
        ck = n.get("castKind")
        if ck in ("NoOp", "ConstructorConversion"):
            v = self.ev(n["inner"][0])
            if isinstance(v, Rec) and v.cls == "ilist":
                return self.from_ilist(v, self.tt.parse(ty(n)))
            return v
        return self.e_ImplicitCastExpr(n)

    e_CStyleCastExpr = e_CXXFunctionalCastExpr

    # ------------------------------------------------------------------ aggregates
    def e_InitListExpr(self, n):
        t = self.tt.parse(ty(n))
        vals = [self.rvalue(self.ev(c)) for c in n.get("inner", [])]
        if t.k == "pair" and len(vals) == 2:
            return Rec("pair", {"first": vals[0], "second": vals[1]})
        if t.k in ("int", "f32", "f64", "bool", "enum"):
            return vals[0] if vals else self.V.default(t)
        if t.k == "rec":
            r = self.default_construct(t)
            fs = [f[0] for f in self.P.all_fields(t.a[0])]
            for nm, v in zip(fs, vals):
                r = r.set(nm, v)
            return r
        return Rec("ilist", {"_%d" % i: v for i, v in enumerate(vals)})

    def e_CXXStdInitializerListExpr(self, n):
        v = self.ev(n["inner"][0])
        v = self.rvalue(v)
        if isinstance(v, Rec) and v.cls == "ilist":
            return self.from_ilist(v, self.tt.parse(ty(n)))
        return v

    def from_ilist(self, v, t):
        vals = list(v.f.values())
        if t.k == "seq":
            d = self.V.default(t)
            data = d.data
            for i, x in enumerate(vals):
                data = self.V.sto(data, z3.IntVal(i), self.coerce(x, t.a[1]))
            return Seq(t.a[1], data, z3.IntVal(0), z3.IntVal(len(vals)), t.a[0])
        if t.k == "pair":
            if not vals:
                return self.V.default(t)
            return Rec("pair", {"first": vals[0], "second": vals[1]})
        if t.k == "carr":
            return v
        if not vals:
            return self.default_construct(t)
        if len(vals) == 1:
            return vals[0]
        raise Unsupported("braced initialiser for %r" % (t,))

    def e_ArraySubscriptExpr(self, n):
        base = self.ev(n["inner"][0])
        idx = self.rvalue(self.ev(n["inner"][1]))
        b = self.rvalue(base)
        if isinstance(b, Rec) and b.cls == "ilist":
            vals = list(b.f.values())
            idx = z3.simplify(idx)
            if z3.is_int_value(idx) and 0 <= idx.as_long() < len(vals):
                return self.new_root("arr", vals[idx.as_long()])
            self.oblige("%s/array-bounds" % self.cur_name(), z3.And(idx >= 0, idx < len(vals)), None, "safety")
            r = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                r = self.V.ite(idx == i, vals[i], r)
            return self.new_root("arr", r)
        if isinstance(b, It):
            return self.deref_iter(It(b.loc, b.idx + idx))
        raise Unsupported("subscript of %r" % (b,))

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")

    # ------------------------------------------------------------------ lambdas
    def e_LambdaExpr(self, n):
        inner = n["inner"]
        rec = inner[0]
        fields = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"]
        body = inner[-1]
        capexprs = inner[1:-1]
        caps = {}
        this = None
        def find(x):
            if x.get("kind") in ("DeclRefExpr", "CXXThisExpr"):
                return x
            for c in x.get("inner", []):
                r = find(c)
                if r is not None:
                    return r

        inits = self.init_captures(fields, capexprs, body, rec)
        for fd, ce in zip(fields, capexprs):
            e = ce
            if id(ce) in inits:
                v = self.ev(e)
                if self.tt.parse(ty(fd)).k != "ref" or not isinstance(v, Loc):
                    v = self.new_root("cap", self.rvalue(v))
                caps[inits[id(ce)]] = v
                continue
            ref = find(e)
            ft = self.tt.parse(ty(fd))
            if ref is None:
                raise Unsupported("lambda capture")
            if ref["kind"] == "CXXThisExpr":
                this = self.fr.this
                continue
            did = ref["referencedDecl"]["id"]
            if ft.k == "ref":
                v = self.ev(e)
                caps[did] = v if isinstance(v, Loc) else self.new_root("cap", v)
            else:
                v = self.rvalue(self.ev(e))
                caps[did] = self.new_root("cap", v)
        return Clo(n, self.fr.tu, caps, this, ty(n))

    def init_captures(self, fields, exprs, body, rec):
        """Which variables of the body are init-captures ([x = e]), which the AST does not declare: variables the body reads that are
        declared neither in it nor in the enclosing function, in the order of their declaration (and of the captures)."""
        used, declared = {}, set()

        def w(x):
            if x.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"):
                declared.add(x["id"])
            r = x.get("referencedDecl")
            if x.get("kind") == "DeclRefExpr" and r.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"):
                used[r["id"]] = x
            for y in x.get("inner", []):
                w(y)
        w(rec)
        used = {}
        w(body)
        ids = sorted((i for i in used if i not in declared and self.lookup(i) is None and i not in self.fr.tu.vars), key=lambda i: int(i, 16))

        def plain(x):
            while x.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CXXConstructExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and len(x.get("inner", [])) == 1:
                x = x["inner"][0]
            return x if x.get("kind") in ("DeclRefExpr", "CXXThisExpr") else None
        if not ids:
            return {}
        cand = [(f, e) for f, e in zip(fields, exprs) if plain(e) is None]
        if len(cand) != len(ids):
            cand = [(f, e) for f, e in zip(fields, exprs) if plain(e) is None or (
                plain(e)["kind"] == "DeclRefExpr" and plain(e)["referencedDecl"]["id"] not in used)]
        if len(cand) != len(ids):
            raise Unsupported("lambda init-captures")
        return {id(e): i for (f, e), i in zip(cand, ids)}

    def lambda_func(self, clo):
        from .frontend import Func
        n = clo.node
        f = Func()
        f.node = n
        f.tu = clo.tu
        f.kind = "lambda"
        f.cls = None
        rec = n["inner"][0]
        op = [c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        if not op:
            # generic lambda
            for c in rec["inner"]:
                if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                    op = [x for x in c["inner"] if x.get("kind") == "CXXMethodDecl"][1:]
        if not op:
            raise Unsupported("lambda without operator()")
        op = op[0]
        f.params = [c for c in op.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in op.get("inner", []) if c.get("kind") == "CompoundStmt"]
        f.body = body[0] if body else n["inner"][-1]
        f.qname = "lambda"
        f.inits = []
        t = op.get("type", {})
        q = t.get("desugaredQualType") or t.get("qualType", "")
        from .frontend import result_type
        f.rtype = result_type(q)
        q2 = t.get("qualType", "")
        m = re.search(r"->\s*(.*)$", q2)
        if m:
            f.rtype = m.group(1).strip()
        f.targs = []
        f.mangled = None
        f.is_virtual = False
        f.is_static = False
        f.isconst = True
        f.line = None
        f.file = None
        return f

    def call_value(self, v, args, line=None, types=None):
        if isinstance(v, FnV):
            if v.target and v.target[0] == "clo":
                return self.call_value(v.target[1], args, line, types)
            h = self.task.callback(self, v, args)
            if h is not NotImplemented:
                return h
            raise Unsupported("call of an unknown std::function")
        if isinstance(v, Clo):
            f = self.lambda_func(v)
            if len(self.frames) > self.MAX_DEPTH:
                raise Unsupported("inlining too deep")
            if types is not None:
                args = [self.converted(a, t, p) for a, t, p in zip(args, types, f.params)]
            return self.run_body(f, v.this, args, env=v.caps)
        if isinstance(v, tuple) and v[0] == "func":
            f = self.P.func_by_ref(self.fr.tu, v[1])
            if f is not None:
                return self.call_func(f, None, args, line)
        if isinstance(v, Rec) and v.cls in self.P.classes:           # function object
            f = self.P.method_by_name(T("rec", v.cls), "operator()", len(args))
            if f is not None:
                return self.call_func(f, self.new_root("fn", v), args, line)
        if isinstance(v, z3.ExprRef) and v.sort() == ObjSort and len(args) == 2 and re.match(r"obj!(std::)?(less|greater)\b", str(v).strip("|")):
            from .stdlib import value_less
            x, y = [self.rvalue(a) for a in args]
            return value_less(self, y, x) if "greater" in str(v) else value_less(self, x, y)
        raise Unsupported("call of %r" % (v,))

    def converted(self, a, ft, p):
        """An argument passed by library code to a parameter of another scalar type."""
        t = self.tt.parse(ty(p))
        while t.k == "ref":
            t = t.a[0]
        while ft.k == "ref":
            ft = ft.a[0]
        scalar = ("int", "f32", "f64", "bool", "enum")
        if t.k not in scalar or ft.k not in scalar or t == ft:
            return a
        return self.convert_scalar(self.rvalue(a), ft, t)

    # ------------------------------------------------------------------ calls
    def args_of(self, f, nodes):
        out = []
        for i, a in enumerate(nodes):
            if a.get("kind") == "CXXDefaultArgExpr":
                out.append(self.default_arg(f, i))
            else:
                v = self.ev(a)
                if isinstance(v, Rec) and v.cls == "ilist" and f is not None and i < len(f.params):
                    v = self.from_ilist(v, self.tt.parse(ty(f.params[i]).rstrip("& ")))
                out.append(v)
        return out

    def default_arg(self, f, i):
        cands = [f] if f is not None else []
        if f is not None:
            cands += [g for g in f.tu.funcs if g.mangled == f.mangled]
        for g in cands:
            p = g.params[i]
            for c in p.get("inner", []):
                if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")):
                    return self.ev(c)
        raise Unsupported("default argument")

    def e_CallExpr(self, n):
        fn = n["inner"][0]
        argn = n["inner"][1:]
        c = fn
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        line = (n.get("range", {}).get("begin", {}) or {}).get("line")
        if c.get("kind") == "DeclRefExpr" and c["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            rd = c["referencedDecl"]
            f = self.P.func_by_ref(self.fr.tu, rd)
            if f is not None:
                return self.call_func(f, None, self.args_of(f, argn), line)
            return self.lib_call(rd["name"], argn, n, c)
        v = self.rvalue(self.ev(fn))
        if isinstance(v, tuple) and v[0] == "func":
            f = self.P.func_by_ref(self.fr.tu, v[1])
            if f is not None:
                return self.call_func(f, None, self.args_of(f, argn), line)
            return self.lib_call(v[1]["name"], argn, n, c)
        return self.call_value(v, [self.ev(a) for a in argn], line, [self.tt.parse(ty(a)) for a in argn])

    def lib_call(self, name, argn, n, fnode):
        from . import stdlib
        ext = self.task.external_name(name)
        if ext is not None:
            self.lib_used.add("external:" + name)
            return ext(self, None, [self.ev(a) for a in argn], n)
        h = stdlib.FUNCS.get(name)
        if h is None:
            raise Unsupported("library function %s" % name)
        self.lib_used.add(name)
        return h(self, n, argn)

    def e_CXXMemberCallExpr(self, n):
        from . import stdlib
        me = n["inner"][0]
        argn = n["inner"][1:]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through %s" % me.get("kind"))
        name = me["name"]
        line = (n.get("range", {}).get("begin", {}) or {}).get("line")
        base = self.ev(me["inner"][0])
        objt = self.tt.parse(ty(me["inner"][0]))
        f = self.P.method_by_id(self.fr.tu, me.get("referencedMemberDecl"))
        if f is None:
            ot = objt.a[0] if objt.k in ("ptr", "ref") else objt
            f = self.P.method_by_name(ot, name, len(argn))
        if me.get("isArrow"):
            base = self.rvalue(base)
            if isinstance(base, Ptr):
                self.oblige("%s/null-deref" % self.cur_name(), z3.Not(base.null), line, "safety")
                if base.loc is None:
                    raise PathEnd()
                base = base.loc
            elif isinstance(base, It):
                base = self.deref_iter(base)
            if objt.k == "ptr":
                objt = objt.a[0]
        if not isinstance(base, Loc):
            base = self.new_root("tmp", base)
        if f is not None and objt.k not in ("proto",):
            return self.call_func(f, base, self.args_of(f, argn), line)
        ext = self.task.external_method(objt, name)
        if ext is not None:
            self.lib_used.add("external:%r::%s" % (objt, name))
            return ext(self, base, [self.ev(a) for a in argn], n)
        return stdlib.member_call(self, base, objt, name, argn, n)

    def e_CXXOperatorCallExpr(self, n):
        from . import stdlib
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        rd = c.get("referencedDecl", {})
        name = rd.get("name", "")
        f = self.P.func_by_ref(self.fr.tu, rd) if rd.get("kind") == "FunctionDecl" else None
        if f is not None:
            return self.call_func(f, None, self.args_of(f, n["inner"][1:]))
        fm = self.P.method_by_id(self.fr.tu, rd.get("id"))
        if fm is not None and fm.body is not None and (name != "operator()" or fm.cls in self.P.classes):
            return self.call_func(fm, self.ev(n["inner"][1]), self.args_of(fm, n["inner"][2:]))
        return stdlib.operator_call(self, name, n["inner"][1:], n)

    # ------------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n):
        from . import stdlib
        t = self.tt.parse(ty(n))
        args = n.get("inner", [])
        if t.k == "rec":
            cf = self.find_ctor(n)
            if cf is not None and not cf.node.get("isImplicit") and (cf.body is not None or self.task.contract_for(self, cf) is not None):
                argv = self.args_of(cf, args)
                obj = Rec(t.a[0], {})
                for (nm, ft, init) in self.P.all_fields(t.a[0]):
                    obj.f[nm] = self.default_init(self.tt.parse(ft)) if leaf_sort(self.tt.parse(ft)) is None or self.tt.parse(ft).k == "str" else self.fresh(self.tt.parse(ft), "uninit." + nm)
                # class-type members without initialiser are default constructed by run_inits
                loc = self.new_root(t.a[0], obj)
                c = self.task.contract_for(self, cf)
                if c is not None:
                    self.apply_contract(c, cf, loc, argv, None)
                else:
                    self.inlined.add(cf.qname)
                    self.run_body(cf, loc, argv)
                return self.read(loc)
            if not args:
                return self.default_construct(t)
            a = [x for x in args if x.get("kind") != "CXXDefaultArgExpr"]
            if len(a) == 1:
                v = self.rvalue(self.ev(a[0]))
                if isinstance(v, Rec) and v.cls == t.a[0]:
                    return v
            raise Unsupported("constructor of %s" % t.a[0])
        return stdlib.construct(self, t, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        inner = [c for c in n.get("inner", []) if c.get("kind", "").endswith(("Expr", "Cleanups"))]
        pt = self.tt.parse(ty(n))
        v = None
        for c in inner:
            if c.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                v = self.ev(c)
        if v is None:
            raise Unsupported("new expression")
        return Ptr(self.new_root("heap", v), FALSE)

    def e_SourceLocExpr(self, n):
        return z3.IntVal(0)

    def e_PredefinedExpr(self, n):
        return AR.string_literal("fn")

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default member initialiser in aggregate")

    def e_CXXThrowExpr(self, n):
        raise PathEnd()
