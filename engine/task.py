"""One verification task = one function body against its contract."""
import z3, time
from .types import *
from .values import *
from .frontend import ty
from .contracts import *
from .interp import Exec, Obligation, PathEnd, ReturnEx, TRUE, FALSE
from . import stdlib


class Task:
    def __init__(self, name, func, contract, uses=(), mode="real", asserts="check", nparams=None, pick=None,
                 externals=None, ext_methods=None, ext_names=None, opt=None, callback=None, global_value=None,
                 setup=None, operator=None, construct=None, skip_kinds=(), lambda_of=None,
                 runner=None):
        self.name, self.func, self.contract = name, func, contract
        self.uses = list(uses)             # contracts applied at call sites (instead of inlining)
        self.mode, self.asserts = mode, asserts
        self.nparams, self.pick = nparams, pick
        self.externals = externals or {}
        self.ext_methods = ext_methods or {}
        self.ext_names = ext_names or {}
        self.opt = opt or {}
        self._callback, self._global, self.setup = callback, global_value, setup
        self._operator, self._construct = operator, construct
        self.on_write = None
        self.skip_kinds = set(skip_kinds)
        self.loops = list(contract.loops) if contract else []
        self.runner = runner
        self._ctx = None
        self._loop_ids = {}
        self.loops_used = set()

    # ---- engine interface
    def contract_for(self, ex, f):
        for c in self.uses:
            if c.key == f.qname or f.qname.endswith("::" + c.key):
                if c.nparams is not None and c.nparams != len(f.params):
                    continue
                if c.pick is not None and not c.pick(f, ex):
                    continue
                return c
        return None

    def external(self, f, ex):
        for k, h in self.externals.items():
            if f.qname == k or f.qname.endswith("::" + k):
                return h
        return None

    def external_name(self, name):
        return self.ext_names.get(name)

    def external_method(self, t, name):
        k = t
        while k.k in ("ref", "ptr"):
            k = k.a[0]
        return self.ext_methods.get((k.k, name)) or self.ext_methods.get((str(k.a[0]) if k.a else "", name))

    def callback(self, ex, v, args):
        return self._callback(ex, v, args) if self._callback else NotImplemented

    def operator(self, ex, name, l, v, argnode, n):
        return self._operator(ex, name, l, v, argnode, n) if self._operator else NotImplemented

    def construct(self, ex, t, args, n):
        return self._construct(ex, t, args, n) if self._construct else NotImplemented

    def global_value(self, ex, rd, n):
        return self._global(ex, rd, n) if self._global else None

    def ctx_of(self, ex):
        return self._ctx

    def loop_ordinal(self, n, callpath):
        return self._loop_ids.setdefault((n["id"], callpath), len(self._loop_ids))

    def loop_spec(self, ex, n, L):
        self.loop_ordinal(n, ex.fr.callpath)
        c = []
        for s in self.loops:
            if s.applicable(L):
                c.append(s)
        if not c:
            return None
        if len(c) > 1:
            k = self.static_ordinal(ex, n)
            if k is not None and k < len(self.loops) and self.loops[k] in c:
                c = [self.loops[k]] + [s for s in c if s is not self.loops[k]]
            for s in c:
                try:
                    s.invariant(L)
                except AnnotationMismatch:
                    continue
                except Exception:
                    pass
                c = [s]
                break
        self.loops_used.add(c[0].name)
        return c[0]

    def static_ordinal(self, ex, n):
        """Position of loop n among the loops of the function under contract, in the order of the text, helpers that are
        inlined (functions without a contract, local lambdas) counting where they are called."""
        out, lambdas, stack = [], {}, []

        def lam(x):
            if x.get("kind") == "LambdaExpr":
                return x
            if x.get("kind") in ("ExprWithCleanups", "CXXConstructExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr") and x.get("inner"):
                return lam(x["inner"][0])
            return None

        def enter(key, tu, body):
            if body is not None and key not in stack and len(stack) < 8:
                stack.append(key)
                w(body, tu)
                stack.pop()

        def w(x, tu):
            k = x.get("kind")
            if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                out.append(x["id"])
            if k == "LambdaExpr":
                return
            if k == "VarDecl" and x.get("inner"):
                l = lam(x["inner"][-1])
                if l is not None:
                    lambdas[x["id"]] = l
                    return
            f = None
            if k == "DeclRefExpr":
                rd = x["referencedDecl"]
                if rd["id"] in lambdas:
                    enter(rd["id"], tu, lambdas[rd["id"]]["inner"][-1])
                elif rd.get("kind") == "FunctionDecl":
                    f = ex.P.func_by_ref(tu, rd)
            elif k == "MemberExpr" and x.get("referencedMemberDecl"):
                f = ex.P.method_by_id(tu, x["referencedMemberDecl"])
            if f is not None and f.body is not None and self.contract_for(ex, f) is None:
                enter(id(f), f.tu, f.body)
            for y in x.get("inner", []):
                w(y, tu)
        top = ex.frames[0].func
        w(top.body, top.tu)
        return out.index(n["id"]) if n["id"] in out else None

    # ---- proving
    def find(self, P):
        c = P.func(self.func, self.nparams, self.pick)
        if not c:
            raise AnnotationMismatch("function %s not found" % self.func)
        if len(c) > 1:
            raise AnnotationMismatch("function %s is ambiguous (%d)" % (self.func, len(c)))
        return c[0]

    def run(self, P):
        """Generate all obligations.  Returns (Exec, obligations, ends) where ends = path conditions at exit."""
        ex = Exec(P, self)
        self.ends = []
        if self.runner:
            ex.explore(lambda: self.runner(self, ex))
        else:
            f = self.find(P)
            self.f = f
            ex.explore(lambda: self.one_path(ex, f))
        return ex

    def one_path(self, ex, f):
        C = self.contract
        this = None
        if f.cls and not f.is_static:
            if f.kind == "CXXConstructorDecl":
                obj = Rec(f.cls, {})
                for (nm, ft, init) in ex.P.all_fields(f.cls):
                    t = ex.tt.parse(ft)
                    if nm.startswith("$"):
                        obj.f[nm] = ex.V.default(t)
                    elif leaf_sort(t) is None or t.k == "str":
                        obj.f[nm] = ex.default_init(t)
                    else:
                        obj.f[nm] = ex.fresh(t, "uninit." + nm)
                this = ex.new_root("this", obj)
            else:
                this = ex.new_root("this", self.opt["this"](ex) if "this" in self.opt else ex.fresh(T("rec", f.cls), "this"))
        argv, byref = [], []
        for i, p in enumerate(f.params):
            t = ex.tt.parse(ty(p))
            nm = "arg%d" % i
            if t.k == "ref":
                l = ex.new_root(nm, self.fresh_arg(ex, t.a[0], nm))
                byref.append((l, p, t))
                argv.append(l)
            elif t.k == "ptr":
                inner = ex.new_root(nm + "_obj", self.fresh_arg(ex, t.a[0], nm + "_obj"))
                byref.append((inner, p, t))
                argv.append(ex.new_root(nm, Ptr(inner, z3.Bool(ex.fresh_name(nm + ".null")))))
            else:
                argv.append(ex.new_root(nm, self.fresh_arg(ex, t, nm)))
        ctx = CallCtx(ex, f, this, argv, C)
        self._ctx = ctx
        if self.setup:
            self.setup(ex, ctx)
        ctx.snapshot_pre()
        if C.ghost_entry:
            C.ghost_entry(ctx)
        for nm, g in C.get_requires(ctx):
            ex.assume(g)
        ctx.snapshot_pre()
        mods = C.get_modifies(ctx)
        res = ex.run_body(f, this, [self.pass_arg(ex, f, i, a) for i, a in enumerate(argv)])
        rt = ex.tt.parse(ex.P.rtype(f))
        ctx.snapshot_post(res)
        if C.ghost_exit:
            C.ghost_exit(ctx)
            ctx.post = dict(ex.store)
        if ex.dpos >= len(ex.prefix):
            self.ends.append(list(ex.pc))
        for nm, g in C.get_ensures(ctx):
            ex.oblige("%s/post:%s" % (self.name, nm), g, None, "post")
        # frame
        roots = []
        if this is not None:
            roots.append((this, "this"))
        for l, p, t in byref:
            roots.append((l, p.get("name") or "parameter"))
        for l, nm in roots:
            a, b = ctx.pre[l.root], ctx.post[l.root]
            if a is b:
                continue
            a2, b2 = self.mask(ex, a, b, l, mods)
            diffs = []
            try:
                ex.V.vmap2(lambda x, y: diffs.append(x == y) or x if not x.eq(y) else x, a2, b2)
            except Unsupported:
                diffs = [FALSE]
            if diffs:
                ex.oblige("%s/frame:%s" % (self.name, nm), z3.And(*diffs), None, "frame")

    def pass_arg(self, ex, f, i, a):
        return a

    def fresh_arg(self, ex, t, nm):
        if t.k == "opaque" or t.k == "stream":
            return z3.Const(ex.fresh_name(nm), ObjSort)
        if t.k == "rec" and not ex.P.concrete_subclasses(t.a[0]) or (t.k == "rec" and self.opt.get("abstract_args")
                                                                     and t.a[0] in self.opt["abstract_args"]):
            return Rec(t.a[0], {})
        if t.k == "iter":
            return It(ex.new_root(nm + "_seq", ex.fresh(t.a[0], nm + "_seq")), z3.Int(ex.fresh_name(nm)))
        return ex.fresh(t, nm)

    def mask(self, ex, a, b, l, mods):
        for m in mods:
            if m.root != l.root:
                continue
            if not m.path:
                return None, None

            def put(v, path):
                if not path:
                    return None
                if isinstance(path[0], str) and isinstance(v, Rec):
                    return v.set(path[0], put(v.f[path[0]], path[1:]))
                return None
            a, b = put(a, m.path), put(b, m.path)
        return a, b
