"""Operations on symbolic values (structure-of-arrays lifting, havoc, merge, equality)."""
import z3
from .types import *


def leaf_sort(t, mode=None):
    k = t.k
    if k in ("int", "enum"):
        return I
    if k == "bool":
        return B
    if k in ("f32", "f64"):
        return R
    if k == "str":
        return StrSort
    if k in ("opaque", "stream"):
        return ObjSort
    return None


class ValueOps:
    def __init__(self, program):
        self.P = program
        self.tt = program.tt

    # ------------------------------------------------------------------ shapes
    def build(self, t, leaf, path=""):
        """Build a value of type t calling leaf(sort, path, type) for every scalar leaf."""
        s = leaf_sort(t)
        if s is not None:
            return leaf(s, path, t)
        k = t.k
        if k == "ref":
            return self.build(t.a[0], leaf, path)
        if k == "proto":
            m = self.P.protos[t.a[0]]
            f = {}
            for fl in m.fields:
                ft = self.P.proto_ftype(fl)
                f[fl.name] = self.build(ft, leaf, path + "." + fl.name)
                if fl.label != "repeated" and fl.oneof is None and self.P.uses_has(t.a[0], fl.name):
                    f["has_" + fl.name] = leaf(B, path + ".has_" + fl.name, T("bool"))
            for o in m.oneofs:
                f[o + "_case"] = leaf(I, path + "." + o + "_case", T("enum", "case:%s:%s" % (t.a[0], o)))
            return Rec(t.a[0], f)
        if k == "rec":
            f = {}
            for (n, ft, _) in self.P.all_fields(t.a[0]):
                f[n] = self.build(self.tt.parse(ft), leaf, path + "." + n)
            return Rec(t.a[0], f)
        if k == "pair":
            return Rec("pair", {"first": self.build(t.a[0], leaf, path + ".first"),
                                "second": self.build(t.a[1], leaf, path + ".second")})
        if k == "tuple":
            return Rec("tuple", {"_%d" % i: self.build(a, leaf, path + "._%d" % i) for i, a in enumerate(t.a)})
        if k == "seq":
            def lifted(s, p, tt):
                return leaf(z3.ArraySort(I, s), p, T("lift", tt))
            data = self.build(t.a[1], lifted, path + "[]")
            return Seq(t.a[1], data, leaf(I, path + ".lo", T("lo", t.a[0])), leaf(I, path + ".hi", T("hi", t.a[0])),
                       t.a[0])
        if k == "uptr":
            return self.build_uptr(t, leaf, path)
        if k == "statusor":
            return Rec("statusor", {"ok": leaf(B, path + ".ok", T("bool")),
                                    "status": leaf(ObjSort, path + ".status", T("opaque", "Status")),
                                    "value": self.build(t.a[0], leaf, path + ".value")})
        if k == "map":
            def lifted(s, p, tt):
                return leaf(z3.ArraySort(I, s), p, T("lift", tt))
            return MapV(t.a[0], t.a[1], leaf(z3.ArraySort(I, B), path + ".dom", T("dom")),
                        self.build(t.a[1], lifted, path + "[]"))
        if k == "fn":
            return FnV(leaf(B, path + ".isset", T("bool")), ("abstract", path))
        if k == "status":
            return Rec("status", {"ok": leaf(B, path + ".ok", T("statusok")), "s": leaf(ObjSort, path + ".s", T("opaque", "Status"))})
        if k == "time":
            return Rec("time", {"s": leaf(R, path + ".s", T("f64"))})
        if k == "void":
            return None
        if k == "null":
            return Ptr(None, z3.BoolVal(True))
        if k == "lambda":
            return Clo(None, None, {}, None, t.a[0])
        if k == "pq":
            inner = self.build(T("seq", "vector", t.a[0]), leaf, path)
            AI = z3.ArraySort(I, I)
            return Rec("pq", {"c": inner, "live": leaf(z3.ArraySort(I, B), path + ".live", T("dom")),
                              "n": leaf(I, path + ".n", T("lo", "pq")), "ord": leaf(AI, path + ".ord", T("dom")),
                              "when": leaf(AI, path + ".when", T("dom")), "np": leaf(I, path + ".np", T("lo", "pq")),
                              "cmp": None})
        if k == "future":
            return Rec("future", {"v": self.build(t.a[0], leaf, path + ".v")})
        if k == "null":
            return Ptr(None, z3.BoolVal(True))
        raise Unsupported("value of type %r" % (t,))

    def build_uptr(self, t, leaf, path):
        base = t.a[0]
        f = {"null": leaf(B, path + ".null", T("bool")), "tag": leaf(I, path + ".tag", T("int", 64, False)),
             "ext": leaf(ObjSort, path + ".ext", T("opaque", "ext"))}
        if base.k == "rec":
            for c in self.P.concrete_subclasses(base.a[0]):
                try:
                    f["as_" + c] = self.build(T("rec", c), leaf, path + ".as_" + c)
                except Unsupported:
                    pass
        return Rec("uptr", f)

    # ------------------------------------------------------------------ leaves
    def vmap(self, fn, v):
        if v is None:
            return None
        if isinstance(v, z3.ExprRef):
            return fn(v)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.vmap(fn, x) for k, x in v.f.items()})
        if isinstance(v, Seq):
            return Seq(v.et, self.vmap(fn, v.data), fn(v.lo), fn(v.hi), v.kind)
        if isinstance(v, MapV):
            return MapV(v.kt, v.vt, fn(v.dom), self.vmap(fn, v.data))
        if isinstance(v, It):
            return It(v.loc, fn(v.idx))
        if isinstance(v, MapIt):
            return MapIt(v.loc, fn(v.key) if v.key is not None else None, fn(v.end))
        if isinstance(v, Ptr):
            return Ptr(v.loc, fn(v.null))
        if isinstance(v, FnV):
            return FnV(fn(v.isset), v.target)
        if isinstance(v, Clo):
            return v
        raise Unsupported("vmap %r" % (v,))

    def vmap2(self, fn, a, b):
        if a is None and b is None:
            return None
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return fn(a, b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a.cls != b.cls or set(a.f) != set(b.f):
                if a.cls == "uptr" and b.cls == "uptr":
                    pass
                raise Unsupported("shape mismatch %s/%s" % (a.cls, b.cls))
            return Rec(a.cls, {k: self.vmap2(fn, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Seq) and isinstance(b, Seq):
            return Seq(a.et, self.vmap2(fn, a.data, b.data), fn(a.lo, b.lo), fn(a.hi, b.hi), a.kind)
        if isinstance(a, MapV) and isinstance(b, MapV):
            return MapV(a.kt, a.vt, fn(a.dom, b.dom), self.vmap2(fn, a.data, b.data))
        if isinstance(a, It) and isinstance(b, It):
            if not a.loc.same(b.loc):
                raise Unsupported("merging iterators over different containers")
            return It(a.loc, fn(a.idx, b.idx))
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            if not a.loc.same(b.loc) or a.key is None or b.key is None:
                raise Unsupported("merging map iterators")
            return MapIt(a.loc, fn(a.key, b.key), fn(a.end, b.end))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.loc is None:
                return Ptr(b.loc, fn(a.null, b.null))
            if b.loc is None or a.loc.same(b.loc):
                return Ptr(a.loc, fn(a.null, b.null))
            raise Unsupported("merging pointers to different objects")
        if isinstance(a, FnV) and isinstance(b, FnV):
            if a.target != b.target:
                raise Unsupported("merging functions")
            return FnV(fn(a.isset, b.isset), a.target)
        if isinstance(a, Clo) and isinstance(b, Clo):
            return a
        if isinstance(a, Loc) and isinstance(b, Loc) and a.same(b):
            return a
        raise Unsupported("shape mismatch %r/%r" % (a, b))

    def leaves(self, v, path=""):
        if v is None:
            return
        if isinstance(v, z3.ExprRef):
            yield path, v
        elif isinstance(v, Rec):
            for k in v.f:
                yield from self.leaves(v.f[k], path + "." + k)
        elif isinstance(v, Seq):
            yield from self.leaves(v.data, path + "[]")
            yield path + ".lo", v.lo
            yield path + ".hi", v.hi
        elif isinstance(v, MapV):
            yield path + ".dom", v.dom
            yield from self.leaves(v.data, path + "[]")
        elif isinstance(v, It):
            yield path + ".idx", v.idx
        elif isinstance(v, Ptr):
            yield path + ".null", v.null
        elif isinstance(v, FnV):
            yield path + ".isset", v.isset

    # ------------------------------------------------------------------ seq ops
    def sel(self, data, i):
        return self.vmap(lambda a: simp_select(a, i), data)

    def sto(self, data, i, v):
        return self.vmap2(lambda a, x: z3.Store(a, i, x), data, v)

    # ------------------------------------------------------------------ misc
    def ite(self, c, a, b):
        if a is b:
            return a
        return self.vmap2(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)

    def eq(self, a, b):
        out = []
        self.vmap2(lambda x, y: out.append(x == y) or x, a, b)
        return z3.And(*out) if len(out) != 1 else out[0]

    def same(self, a, b):
        ok = [True]

        def f(x, y):
            if not x.eq(y):
                ok[0] = False
            return x
        try:
            self.vmap2(f, a, b)
        except Unsupported:
            return False
        return ok[0]

    def default(self, t):
        """Value-initialised / default-constructed value."""
        def leaf(s, p, tt):
            return z3.BoolVal(True) if tt.k == "statusok" else default_leaf(s)
        v = self.build(t, leaf)
        return v


def default_leaf(s):
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    if s == StrSort:
        return z3.Const("str!empty", StrSort)
    if s == ObjSort:
        return z3.Const("obj!default", ObjSort)
    if isinstance(s, z3.ArraySortRef):
        return z3.K(s.domain(), default_leaf(s.range()))
    raise Unsupported("default of sort %s" % s)


def simp_select(a, i):
    """Select with read-over-write on syntactically equal / numerically distinct indices."""
    while z3.is_store(a):
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        d = z3.simplify(i - j)
        if z3.is_int_value(d):
            if d.as_long() == 0:
                return a.arg(2)
            a = a.arg(0)
            continue
        break
    if z3.is_const_array(a):
        return a.arg(0)
    return z3.Select(a, i)
