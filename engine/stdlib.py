"""Assumed contracts of the libraries the code uses (C++ standard library, protobuf accessors, absl).

This file is part of the trusted base: each entry states the documented behaviour of one library operation.
"""
import re, z3
from .types import *
from .values import *
from .frontend import ty
from . import arith as AR

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def rv(ex, n):
    return ex.rvalue(ex.ev(n))


def is_move(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                            "ExprWithCleanups", "CXXConstructExpr"):
        inner = [c for c in n.get("inner", []) if c.get("kind") != "CXXDefaultArgExpr"]
        if len(inner) != 1:
            return False
        n = inner[0]
    if n.get("kind") != "CallExpr":
        return False
    f = n["inner"][0]
    while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        f = f["inner"][0]
    return f.get("referencedDecl", {}).get("name") == "move" and len(n["inner"]) == 2


def moved(ex, n, loc):
    """After moving from an object its value is unspecified."""
    if isinstance(loc, Loc) and is_move(n):
        v = ex.read(loc)
        if isinstance(v, (Rec, Seq, MapV)) and not (isinstance(v, Rec) and v.cls in ("pair",) and False):
            if isinstance(v, Rec) and v.cls == "uptr":
                ex.write(loc, v.set("null", TRUE))
            else:
                try:
                    ex.write(loc, ex.havoc_value(v, "moved"))
                except Unsupported:
                    pass


def take(ex, n, t=None):
    """Value of an argument used to initialise / assign an object of type t."""
    l = ex.ev(n)
    v = ex.rvalue(l)
    if isinstance(v, Rec) and v.cls == "ilist" and t is not None:
        v = ex.from_ilist(v, t)
    if t is not None:
        if t.k == "uptr" and isinstance(v, Ptr):
            v = ex.uptr_from(v, t)
        v = ex.coerce(v, t)
        v = as_type(ex, v, n, t)
    if isinstance(l, Loc):
        moved(ex, n, l)
    return v


def as_type(ex, v, n, t):
    """The conversion that library code applies when it initialises a scalar of type t from the expression n."""
    if t.k in ("int", "f32", "f64", "bool") and isinstance(v, z3.ExprRef) and isinstance(n, dict):
        ft = ex.tt.parse(ty(n))
        while ft.k == "ref":
            ft = ft.a[0]
        if ft != t and ft.k in ("int", "f32", "f64", "bool", "enum"):
            return ex.convert_scalar(v, ft, t)
    return v


# ----------------------------------------------------------------------------- status
def mk_status(ok, s=None):
    return Rec("status", {"ok": ok, "s": s if s is not None else z3.Const("status!ok", ObjSort)})


def status_ok(v):
    return v.f["ok"]


# ----------------------------------------------------------------------------- free functions
FUNCS = {}


def fn(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


LIMITS = {"f32": AR.FLT_MAX}


@fn("max", "min")
def _minmax(ex, n, args, _name=None):
    name = callee(n)
    t = ex.tt.parse(ty(n))
    if t.k == "ref":
        t = t.a[0]
    if not args:
        return numeric_limit(ex, name, t)
    if len(args) == 1:
        v = rv(ex, args[0])
        if isinstance(v, Seq):
            n = z3.simplify(v.hi - v.lo)
            if z3.is_int_value(n) and 0 < n.as_long() <= 16:
                xs = [ex.V.sel(v.data, v.lo + i) for i in range(n.as_long())]
                r = xs[0]
                for x in xs[1:]:
                    r = AR.fmin(r, x) if name == "min" else AR.fmax(r, x)
                return r
        raise Unsupported("std::%s of a list" % name)
    a, b = rv(ex, args[0]), rv(ex, args[1])
    if len(args) == 3:
        c = rv(ex, args[2])
        if name == "min":
            return ex.V.ite(ex.tobool(ex.rvalue(ex.call_value(c, [b, a]))), b, a)
        return ex.V.ite(ex.tobool(ex.rvalue(ex.call_value(c, [a, b]))), b, a)
    return AR.fmin(a, b) if name == "min" else AR.fmax(a, b)


def numeric_limit(ex, name, t):
    if t.k == "f32":
        m = AR.rv(AR.FLT_MAX)
        return AR.mark_rep(m if name == "max" else -m if name == "lowest" else AR.rv(AR.fractions.Fraction(1, 2 ** 126)))
    if t.k == "f64":
        m = AR.rv(AR.fractions.Fraction(2 ** 1024 - 2 ** 971))
        return AR.mark_rep(m if name == "max" else -m if name == "lowest" else AR.rv(AR.fractions.Fraction(1, 2 ** 1022)))
    if t.k == "int":
        bits, s = t.a
        if name == "max":
            return z3.IntVal(2 ** (bits - 1) - 1 if s else 2 ** bits - 1)
        return z3.IntVal(-2 ** (bits - 1) if s else 0)
    raise Unsupported("numeric_limits")


@fn("lowest", "epsilon")
def _lowest(ex, n, args):
    t = ex.tt.parse(ty(n))
    if callee(n) == "epsilon":
        return AR.mark_rep(AR.rv(AR.fractions.Fraction(1, 2 ** (23 if t.k == "f32" else 52))))
    return numeric_limit(ex, "lowest", t)


def callee(n):
    f = n["inner"][0]
    while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        f = f["inner"][0]
    return f.get("referencedDecl", {}).get("name") or f.get("name")


@fn("floor", "floorf")
def _floor(ex, n, a):
    return AR.ffloor(rv(ex, a[0]))


@fn("ceil", "ceilf")
def _ceil(ex, n, a):
    return AR.fceil(rv(ex, a[0]))


@fn("round", "roundf")
def _round(ex, n, a):
    return AR.fround(rv(ex, a[0]))


@fn("trunc", "truncf")
def _trunc(ex, n, a):
    v = rv(ex, a[0])
    return AR.mark_rep(z3.ToReal(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))))


@fn("lround", "llround", "lroundf")
def _lround(ex, n, a):
    return z3.ToInt(AR.fround(rv(ex, a[0])))


@fn("abs", "fabs", "fabsf")
def _abs(ex, n, a):
    v = rv(ex, a[0])
    r = z3.If(v >= 0, v, -v)
    if v.sort() == R:
        AR.mark_rep_if(r, v)
    return r


def toreal(v):
    return z3.ToReal(v) if v.sort() == I else v


@fn("sqrt", "sqrtf")
def _sqrt(ex, n, a):
    v = toreal(rv(ex, a[0]))
    ex.oblige("%s/sqrt-of-negative" % ex.cur_name(), v >= 0, None, "fdom")
    s = AR.SQRT(v)
    if ex.mode != "rnd":
        ex.assume(z3.Implies(v >= 0, z3.And(s >= 0, s * s == v)))
        return s
    ex.assume(z3.Implies(v >= 0, s >= 0))
    return AR.rnd(ex.mode, s, ex.tt.parse(ty(n)).k)


@fn("log", "logf")
def _log(ex, n, a):
    v = toreal(rv(ex, a[0]))
    ex.oblige("%s/log-of-nonpositive" % ex.cur_name(), v > 0, None, "fdom")
    return AR.rnd(ex.mode, AR.LOG(v), ex.tt.parse(ty(n)).k)


@fn("exp", "expf")
def _exp(ex, n, a):
    r = AR.EXP(toreal(rv(ex, a[0])))
    ex.assume(r > 0)
    return AR.rnd(ex.mode, r, ex.tt.parse(ty(n)).k)


@fn("log1p", "log1pf")
def _log1p(ex, n, a):
    v = 1 + toreal(rv(ex, a[0]))
    ex.oblige("%s/log-of-nonpositive" % ex.cur_name(), v > 0, None, "fdom")
    return AR.rnd(ex.mode, AR.LOG(v), ex.tt.parse(ty(n)).k)


@fn("expm1", "expm1f")
def _expm1(ex, n, a):
    r = AR.EXP(toreal(rv(ex, a[0])))
    ex.assume(r > 0)
    return AR.rnd(ex.mode, r - 1, ex.tt.parse(ty(n)).k)


@fn("pow", "powf")
def _pow(ex, n, a):
    b, e = toreal(rv(ex, a[0])), z3.simplify(toreal(rv(ex, a[1])))
    if ex.mode == "real" and not z3.is_rational_value(e):
        ex.oblige("%s/power-of-nonpositive" % ex.cur_name(), z3.Or(b > 0, z3.And(b == 0, e > 0)), None, "fdom")
        r = AR.EXP(e * AR.LOG(b))
        ex.assume(r > 0)
        return r if ex.surely(b > 0) else z3.If(b == 0, 0, r)
    return AR.rnd(ex.mode, AR.POW(b, e), ex.tt.parse(ty(n)).k)


@fn("isnan", "isinf")
def _isnan(ex, n, a):
    v = rv(ex, a[0])
    if ex.task.opt.get("nan"):
        if callee(n) != "isnan":
            raise Unsupported("isinf on possibly infinite values")
        return AR.NAN(v)
    ex.notes.add("floating-point values are finite (no NaN/infinity)")
    return FALSE


@fn("isfinite")
def _isfinite(ex, n, a):
    rv(ex, a[0])
    if ex.task.opt.get("nan"):
        raise Unsupported("isfinite on possibly infinite values")
    ex.notes.add("floating-point values are finite (no NaN/infinity)")
    return TRUE


@fn("async")
def _async(ex, n, a):
    """std::async: the closure runs some time before the future is collected, so that what it refers to must stay alive and
    unchanged: an object created in the current iteration of a loop (it dies with the iteration) or changed by the loop does not."""
    fs = [ex.rvalue(ex.ev(x)) for x in a]
    clo = [v for v in fs if isinstance(v, Clo)]
    if len(clo) != 1 or fs[-1] is not clo[0]:
        raise Unsupported("std::async with arguments")
    refs = []
    for l in clo[0].caps.values():
        if not l.root.startswith("cap!"):
            refs.append(l)
        v = ex.read(l)
        if isinstance(v, Ptr) and v.loc is not None:
            refs.append(v.loc)
    for lp in [x for f in ex.frames for x in f.loops]:
        for l in refs:
            ex.oblige("%s/async:captured-object-outlives-the-call" % ex.cur_name(), z3.BoolVal(l.root in lp.head_store), None, "safety")
            ex.oblige("%s/async:captured-object-unchanged" % ex.cur_name(), z3.BoolVal(l.root not in lp.modroots()), None, "safety")
    return Rec("future", {"v": ex.rvalue(ex.call_value(clo[0], []))})


@fn("move", "forward", "as_const", "addressof")
def _move(ex, n, a):
    if len(a) != 1:
        return _copy(ex, n, a)
    l = ex.ev(a[0])
    if callee(n) == "addressof":
        return Ptr(l, FALSE)
    return l


@fn("swap")
def _swap(ex, n, a):
    x, y = ex.ev(a[0]), ex.ev(a[1])
    vx, vy = ex.read(x), ex.read(y)
    ex.write(x, vy)
    ex.write(y, vx)


@fn("make_pair")
def _make_pair(ex, n, a):
    return Rec("pair", {"first": rv(ex, a[0]), "second": rv(ex, a[1])})


@fn("distance")
def _distance(ex, n, a):
    x, y = rv(ex, a[0]), rv(ex, a[1])
    return ex.iter_op("-", y, x)


@fn("next", "prev")
def _next(ex, n, a):
    x = rv(ex, a[0])
    k = z3.IntVal(1)
    if len(a) > 1 and a[1].get("kind") != "CXXDefaultArgExpr":
        k = rv(ex, a[1])
    return It(x.loc, x.idx + k if callee(n) == "next" else x.idx - k)


@fn("advance")
def _advance(ex, n, a):
    l = ex.ev(a[0])
    v = ex.read(l)
    ex.write(l, It(v.loc, v.idx + rv(ex, a[1])))


@fn("begin", "cbegin", "end", "cend", "size", "empty")
def _begin(ex, n, a):
    l = ex.ev(a[0])
    if not isinstance(l, Loc):
        l = ex.new_root("tmp", l)
    if isinstance(ex.read(l), Rec) and ex.read(l).cls == "ilist" and callee(n) in ("size", "empty"):
        return z3.IntVal(len(ex.read(l).f)) if callee(n) == "size" else z3.BoolVal(not ex.read(l).f)
    return seq_member(ex, l, callee(n), [], n)


def pred_over(ex, lo, hi, f):
    """Formula of a comparator over a symbolic element: f(q) must evaluate without forking."""
    q = z3.Int(ex.fresh_name("qe"))
    sv_pc, sv_store, sv_obl = list(ex.pc), dict(ex.store), len(ex.obls)
    ex.pc.append(z3.And(q >= lo, q < hi))
    ex.solver = None
    ok, r = ex.speculate(TRUE, lambda: f(q))
    if not ok:
        r = ex.merged(lambda: f(q))
    ex.pc, ex.store = sv_pc, sv_store
    ex.solver = None
    del ex.obls[sv_obl:]
    return q, r


@fn("lower_bound", "upper_bound")
def _bound(ex, n, a):
    name = callee(n)
    b, e = rv(ex, a[0]), rv(ex, a[1])
    vl = ex.ev(a[2])
    v = ex.rvalue(vl)
    comp = rv(ex, a[3]) if len(a) > 3 else None
    if not (isinstance(b, It) and isinstance(e, It) and b.loc.same(e.loc)):
        raise Unsupported("%s on unrelated iterators" % name)
    s = ex.read(b.loc)
    ex.oblige("%s/%s: valid range" % (ex.cur_name(), name), z3.And(s.lo <= b.idx, b.idx <= e.idx, e.idx <= s.hi), None,
              "safety")
    vloc = vl if isinstance(vl, Loc) else ex.new_root("key", v)
    vt = ex.tt.parse(ty(a[2]))

    def before(q):
        el = b.loc.sub(("i", q))
        if comp is not None:
            if name == "lower_bound":
                return ex.tobool(ex.rvalue(ex.call_value(comp, [el, vloc], types=[s.et, vt])))
            return z3.Not(ex.tobool(ex.rvalue(ex.call_value(comp, [vloc, el], types=[vt, s.et]))))
        x = ex.read(el)
        return x < v if name == "lower_bound" else z3.Not(v < x)
    q, p = pred_over(ex, b.idx, e.idx, before)
    q2 = z3.Int(ex.fresh_name("qe2"))
    p2 = z3.substitute(p, (q, q2))
    ex.oblige("%s/%s: range partitioned" % (ex.cur_name(), name),
              z3.ForAll([q, q2], z3.Implies(z3.And(b.idx <= q, q <= q2, q2 < e.idx, p2), p)), None, "pre")
    r = z3.Int(ex.fresh_name("bound"))
    ex.assume(z3.And(b.idx <= r, r <= e.idx))
    ex.assume(z3.ForAll([q], z3.Implies(z3.And(b.idx <= q, q < r), p)))
    ex.assume(z3.ForAll([q], z3.Implies(z3.And(r <= q, q < e.idx), z3.Not(p))))
    # ground instances at the boundary
    ex.assume(z3.Implies(r > b.idx, z3.substitute(p, (q, r - 1))))
    ex.assume(z3.Implies(r < e.idx, z3.Not(z3.substitute(p, (q, r)))))
    return It(b.loc, r)


@fn("sort", "stable_sort")
def _sort(ex, n, a):
    b, e = rv(ex, a[0]), rv(ex, a[1])
    comp = rv(ex, a[2]) if len(a) > 2 else None
    s = ex.read(b.loc)
    old = s
    data = ex.havoc_value(s.data, "sorted")
    new = Seq(s.et, data, s.lo, s.hi, s.kind)
    ex.write(b.loc, new)
    perm = z3.Function(ex.fresh_name("perm"), I, I)
    inv = z3.Function(ex.fresh_name("perminv"), I, I)
    q = z3.Int(ex.fresh_name("qs"))
    inr = z3.And(b.idx <= q, q < e.idx)
    ex.assume(z3.ForAll([q], z3.Implies(inr, z3.And(b.idx <= perm(q), perm(q) < e.idx, inv(perm(q)) == q,
                                                    ex.V.eq(ex.V.sel(data, q), ex.V.sel(old.data, perm(q))))),
                        patterns=[perm(q)] if True else []))
    ex.assume(z3.ForAll([q], z3.Implies(inr, z3.And(b.idx <= inv(q), inv(q) < e.idx, perm(inv(q)) == q,
                                                    ex.V.eq(ex.V.sel(old.data, q), ex.V.sel(data, inv(q))))),
                        patterns=[inv(q)]))
    ex.assume(z3.ForAll([q], z3.Implies(z3.Not(inr), ex.V.eq(ex.V.sel(data, q), ex.V.sel(old.data, q)))))
    ex.last_sort = (perm, inv, b.idx, e.idx, old, new)
    q2 = z3.Int(ex.fresh_name("qs2"))

    def less(x, y):
        if comp is not None:
            return ex.tobool(ex.rvalue(ex.call_value(comp, [b.loc.sub(("i", x)), b.loc.sub(("i", y))],
                                                      types=[s.et, s.et])))
        return value_less(ex, ex.read(b.loc.sub(("i", x))), ex.read(b.loc.sub(("i", y))))
    sv = (list(ex.pc), dict(ex.store), len(ex.obls))
    ok, p = ex.speculate(TRUE, lambda: less(q2, q))
    if not ok:
        p = ex.merged(lambda: less(q2, q))
    ex.pc, ex.store = sv[0], sv[1]
    ex.solver = None
    ex.assume(z3.ForAll([q, q2], z3.Implies(z3.And(b.idx <= q, q < q2, q2 < e.idx), z3.Not(p))))


def value_less(ex, x, y):
    if isinstance(x, z3.ArithRef):
        return x < y
    if isinstance(x, Rec) and x.cls in ("pair", "tuple"):
        r = FALSE
        for k in reversed(list(x.f)):
            r = z3.Or(value_less(ex, x.f[k], y.f[k]), z3.And(z3.Not(value_less(ex, y.f[k], x.f[k])), r))
        return r
    raise Unsupported("operator< on %r" % (x,))


@fn("back_inserter")
def _back_inserter(ex, n, a):
    return Rec("backins", {"loc": ex.ev(a[0])}) if False else BackIns(ex.ev(a[0]))


class BackIns:
    def __init__(self, loc):
        self.loc = loc


@fn("copy")
def _copy(ex, n, a):
    b, e = rv(ex, a[0]), rv(ex, a[1])
    d = ex.ev(a[2])
    d = ex.rvalue(d)
    src = ex.read(b.loc)
    ex.oblige("%s/copy: valid range" % ex.cur_name(), z3.And(src.lo <= b.idx, b.idx <= e.idx, e.idx <= src.hi), None, "safety")
    if isinstance(d, BackIns):
        append_range(ex, d.loc, src, b.idx, e.idx)
        return d
    raise Unsupported("std::copy to an iterator")


def append_range(ex, loc, src, b, e):
    dst = ex.read(loc)
    cnt = e - b
    q = z3.Int(ex.fresh_name("qa"))

    def lift(da, sa):
        na = z3.Const(ex.fresh_name("appended"), da.sort())
        if da.sort().range() == R:
            AR.mark_rep(na)
        ex.assume(z3.ForAll([q], na[q] == z3.If(z3.And(q >= dst.hi, q < dst.hi + cnt), z3.Select(sa, q - dst.hi + b),
                                                z3.Select(da, q))))
        return na
    data = ex.V.vmap2(lift, dst.data, src.data)
    ex.write(loc, Seq(dst.et, data, dst.lo, z3.simplify(dst.hi + cnt), dst.kind))


def seq_append(ex, loc, v):
    s = ex.read(loc)
    v = ex.rvalue(v)
    if s.et.k == "uptr" and isinstance(v, Ptr):
        v = ex.uptr_from(v, s.et)
    if s.et.k in ("f32", "f64") and isinstance(v, z3.ArithRef) and v.sort() == I:
        v = ex.convert_scalar(v, T("int", 64, True), s.et)
    ex.write(loc, Seq(s.et, ex.V.sto(s.data, s.hi, v), s.lo, z3.simplify(s.hi + 1), s.kind))


# ---- algorithms that visit a range: executed as the loop they are specified to be (with the invariants of loops, found by role)
def visit(ex, n, name, first, last, vars, step):
    """for (it = first; it != last; ++it) step(*it), with further state variables [(name, type, value)].  step returns a truth
    value to stop early (None: never).  Returns the locations of the state variables and of the iterator at the end."""
    from .interp import Frame
    from .frontend import Func
    src = ex.read(first.loc)
    ex.oblige("%s/%s: valid range" % (ex.cur_name(), name), z3.And(src.lo <= first.idx, first.idx <= last.idx, last.idx <= src.hi), None, "safety")
    up = ex.fr
    f = Func()
    f.qname, f.kind, f.tu, f.body, f.params, f.cls = "std::" + name, "library", up.tu, {"kind": "CompoundStmt", "inner": []}, [], None
    fr = Frame(up.tu, f, up.this, len(ex.frames), up.callpath + (f.qname,))
    fr.env, fr.names = dict(up.env), dict(up.names)
    ex.frames.append(fr)
    try:
        out = []
        for nm, t, v in [("it", "iterator", first)] + vars:
            d = {"id": "%s!%s" % (n["id"], nm), "kind": "VarDecl", "name": "%s.%s" % (name, nm), "type": {"qualType": t}}
            ex.bind(d, ex.new_root(name + "." + nm, v))
            out.append(fr.env[d["id"]])
        it = out[0]

        def body():
            from .interp import BreakEx
            r = step(ex.deref_iter(ex.read(it)), out[1:])
            if r is not None and ex.branch(r):
                raise BreakEx()

        def inc():
            v = ex.read(it)
            ex.write(it, It(v.loc, v.idx + 1))
        synth = lambda g: {"kind": "SynthExpr", "call": g, "inner": []}
        node = {"kind": "CXXForRangeStmt", "id": n["id"] + "!" + name, "inner": []}
        ex.loop(node, synth(lambda: ex.read(it).idx != last.idx), synth(inc), synth(body))
        return out[1:], it
    finally:
        del ex.frames[ex.frames.index(fr):]


def range_of(ex, a):
    b, e = rv(ex, a[0]), rv(ex, a[1])
    if not (isinstance(b, It) and isinstance(e, It)):
        raise Unsupported("algorithm on something that is not a sequence")
    return b, e


def pred_of(ex, a):
    f = rv(ex, a)
    return lambda x: ex.tobool(ex.rvalue(ex.call_value(f, [x])))


@fn("accumulate")
def _accumulate(ex, n, a):
    b, e = range_of(ex, a)
    t = ex.tt.parse(ty(n))
    if t.k not in ("int", "f32", "f64"):
        raise Unsupported("std::accumulate of type %s" % t.k)
    et = ex.read(b.loc).et
    f = rv(ex, a[3]) if len(a) > 3 else None

    def step(x, vs):
        acc = ex.read(vs[0])
        if f is None:
            c = t if t.k == et.k else T("f64") if "f64" in (t.k, et.k) else T("f32") if "f32" in (t.k, et.k) else t
            cv = lambda v, vt: ex.convert_scalar(v, vt, c) if vt != c else v
            r = ex.arith("+", cv(acc, t), cv(ex.rvalue(x), et), c)
            r = ex.convert_scalar(r, c, t) if c != t else r
        else:
            r = ex.call_value(f, [ex.new_root("acc", acc), x])
            r = ex.rvalue(r)
            rt = ex.tt.parse(ex.lambda_func(f).rtype) if isinstance(f, Clo) else t
            r = ex.convert_scalar(r, rt, t) if rt != t else r
        ex.write(vs[0], r)
    vs, _ = visit(ex, n, "accumulate", b, e, [("acc", ty(n), as_type(ex, rv(ex, a[2]), a[2], t))], step)
    return ex.read(vs[0])


@fn("for_each")
def _for_each(ex, n, a):
    b, e = range_of(ex, a)
    f = rv(ex, a[2])

    def step(x, vs):
        ex.call_value(f, [x])
    visit(ex, n, "for_each", b, e, [], step)
    return f


@fn("transform")
def _transform(ex, n, a):
    if len(a) != 4:
        raise Unsupported("std::transform of two ranges")
    b, e = range_of(ex, a)
    d, f = rv(ex, a[2]), rv(ex, a[3])
    if not isinstance(d, BackIns):
        raise Unsupported("std::transform to an iterator")

    def step(x, vs):
        seq_append(ex, d.loc, ex.call_value(f, [x]))
    visit(ex, n, "transform", b, e, [], step)
    return d


@fn("copy_if")
def _copy_if(ex, n, a):
    b, e = range_of(ex, a)
    d, p = rv(ex, a[2]), pred_of(ex, a[3])
    if not isinstance(d, BackIns):
        raise Unsupported("std::copy_if to an iterator")

    def step(x, vs):
        if ex.branch(p(x)):
            seq_append(ex, d.loc, ex.rvalue(x))
    visit(ex, n, "copy_if", b, e, [], step)
    return d


@fn("count_if")
def _count_if(ex, n, a):
    b, e = range_of(ex, a)
    p = pred_of(ex, a[2])

    def step(x, vs):
        if ex.branch(p(x)):
            ex.write(vs[0], ex.read(vs[0]) + 1)
    vs, _ = visit(ex, n, "count_if", b, e, [("count", "long", z3.IntVal(0))], step)
    return ex.read(vs[0])


@fn("find_if", "find_if_not")
def _find_if(ex, n, a):
    b, e = range_of(ex, a)
    p = pred_of(ex, a[2])
    neg = callee(n) == "find_if_not"
    vs, it = visit(ex, n, "find_if", b, e, [], lambda x, vs: z3.Not(p(x)) if neg else p(x))
    return ex.read(it)


@fn("any_of", "all_of", "none_of")
def _any_of(ex, n, a):
    b, e = range_of(ex, a)
    p = pred_of(ex, a[2])
    k = callee(n)
    vs, it = visit(ex, n, k, b, e, [], lambda x, vs: z3.Not(p(x)) if k == "all_of" else p(x))
    found = ex.read(it).idx != e.idx
    return found if k == "any_of" else z3.Not(found)


@fn("make_unique")
def _make_unique(ex, n, a):
    t = ex.tt.parse(ty(n))
    base = t.a[0]
    if base.k == "rec":
        cls = base.a[0]
        cs = [c for c in ex.P.ctors(cls) if c.body is not None and len(c.params) == len(a) and not c.node.get("isImplicit")]
        if len(cs) > 1:
            raise Unsupported("overloaded constructor in make_unique")
        if cs:
            v = construct_rec(ex, cls, cs[0], ex.args_of(cs[0], a))
        elif not a:
            v = ex.default_construct(base)
        elif len(a) == 1:
            v = rv(ex, a[0])
            if not (isinstance(v, Rec) and v.cls == cls):
                raise Unsupported("make_unique<%s>" % cls)
        else:
            raise Unsupported("make_unique<%s>" % cls)
        return ex.uptr_from(Ptr(ex.new_root("heap", v), FALSE), t)
    raise Unsupported("make_unique<%r>" % base)


def construct_rec(ex, cls, cf, argv):
    obj = Rec(cls, {})
    for (nm, ft, init) in ex.P.all_fields(cls):
        t = ex.tt.parse(ft)
        if nm.startswith("$"):
            obj.f[nm] = ex.V.default(t)
        elif leaf_sort(t) is None or t.k == "str":
            obj.f[nm] = ex.default_init(t)
        else:
            obj.f[nm] = ex.fresh(t, "uninit." + nm)
    loc = ex.new_root(cls, obj)
    c = ex.task.contract_for(ex, cf)
    if c is not None:
        ex.apply_contract(c, cf, loc, argv, None)
    else:
        ex.inlined.add(cf.qname)
        ex.run_body(cf, loc, argv)
    return ex.read(loc)


@fn("exit", "abort", "_Exit", "terminate")
def _exit(ex, n, a):
    from .interp import PathEnd
    raise PathEnd()


@fn("OkStatus")
def _ok(ex, n, a):
    return mk_status(TRUE)


@fn("InvalidArgumentError", "AbortedError", "FailedPreconditionError", "InternalError", "NotFoundError",
    "UnavailableError", "DataLossError", "UnknownError", "OutOfRangeError")
def _err(ex, n, a):
    for x in a:
        ex.ev(x)
    return mk_status(FALSE, z3.Const("status!" + callee(n), ObjSort))


@fn("StrFormat", "StrCat", "StrJoin")
def _fmt(ex, n, a):
    """Formatting is an uninterpreted function of the format and its arguments."""
    vals = [ex.rvalue(ex.ev(x)) for x in a if x.get("kind") != "CXXDefaultArgExpr"]
    return fmt_term(ex, callee(n), vals)


def fmt_term(ex, name, vals):
    ls = []
    for v in vals:
        if isinstance(v, z3.ExprRef):
            ls.append(v)
        elif isinstance(v, Rec) and set(v.f) == {"fmt"}:
            ls.append(v.f["fmt"])
        else:
            try:
                ls += [x for _, x in ex.V.leaves(v)]
            except Exception:
                raise Unsupported("formatting %r" % (v,))
    ls2 = []
    for x in ls:
        if x.sort() == B:
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        ls2.append(x)
    f = z3.Function(name + "/" + "".join(str(x.sort())[0] for x in ls2), *([x.sort() for x in ls2] + [StrSort]))
    return f(*ls2)


@fn("PrintF", "FPrintF")
def _printf(ex, n, a):
    for x in a:
        ex.ev(x)
    return z3.IntVal(0)


# ----------------------------------------------------------------------------- time
@fn("FromUnixSeconds", "UnixEpoch")
def _fromunix(ex, n, a):
    if not a:
        return Rec("time", {"s": z3.RealVal(0)})
    return Rec("time", {"s": z3.ToReal(rv(ex, a[0]))})


@fn("ToUnixSeconds")
def _tounix(ex, n, a):
    v = rv(ex, a[0])
    return z3.ToInt(v.f["s"])


@fn("Now")
def _now(ex, n, a):
    return Rec("time", {"s": z3.Real(ex.fresh_name("now"))})


@fn("ToDoubleSeconds")
def _todbl(ex, n, a):
    v = rv(ex, a[0])
    return v.f["s"]


# ----------------------------------------------------------------------------- member functions
def member_call(ex, base, t, name, argn, n):
    if t.k == "ref":
        t = t.a[0]
    if t.k == "proto":
        return proto_member(ex, base, t, name, argn, n)
    v = ex.read(base)
    if t.k == "opaque" and isinstance(v, Rec) and v.cls in ex.P.protos:      # through the base class Message
        return proto_member(ex, base, T("proto", v.cls), name, argn, n)
    if isinstance(v, Seq):
        return seq_member(ex, base, name, argn, n)
    if isinstance(v, Rec) and v.cls == "uptr":
        return uptr_member(ex, base, v, t, name, argn)
    if isinstance(v, Rec) and v.cls == "statusor":
        if name == "ok":
            return v.f["ok"]
        if name == "status":
            return mk_status(v.f["ok"], z3.If(v.f["ok"], z3.Const("status!ok", ObjSort), v.f["status"]))
        if name == "value":
            ex.oblige("%s/StatusOr::value on error" % ex.cur_name(), v.f["ok"], None, "safety")
            return base.sub("value")
    if isinstance(v, Rec) and v.cls == "status":
        if name == "ok":
            return v.f["ok"]
        if name in ("message", "ToString"):
            return z3.Function("status_message", ObjSort, StrSort)(v.f["s"])
    if isinstance(v, MapV):
        return map_member(ex, base, v, name, argn)
    if isinstance(v, Rec) and v.cls == "pq":
        return pq_member(ex, base, v, name, argn)
    if isinstance(v, Rec) and v.cls == "future":
        if name == "get":
            return v.f["v"]
    if isinstance(v, z3.ExprRef) and v.sort() == StrSort:
        if name == "empty":
            return v == z3.Const("str!empty", StrSort)
        if name in ("c_str", "data"):
            return v
        if name in ("size", "length"):
            r = z3.Function("str_len", StrSort, I)(v)
            ex.assume(r >= 0)
            return r
    if isinstance(v, FnV) and name == "swap" and len(argn) == 1:
        other = as_loc(ex, ex.ev(argn[0]))
        o = ex.read(other)
        if isinstance(o, FnV):
            ex.write(base, o)
            ex.write(other, v)
            return None
    if isinstance(v, FnV) and name == "operator bool":
        return v.isset
    raise Unsupported("member function %s on %r" % (name, t))


def seq_member(ex, base, name, argn, n):
    s = ex.read(base)
    if name == "size":
        r = z3.simplify(s.hi - s.lo)
        if not z3.is_int_value(r):
            ex.assume(r <= 2 ** 63 - 1)        # max_size()
        return r
    if name == "empty":
        return s.hi == s.lo
    if name in ("begin", "cbegin"):
        return It(base, s.lo)
    if name in ("end", "cend"):
        return It(base, s.hi)
    if name in ("at", "operator[]") or (name == "Get" and s.kind == "repeated"):
        i = rv(ex, argn[0])
        chk(ex, "index", z3.And(i >= 0, i < s.hi - s.lo))
        return base.sub(("i", z3.simplify(s.lo + i)))
    if name == "front":
        chk(ex, "front() of empty", s.lo < s.hi)
        return base.sub(("i", s.lo))
    if name == "back":
        chk(ex, "back() of empty", s.lo < s.hi)
        return base.sub(("i", z3.simplify(s.hi - 1)))
    if name in ("push_back", "emplace_back", "Add"):
        v = elem_value(ex, s.et, argn)
        s = ex.read(base)
        ex.write(base, Seq(s.et, ex.V.sto(s.data, s.hi, v), s.lo, z3.simplify(s.hi + 1), s.kind))
        return base.sub(("i", s.hi))
    if name in ("push_front", "emplace_front"):
        v = elem_value(ex, s.et, argn)
        s = ex.read(base)
        ex.write(base, Seq(s.et, ex.V.sto(s.data, s.lo - 1, v), z3.simplify(s.lo - 1), s.hi, s.kind))
        return None
    if name == "pop_back":
        chk(ex, "pop_back() of empty", s.lo < s.hi)
        ex.write(base, Seq(s.et, s.data, s.lo, z3.simplify(s.hi - 1), s.kind))
        return None
    if name == "pop_front":
        chk(ex, "pop_front() of empty", s.lo < s.hi)
        ex.write(base, Seq(s.et, s.data, z3.simplify(s.lo + 1), s.hi, s.kind))
        return None
    if name in ("clear", "Clear"):
        ex.write(base, Seq(s.et, s.data, s.lo, s.lo, s.kind))
        return None
    if name in ("reserve", "shrink_to_fit", "Reserve"):
        for a in argn:
            ex.ev(a)
        return None
    if name == "insert" and len(argn) == 3:
        p, b, e = rv(ex, argn[0]), rv(ex, argn[1]), rv(ex, argn[2])
        if isinstance(p, It) and p.loc.same(base) and z3.is_true(z3.simplify(p.idx == s.hi)) and isinstance(b, It):
            src = ex.read(b.loc)
            chk(ex, "insert: valid range", z3.And(src.lo <= b.idx, b.idx <= e.idx, e.idx <= src.hi))
            append_range(ex, base, src, b.idx, e.idx)
            return None
    if name == "resize" and len(argn) == 1:
        k = rv(ex, argn[0])
        q = z3.Int(ex.fresh_name("qr"))
        dflt = ex.V.default(s.et)

        def lift(da, dv):
            na = z3.Const(ex.fresh_name("resized"), da.sort())
            ex.assume(z3.ForAll([q], na[q] == z3.If(q < s.hi, z3.Select(da, q), dv)))
            return na
        data = ex.V.vmap2(lift, s.data, dflt)
        ex.write(base, Seq(s.et, data, s.lo, s.lo + k, s.kind))
        return None
    if name == "data":
        return It(base, s.lo)
    if name in ("emplace", "insert") and (name == "emplace" and len(argn) >= 1 or len(argn) == 2):
        p = rv(ex, argn[0])
        if isinstance(p, It) and p.loc.same(base):
            v = elem_value(ex, s.et, argn[1:])
            s = ex.read(base)
            chk(ex, "insert: valid position", z3.And(s.lo <= p.idx, p.idx <= s.hi))
            if z3.is_true(z3.simplify(p.idx == s.hi)):
                data = ex.V.sto(s.data, s.hi, v)
            else:
                data = ex.V.sto(shifted(ex, s.data, p.idx, -1), p.idx, v)
            ex.write(base, Seq(s.et, data, s.lo, z3.simplify(s.hi + 1), s.kind))
            return It(base, p.idx)
    if name == "erase" and len(argn) in (1, 2):
        b = rv(ex, argn[0])
        e = rv(ex, argn[1]) if len(argn) == 2 else (It(b.loc, z3.simplify(b.idx + 1)) if isinstance(b, It) else None)
        if isinstance(b, It) and isinstance(e, It) and b.loc.same(base) and e.loc.same(base):
            chk(ex, "erase: valid range", z3.And(s.lo <= b.idx, b.idx <= e.idx, e.idx <= s.hi))
            if z3.is_true(z3.simplify(e.idx == s.hi)):
                ex.write(base, Seq(s.et, s.data, s.lo, b.idx, s.kind))
                return It(base, b.idx)
            if z3.is_true(z3.simplify(b.idx == s.lo)):
                ex.write(base, Seq(s.et, s.data, e.idx, s.hi, s.kind))
                return It(base, e.idx)
            k = z3.simplify(e.idx - b.idx)
            ex.write(base, Seq(s.et, shifted(ex, s.data, b.idx, k), s.lo, z3.simplify(s.hi - k), s.kind))
            return It(base, b.idx)
    if name == "assign" and len(argn) == 2:
        b, e = rv(ex, argn[0]), rv(ex, argn[1])
        if isinstance(b, It) and isinstance(e, It) and not b.loc.same(base):
            src = ex.read(b.loc)
            chk(ex, "assign: valid range", z3.And(src.lo <= b.idx, b.idx <= e.idx, e.idx <= src.hi))
            ex.write(base, Seq(s.et, s.data, s.lo, s.lo, s.kind))
            append_range(ex, base, src, b.idx, e.idx)
            return None
    if name == "swap" and len(argn) == 1:
        other = as_loc(ex, ex.ev(argn[0]))
        o = ex.read(other)
        if isinstance(o, Seq) and o.kind == s.kind:
            ex.write(base, o)
            ex.write(other, s)
            return None
    if name in ("rbegin", "rend", "erase", "assign", "insert", "swap", "emplace"):
        raise Unsupported("vector::%s" % name)
    raise Unsupported("container member %s" % name)


def shifted(ex, data, i, k):
    """The elements from position i on, read k positions further on."""
    q = z3.Int(ex.fresh_name("qs"))

    def lift(da, _):
        na = z3.Const(ex.fresh_name("shifted"), da.sort())
        if da.sort().range() == R:
            AR.mark_rep(na)
        ex.assume(z3.ForAll([q], na[q] == z3.If(q < i, z3.Select(da, q), z3.Select(da, q + k))))
        return na
    return ex.V.vmap2(lift, data, data)


def elem_value(ex, et, argn):
    if len(argn) == 1:
        v = take(ex, argn[0], et)
        if et.k == "uptr" and isinstance(v, Ptr):
            v = ex.uptr_from(v, et)
        if et.k == "f32" and isinstance(v, z3.ArithRef) and v.sort() == I:
            v = ex.convert_scalar(v, T("int", 64, True), et)
        return v
    if not argn:
        return ex.default_construct(et)
    if et.k == "pair":
        return Rec("pair", {"first": take(ex, argn[0], et.a[0]), "second": take(ex, argn[1], et.a[1])})
    if et.k == "rec":
        cs = [c for c in ex.P.ctors(et.a[0]) if c.body is not None and len(c.params) == len(argn)]
        if len(cs) == 1:
            return construct_rec(ex, et.a[0], cs[0], ex.args_of(cs[0], argn))
    raise Unsupported("emplace of %r" % et)


def chk(ex, what, g):
    ex.oblige("%s/%s" % (ex.cur_name(), what), g, None, "safety")


def map_member(ex, base, m, name, argn):
    if name in ("operator[]",):
        k = rv(ex, argn[0])
        cur = ex.V.sel(m.data, k)
        d = ex.V.default(m.vt)
        val = ex.V.ite(z3.Select(m.dom, k), cur, d)
        ex.write(base, MapV(m.kt, m.vt, z3.Store(m.dom, k, TRUE), ex.V.sto(m.data, k, val)))
        return base.sub(("k", k))
    if name in ("insert", "emplace", "try_emplace") and len(argn) == (1 if name == "insert" else 2):
        # the element is added unless the key is already there
        if name == "insert":
            e = rv(ex, argn[0])
            if isinstance(e, Rec) and e.cls == "ilist":
                e = ex.from_ilist(e, T("pair", m.kt, m.vt))
            if not (isinstance(e, Rec) and e.cls == "pair"):
                raise Unsupported("map::insert")
            k, val = e.f["first"], e.f["second"]
        else:
            k, val = take(ex, argn[0], m.kt), take(ex, argn[1], m.vt)
        there = z3.Select(m.dom, k)
        ex.write(base, MapV(m.kt, m.vt, z3.Store(m.dom, k, TRUE), ex.V.sto(m.data, k, ex.V.ite(there, ex.V.sel(m.data, k), val))))
        return Rec("pair", {"first": MapIt(base, k, FALSE), "second": z3.Not(there)})
    if name == "insert_or_assign" and len(argn) == 2:
        k, val = take(ex, argn[0], m.kt), take(ex, argn[1], m.vt)
        ex.write(base, MapV(m.kt, m.vt, z3.Store(m.dom, k, TRUE), ex.V.sto(m.data, k, val)))
        return Rec("pair", {"first": MapIt(base, k, FALSE), "second": z3.Not(z3.Select(m.dom, k))})
    if name == "emplace_hint" and len(argn) == 3:
        return map_member(ex, base, m, "emplace", argn[1:]).f["first"]
    if name == "find" and len(argn) == 1:
        k = rv(ex, argn[0])
        return MapIt(base, k, z3.Not(z3.Select(m.dom, k)))
    if name in ("end", "cend"):
        return MapIt(base, None, TRUE)
    if name == "contains":
        return z3.Select(m.dom, rv(ex, argn[0]))
    if name == "empty" and m.dom.sort().domain() == I:
        # empty, or there is some key
        w = z3.Int(ex.fresh_name("key"))
        q = z3.Int(ex.fresh_name("qk"))
        e = z3.Bool(ex.fresh_name("map_empty"))
        ex.assume(z3.Implies(e, z3.ForAll([q], z3.Not(z3.Select(m.dom, q)))))
        ex.assume(z3.Implies(z3.Not(e), z3.Select(m.dom, w)))
        return e
    if name in ("rbegin", "begin", "cbegin", "crbegin") and not argn and m.dom.sort().domain() == I:
        # the element with the largest (smallest) key, or the end; it can not be moved
        w = z3.Int(ex.fresh_name("key"))
        q = z3.Int(ex.fresh_name("qk"))
        none = z3.Bool(ex.fresh_name("map_empty"))
        ex.assume(z3.Implies(none, z3.ForAll([q], z3.Not(z3.Select(m.dom, q)))))
        ex.assume(z3.Implies(z3.Not(none), z3.And(z3.Select(m.dom, w), z3.ForAll([q], z3.Implies(
            z3.Select(m.dom, q), q <= w if "r" in name else w <= q)))))
        return MapIt(base, w, none)
    if name == "clear":
        ex.write(base, MapV(m.kt, m.vt, z3.K(m.dom.sort().domain(), FALSE), m.data))
        return None
    if name == "erase" and len(argn) == 1:
        k = rv(ex, argn[0])
        if isinstance(k, MapIt):
            chk(ex, "map::erase", z3.And(z3.Not(k.end), z3.Select(m.dom, k.key)))
            ex.write(base, MapV(m.kt, m.vt, z3.Store(m.dom, k.key, FALSE), m.data))
            return None
        ex.write(base, MapV(m.kt, m.vt, z3.Store(m.dom, k, FALSE), m.data))
        return z3.If(z3.Select(m.dom, k), z3.IntVal(1), z3.IntVal(0))
    if name == "count":
        k = rv(ex, argn[0])
        return z3.If(z3.Select(m.dom, k), z3.IntVal(1), z3.IntVal(0))
    if name == "at":
        k = rv(ex, argn[0])
        chk(ex, "map::at", z3.Select(m.dom, k))
        return base.sub(("k", k))
    raise Unsupported("map::%s" % name)


def pq_member(ex, base, v, name, argn):
    """std::priority_queue, assumed contract.  c lists every element ever pushed, live marks those still in the queue and n
    counts them; top is an element below no other one; ord/when record the order of removal (ghost)."""
    c = v.f["c"]
    live, n = v.f["live"], v.f["n"]
    q = z3.Int(ex.fresh_name("qp"))
    ex.assume(z3.And(n >= 0, v.f["np"] >= 0, n <= c.hi - c.lo))
    ex.assume(z3.ForAll([q], z3.Implies(z3.Select(live, q), z3.And(c.lo <= q, q < c.hi, n > 0)), patterns=[z3.Select(live, q)]))
    if name == "size":
        return n
    if name == "empty":
        return n == 0

    def less(x, y):
        if v.f["cmp"] is not None:
            return ex.tobool(ex.rvalue(ex.call_value(v.f["cmp"], [base.sub("c").sub(("i", x)), base.sub("c").sub(("i", y))])))
        return value_less(ex, ex.V.sel(c.data, x), ex.V.sel(c.data, y))
    if name in ("push", "emplace"):
        if name == "emplace" and len(argn) > 1:
            x = Rec("pair", {"first": rv(ex, argn[0]), "second": rv(ex, argn[1])})
            if not (isinstance(c.data, Rec) and c.data.cls == "pair"):
                raise Unsupported("priority_queue::emplace")
        else:
            x = rv(ex, argn[0])
            if isinstance(x, Rec) and x.cls == "ilist":
                x = ex.from_ilist(x, c.et)
        v = v.set("c", Seq(c.et, ex.V.sto(c.data, c.hi, x), c.lo, c.hi + 1, c.kind))
        v = v.set("live", z3.Store(live, c.hi, TRUE)).set("n", n + 1)
        ex.write(base, v)
        return None
    if name in ("top", "pop"):
        chk(ex, "priority_queue::" + name + " on empty", n > 0)
        top = z3.Function("pq_top", live.sort(), I, I)(live, c.hi)
        # the comparator must be a strict weak order
        q2, q3 = z3.Int(ex.fresh_name("qp2")), z3.Int(ex.fresh_name("qp3"))
        inr = lambda i: z3.And(c.lo <= i, i < c.hi)
        _, p = pred_over(ex, c.lo, c.hi, lambda x: less(x, q2))
        at_ = lambda i, j: z3.substitute(p, (_, i), (q2, j))
        if not ex.__dict__.setdefault("pq_checked", {}).get(str(base)):
            ex.oblige("%s/priority_queue: strict weak order" % ex.cur_name(), z3.ForAll([q, q2, q3], z3.Implies(
                z3.And(inr(q), inr(q2), inr(q3)), z3.And(z3.Not(at_(q, q)), z3.Implies(z3.And(at_(q, q2), at_(q2, q3)), at_(q, q3)),
                       z3.Implies(at_(q, q3), z3.Or(at_(q, q2), at_(q2, q3)))))), None, "pre")
        ex.assume(z3.Implies(n > 0, z3.And(z3.Select(live, top), inr(top))))
        ex.assume(z3.ForAll([q], z3.Implies(z3.Select(live, q), z3.Not(at_(top, q))), patterns=[z3.Select(live, q)]))
        if name == "top":
            return base.sub("c").sub(("i", top))
        v = v.set("live", z3.Store(live, top, FALSE)).set("n", n - 1)
        v = v.set("ord", z3.Store(v.f["ord"], v.f["np"], top)).set("when", z3.Store(v.f["when"], top, v.f["np"]))
        ex.write(base, v.set("np", v.f["np"] + 1))
        return None
    raise Unsupported("priority_queue::%s" % name)


def uptr_member(ex, base, v, t, name, argn):
    if name in ("get", "operator->"):
        return uptr_deref(ex, base, v, t, ptr=True)
    if name == "reset":
        if argn and argn[0].get("kind") != "CXXDefaultArgExpr":
            p = rv(ex, argn[0])
            ex.write(base, ex.uptr_from(p, t))
        else:
            ex.write(base, v.set("null", TRUE))
        return None
    if name == "operator bool":
        return z3.Not(v.f["null"])
    raise Unsupported("unique_ptr::%s" % name)


def uptr_deref(ex, base, v, t, ptr=False):
    subs = [k for k in v.f if k.startswith("as_")]
    tgt = t.a[0] if t.k == "uptr" else t
    if tgt.k == "rec" and "as_" + tgt.a[0] in v.f and len(subs) == 1:
        l = base.sub("as_" + tgt.a[0])
    else:
        l = base          # polymorphic: the smart pointer value itself stands for the object
    return Ptr(l, v.f["null"]) if ptr else l


# ----------------------------------------------------------------------------- protobuf
def oneof_clear(ex, base, m, oneof, keep):
    for f in m.oneofs[oneof]:
        if f.name != keep:
            ex.write(base.sub(f.name), ex.V.default(ex.P.proto_ftype(f)))


def proto_member(ex, base, t, name, argn, n):
    m = ex.P.protos[t.a[0]]
    fl = {f.name: f for f in m.fields}
    tracked = ex.read(base).f          # read once: between the writes of one setter the record is not consistent
    has = lambda f: "has_" + f in tracked
    if name in fl:
        f = fl[name]
        if f.label == "repeated" and argn:
            i = rv(ex, argn[0])
            s = ex.read(base.sub(name))
            chk(ex, "repeated field index", z3.And(i >= 0, i < s.hi - s.lo))
            return base.sub(name).sub(("i", z3.simplify(s.lo + i)))
        return base.sub(name)
    for pre in ("set_", "has_", "mutable_", "clear_", "add_"):
        if name.startswith(pre) and name[len(pre):] in fl:
            f = fl[name[len(pre):]]
            l = base.sub(f.name)
            if pre == "has_":
                if f.oneof:
                    return ex.read(base.sub(f.oneof + "_case")) == f.num
                if has(f.name):
                    return ex.read(base.sub("has_" + f.name))
                raise Unsupported("has_%s not tracked" % f.name)
            if pre == "set_":
                if f.label == "repeated":
                    i = rv(ex, argn[0])
                    s = ex.read(l)
                    chk(ex, "repeated field index", z3.And(i >= 0, i < s.hi - s.lo))
                    l = l.sub(("i", z3.simplify(s.lo + i)))
                    argn = argn[1:]
                v = rv(ex, argn[0])
                if f.oneof:
                    oneof_clear(ex, base, m, f.oneof, f.name)
                    ex.write(base.sub(f.oneof + "_case"), z3.IntVal(f.num))
                ex.write(l, v)
                if has(f.name):
                    ex.write(base.sub("has_" + f.name), TRUE)
                return None
            if pre == "mutable_":
                if has(f.name):
                    ex.write(base.sub("has_" + f.name), TRUE)
                return Ptr(l, FALSE)
            if pre == "clear_":
                if f.oneof:
                    c = ex.read(base.sub(f.oneof + "_case"))
                    ex.write(base.sub(f.oneof + "_case"), z3.If(c == f.num, z3.IntVal(0), c))
                    ex.write(l, ex.V.default(ex.P.proto_ftype(f)))
                    return None
                if f.label == "repeated":
                    s = ex.read(l)
                    ex.write(l, Seq(s.et, s.data, s.lo, s.lo, s.kind))
                else:
                    ex.write(l, ex.V.default(ex.P.proto_ftype(f)))
                if has(f.name):
                    ex.write(base.sub("has_" + f.name), FALSE)
                return None
            if pre == "add_":
                s = ex.read(l)
                if argn:
                    v = rv(ex, argn[0])
                    ex.write(l, Seq(s.et, ex.V.sto(s.data, s.hi, v), s.lo, z3.simplify(s.hi + 1), s.kind))
                    return None
                v = ex.V.default(s.et)
                ex.write(l, Seq(s.et, ex.V.sto(s.data, s.hi, v), s.lo, z3.simplify(s.hi + 1), s.kind))
                return Ptr(l.sub(("i", s.hi)), FALSE)
    if name.endswith("_size") and name[:-5] in fl:
        s = ex.read(base.sub(name[:-5]))
        return z3.simplify(s.hi - s.lo)
    for o in m.oneofs:
        if name == o + "_case":
            return ex.read(base.sub(o + "_case"))
        if name == "clear_" + o:
            oneof_clear(ex, base, m, o, None)
            ex.write(base.sub(o + "_case"), z3.IntVal(0))
            return None
    if name == "Clear":
        ex.write(base, ex.V.default(t))
        return None
    if name in ("CopyFrom", "operator="):
        v = take(ex, argn[0], t)
        ex.write(base, v)
        return base
    if name == "MergeFrom":
        raise Unsupported("MergeFrom")
    if name in ("DebugString", "ShortDebugString", "SerializeAsString"):
        v = ex.read(base)
        return fmt_term(ex, name, [v])
    if name in ("IsInitialized",):
        return TRUE
    raise Unsupported("protobuf member %s::%s" % (t.a[0], name))


# ----------------------------------------------------------------------------- operators
def operator_call(ex, name, argn, n):
    if name == "operator()":
        c = ex.ev(argn[0])
        v = ex.rvalue(c)
        line = (n.get("range", {}).get("begin", {}) or {}).get("line")
        if isinstance(v, FnV) and not (v.target and v.target[0] == "clo"):
            ex.oblige("%s/call of empty std::function" % ex.cur_name(), v.isset, line, "safety")
        return ex.call_value(v, [ex.ev(a) for a in argn[1:]], line)
    if name == "operator=":
        t = ex.tt.parse(ty(argn[0]))
        v = take(ex, argn[1], t)
        l = ex.ev(argn[0])
        if not isinstance(l, Loc):
            raise Unsupported("assignment target")
        old = ex.read(l)
        if isinstance(old, Seq) and isinstance(v, Seq):
            v = Seq(v.et, v.data, v.lo, v.hi, old.kind)
        if isinstance(old, Rec) and old.cls == "uptr" and isinstance(v, Ptr):
            v = ex.uptr_from(v, t)
        ex.write(l, v)
        return l
    vals = []
    l0 = ex.ev(argn[0])
    v0 = ex.rvalue(l0)
    if name == "operator[]":
        if isinstance(v0, Seq):
            return seq_member(ex, as_loc(ex, l0), "operator[]", argn[1:], n)
        if isinstance(v0, MapV):
            return map_member(ex, as_loc(ex, l0), v0, "operator[]", argn[1:])
        if isinstance(v0, It):
            i = rv(ex, argn[1])
            return ex.deref_iter(It(v0.loc, v0.idx + i))
    if isinstance(v0, It):
        if name == "operator*":
            if len(argn) == 1:
                return ex.deref_iter(v0)
        if name == "operator->":
            return Ptr(ex.deref_iter(v0), FALSE)
        if name in ("operator++", "operator--"):
            d = 1 if name == "operator++" else -1
            nv = It(v0.loc, z3.simplify(v0.idx + d))
            ex.write(l0, nv)
            return v0 if len(argn) == 2 else l0
        b = rv(ex, argn[1])
        if name in ("operator+=", "operator-="):
            ex.write(l0, ex.iter_op(name[-2], v0, b))
            return l0
        return ex.iter_op(name[8:], v0, b)
    if isinstance(v0, MapIt):
        if name in ("operator*", "operator->"):
            return v0
        if name in ("operator==", "operator!="):
            b = rv(ex, argn[1])
            if isinstance(b, MapIt) and b.loc.same(v0.loc):
                if v0.key is None or b.key is None:
                    same = z3.And(v0.end, b.end)
                else:
                    same = z3.Or(z3.And(v0.end, b.end), z3.And(z3.Not(v0.end), z3.Not(b.end), v0.key == b.key))
                return same if name == "operator==" else z3.Not(same)
        raise Unsupported("%s of a map iterator" % name)
    if isinstance(v0, Rec) and v0.cls == "uptr":
        t = ex.tt.parse(ty(argn[0]))
        if name in ("operator*", "operator->"):
            ex.oblige("%s/null unique_ptr dereference" % ex.cur_name(), z3.Not(v0.f["null"]), None, "safety")
            l = uptr_deref(ex, as_loc(ex, l0), v0, t)
            return Ptr(l, FALSE) if name == "operator->" else l
        if name in ("operator==", "operator!="):
            b = rv(ex, argn[1])
            if isinstance(b, Ptr) and b.loc is None:
                return v0.f["null"] if name == "operator==" else z3.Not(v0.f["null"])
    if isinstance(v0, Rec) and v0.cls == "statusor":
        if name in ("operator*", "operator->"):
            ex.oblige("%s/StatusOr dereference on error" % ex.cur_name(), v0.f["ok"], None, "safety")
            l = as_loc(ex, l0).sub("value")
            return Ptr(l, FALSE) if name == "operator->" else l
    if isinstance(v0, FnV) and name in ("operator==", "operator!="):
        return z3.Not(v0.isset) if name == "operator==" else v0.isset
    if isinstance(v0, Ptr) and name in ("operator==", "operator!="):
        b = rv(ex, argn[1])
        if isinstance(b, Rec) and b.cls == "uptr":
            return b.f["null"] if name == "operator==" else z3.Not(b.f["null"])
        if isinstance(b, FnV):
            return z3.Not(b.isset) if name == "operator==" else b.isset
    if len(argn) == 1:
        h = ex.task.operator(ex, name, l0, v0, None, n)
        if h is not NotImplemented:
            return h
    if len(argn) == 2:
        h = ex.task.operator(ex, name, l0, v0, argn[1], n)
        if h is not NotImplemented:
            return h
        b = rv(ex, argn[1])
        if isinstance(v0, z3.ExprRef) and isinstance(b, z3.ExprRef) and v0.sort() == b.sort():
            if name == "operator==":
                return v0 == b
            if name == "operator!=":
                return v0 != b
            if name == "operator+" and v0.sort() == StrSort:
                return z3.Function("strcat", StrSort, StrSort, StrSort)(v0, b)
            if name == "operator+=" and v0.sort() == StrSort:
                ex.write(l0, z3.Function("strcat", StrSort, StrSort, StrSort)(v0, b))
                return l0
            if v0.sort() == StrSort and name in ("operator<", "operator>"):
                lt = z3.Function("strlt", StrSort, StrSort, B)
                return lt(v0, b) if name == "operator<" else lt(b, v0)
        if isinstance(v0, Rec) and isinstance(b, Rec) and v0.cls == b.cls:
            if v0.cls == "time":
                x, y = v0.f["s"], b.f["s"]
                if name == "operator-":
                    return Rec("time", {"s": x - y})
                if name == "operator+":
                    return Rec("time", {"s": x + y})
                return {"operator<": x < y, "operator>": x > y, "operator<=": x <= y, "operator>=": x >= y,
                        "operator==": x == y, "operator!=": x != y}[name]
            if v0.cls in ("pair", "tuple"):
                if name == "operator<":
                    return value_less(ex, v0, b)
                if name == "operator>":
                    return value_less(ex, b, v0)
                if name == "operator<=":
                    return z3.Not(value_less(ex, b, v0))
                if name == "operator>=":
                    return z3.Not(value_less(ex, v0, b))
                if name == "operator==":
                    return ex.V.eq(v0, b)
                if name == "operator!=":
                    return z3.Not(ex.V.eq(v0, b))
    if name in ("operator|", "operator&") and isinstance(v0, z3.ArithRef) and "launch" in ty(argn[0]):
        return z3.Int(ex.fresh_name("launch"))       # a policy of std::async: every policy runs the closure before the future delivers
    raise Unsupported("%s on %r" % (name, v0))


def as_loc(ex, l):
    return l if isinstance(l, Loc) else ex.new_root("tmp", l)


# ----------------------------------------------------------------------------- construction
def construct(ex, t, args, n):
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if t.k == "ref":
        t = t.a[0]
    h = ex.task.construct(ex, t, args, n)
    if h is not NotImplemented:
        return h
    if not args and t.k != "pq":
        if t.k == "lambda":
            raise Unsupported("lambda construction")
        if t.k == "status":
            return mk_status(TRUE)
        if t.k == "opaque":
            nm = t.a[0]
            if nm.endswith(("less<void>", "greater<void>")) or "std::less" in nm or "std::greater" in nm:
                return z3.Const("obj!" + nm, ObjSort)
        if t.k == "stdfn":
            return z3.Const("obj!" + t.a[0], ObjSort)
        return ex.default_construct(t)
    if t.k == "seq":
        if len(args) == 1:
            l = ex.ev(args[0])
            v = ex.rvalue(l)
            if isinstance(v, Seq):
                if isinstance(l, Loc):
                    moved(ex, args[0], l)
                return Seq(v.et, v.data, v.lo, v.hi, t.a[0]) if v.kind != t.a[0] else v
            if isinstance(v, Rec) and v.cls == "ilist":
                return ex.from_ilist(v, t)
            if isinstance(v, z3.ArithRef):
                d = ex.V.default(t)
                return Seq(d.et, d.data, d.lo, v, d.kind)
        if len(args) == 2:
            b, e = rv(ex, args[0]), rv(ex, args[1])
            if isinstance(b, It) and isinstance(e, It):
                s = ex.read(b.loc)
                chk(ex, "range constructor: valid range", z3.And(s.lo <= b.idx, b.idx <= e.idx, e.idx <= s.hi))
                loc = ex.new_root("vec", ex.V.default(t))
                append_range(ex, loc, s, b.idx, e.idx)
                return ex.read(loc)
            if isinstance(b, z3.ArithRef):
                d = ex.V.default(t)
                data = ex.V.vmap2(lambda a, x: z3.K(I, x), d.data, ex.coerce(e, t.a[1]))
                return Seq(d.et, data, d.lo, b, d.kind)
        raise Unsupported("vector constructor")
    if t.k == "pair":
        if len(args) == 2:
            return Rec("pair", {"first": take(ex, args[0], t.a[0]), "second": take(ex, args[1], t.a[1])})
        v = take(ex, args[0], t)
        return v
    if t.k == "tuple" and len(args) == len(t.a) and len(args) > 1:
        return Rec("tuple", {"_%d" % i: rv(ex, a) for i, a in enumerate(args)})
    if t.k == "uptr":
        if len(args) >= 1:
            l = ex.ev(args[0])
            v = ex.rvalue(l)
            if isinstance(v, Ptr):
                return ex.uptr_from(v, t)
            if isinstance(v, Rec) and v.cls == "uptr":
                if isinstance(l, Loc):
                    moved(ex, args[0], l)
                return conv_uptr(ex, v, t)
    if t.k == "fn":
        v = rv(ex, args[0])
        if isinstance(v, Clo):
            return FnV(TRUE, ("clo", v))
        if isinstance(v, FnV):
            return v
        if isinstance(v, Ptr) and v.loc is None:
            return FnV(FALSE, None)
    if t.k == "statusor":
        l = ex.ev(args[0])
        v = ex.rvalue(l)
        if isinstance(v, Rec) and v.cls == "statusor":
            return v
        r = ex.make_statusor(v, t)
        if isinstance(l, Loc):
            moved(ex, args[0], l)
        return r
    if t.k == "str":
        if len(args) == 1:
            v = rv(ex, args[0])
            if isinstance(v, z3.ExprRef) and v.sort() == StrSort:
                return v
        raise Unsupported("string construction")
    if t.k == "pq":
        v = ex.default_construct(t)
        if len(args) >= 1:
            c = rv(ex, args[0])
            return v.set("cmp", c)
        c = (t.a[1] or "").strip()
        if c and not re.match(r"(std::)?less\b", c):
            ct = ex.tt.parse(c)
            if ct.k == "lambda":
                raise Unsupported("lambda construction")
            v = v.set("cmp", construct(ex, ct, [], n))
        return v
    if len(args) == 1:
        l = ex.ev(args[0])
        v = ex.rvalue(l)
        if isinstance(l, Loc):
            moved(ex, args[0], l)
        if t.k in ("proto", "map", "future", "lambda", "iter", "opaque", "ptr", "stdfn"):
            if t.k == "iter" and isinstance(v, It):
                return v
            if isinstance(v, Rec) and v.cls == "ilist":
                return ex.from_ilist(v, t)
            return v
        if isinstance(v, Rec) and v.cls == "ilist":
            return ex.from_ilist(v, t)
        return v
    raise Unsupported("constructor of %r with %d arguments" % (t, len(args)))


def conv_uptr(ex, v, t):
    """unique_ptr<Derived> -> unique_ptr<Base>."""
    d = ex.V.default(t)
    f = dict(d.f)
    for k in v.f:
        if k in f:
            f[k] = v.f[k]
    if set(v.f) - set(f):
        # upcast to a base whose alternatives do not include the derived class
        raise Unsupported("unique_ptr conversion")
    return Rec("uptr", f)
