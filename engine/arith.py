"""Scalar arithmetic: exact reals ('real') or reals with an uninterpreted rounding function ('rnd')."""
import z3, struct, fractions
from .types import StrSort, ObjSort, I, R, B

_rep = set()       # ids of terms known to be representable in single precision
_keep = []         # keep ASTs alive so ids stay unique

R32 = z3.Function("rnd32", R, R)
R64 = z3.Function("rnd64", R, R)
MUL = z3.Function("fmul", R, R, R)
DIV = z3.Function("fdiv", R, R, R)
SQRT = z3.Function("fsqrt", R, R)
LOG = z3.Function("log", R, R)
EXP = z3.Function("fexp", R, R)
POW = z3.Function("pow", R, R, R)
TDIV = z3.Function("tdiv", I, I, I)
TMOD = z3.Function("tmod", I, I, I)


# rounding to a currency unit, kept abstract in mode 'grid': FLU(x,u) = u*floor(x/u) etc. for u > 0
FLU = z3.Function("floor_unit", R, R, R)
CEU = z3.Function("ceil_unit", R, R, R)
ROU = z3.Function("round_unit", R, R, R)
GRID = z3.Function("on_grid", R, R, B)      # x is an integer multiple of u
_rsrc = {}                                  # id of floor/ceil/round result -> (function, argument)


def note_round(t, f, x):
    _rsrc[t.get_id()] = (f, x)
    _keep.append(t)
    return t


def unit_product(a, b):
    """u * round(x / u)  ->  abstract rounding term"""
    for r, u in ((a, b), (b, a)):
        e = _rsrc.get(r.get_id())
        if e is None:
            continue
        f, x = e
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and x.arg(1).eq(u):
            return f(x.arg(0), u)
    return None


def grid_axioms(terms):
    out = []
    rt = [t for t in terms if z3.is_app(t) and t.num_args() == 2 and not has_var(t)
          and any(t.decl().eq(f) for f in (FLU, CEU, ROU))]
    us = []
    for t in rt:
        if not any(t.arg(1).eq(u) for u in us):
            us.append(t.arg(1))
    for t in terms:
        if z3.is_app(t) and t.decl().eq(GRID) and not has_var(t) and not any(t.arg(1).eq(u) for u in us):
            us.append(t.arg(1))
    for t in rt:
        x, u = t.arg(0), t.arg(1)
        c = []
        if t.decl().eq(FLU):
            c = [t <= x, x < t + u]
        elif t.decl().eq(CEU):
            c = [t >= x, x > t - u]
        else:
            c = [t - x <= u / 2, x - t <= u / 2]
        c += [GRID(t, u), z3.Implies(GRID(x, u), t == x), z3.Implies(x >= 0, t >= 0), z3.Implies(x <= 0, t <= 0)]
        out.append(z3.Implies(u > 0, z3.And(*c)))
        for v in rt:
            if v.decl().eq(t.decl()) and v.arg(1).eq(u) and not v.eq(t):
                out.append(z3.Implies(z3.And(u > 0, x <= v.arg(0)), t <= v))
    # values between grid points: a grid point below x is below floor(x), one above x is above ceil(x)
    pts = [t for t in terms if z3.is_app(t) and t.sort() == R and not has_var(t) and not z3.is_rational_value(t)]
    ites = {}
    sums = [t for t in pts if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS)]
    for u in us:
        out.append(GRID(z3.RealVal(0), u))
        out.append(GRID(u, u))
        for t in sums:
            cs = []
            for c in t.children():
                if z3.is_mul(c) and c.num_args() == 2 and z3.is_rational_value(c.arg(0)) and c.arg(0).as_fraction().denominator == 1:
                    c = c.arg(1)
                cs.append(GRID(c, u))
            out.append(z3.Implies(z3.And(*cs), GRID(t, u)))
            for c in t.children():
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                    ites[(c.get_id(), u.get_id())] = (c, u)
    for c, u in ites.values():
        out.append(GRID(c, u) == z3.If(c.arg(0), GRID(c.arg(1), u), GRID(c.arg(2), u)))
    gts = list({t.get_id(): t for t in list(terms) + [GRID(t, u) for u in us for t in sums]}.values())
    for t in rt:
        x, u = t.arg(0), t.arg(1)
        for g in gts:
            if z3.is_app(g) and g.decl().eq(GRID) and g.arg(1).eq(u) and not has_var(g):
                y = g.arg(0)
                if t.decl().eq(FLU):
                    out.append(z3.Implies(z3.And(u > 0, g, y <= x), y <= t))
                elif t.decl().eq(CEU):
                    out.append(z3.Implies(z3.And(u > 0, g, y >= x), y >= t))
                else:
                    out.append(z3.Implies(z3.And(u > 0, g, y >= x), y >= t))
                    out.append(z3.Implies(z3.And(u > 0, g, y <= x), y <= t))
    return out


def grid_lemmas():
    """The facts instantiated by grid_axioms, stated over the defining expressions (proved on every run)."""
    # y stands for x/u throughout; u*y = x is its defining equation (lemma "quotient")
    x, y, z, u, a, b = z3.Reals("lx ly lz lu la lb")
    i, j = z3.Ints("li lj")
    I2 = z3.ToReal
    h = z3.RealVal("1/2")
    fl = lambda t: I2(z3.ToInt(t))
    ce = lambda t: -I2(z3.ToInt(-t))
    ro = lambda t: I2(z3.If(t >= 0, z3.ToInt(t + h), -z3.ToInt(h - t)))
    L = [("quotient", z3.Implies(u > 0, u * (x / u) == x)),
         ("quotient-monotone", z3.Implies(z3.And(u > 0, x == u * a, y == u * b, x <= y), a <= b)),
         ("quotient-sign", z3.Implies(z3.And(u > 0, x == u * a), z3.And((x >= 0) == (a >= 0), (x <= 0) == (a <= 0)))),
         ("scale-monotone", z3.Implies(z3.And(u > 0, a <= b), u * a <= u * b)),
         ("scale-strict", z3.Implies(z3.And(u > 0, a < b + 1), u * a < u * b + u)),
         ("scale-half", z3.Implies(z3.And(u > 0, a <= b + h), u * a <= u * b + u / 2)),
         ("floor-bounds", z3.And(fl(y) <= y, y < fl(y) + 1)),
         ("ceil-bounds", z3.And(ce(y) >= y, y > ce(y) - 1)),
         ("round-bounds", z3.And(ro(y) <= y + h, y <= ro(y) + h))]
    for nm, f in (("floor", fl), ("ceil", ce), ("round", ro)):
        L.append((nm + "-integer", f(I2(i)) == I2(i)))
        L.append((nm + "-sign", z3.And(z3.Implies(y >= 0, f(y) >= 0), z3.Implies(y <= 0, f(y) <= 0))))
        L.append((nm + "-monotone", z3.Implies(y <= z, f(y) <= f(z))))
        L.append((nm + "-value-is-integer", z3.IsInt(f(y))))
    L.append(("integer-below-floor", z3.Implies(I2(i) <= y, I2(i) <= fl(y))))
    L.append(("integer-above-ceil", z3.Implies(I2(i) >= y, I2(i) >= ce(y))))
    L.append(("integer-round", z3.And(z3.Implies(I2(i) <= y, I2(i) <= ro(y)), z3.Implies(I2(i) >= y, I2(i) >= ro(y)))))
    L.append(("grid-sum", z3.And(u * I2(i) + u * I2(j) == u * I2(i + j), u * I2(i) - u * I2(j) == u * I2(i - j))))
    return L


def reset():
    pass


def mark_rep(t):
    if isinstance(t, z3.ExprRef):
        _rep.add(t.get_id())
        _keep.append(t)
    return t


def is_rep(t):
    if t.get_id() in _rep:
        return True
    if z3.is_rational_value(t):
        q = t.as_fraction()
        f = float(q)
        try:
            g = struct.unpack("f", struct.pack("f", f))[0]
        except OverflowError:
            return False
        return fractions.Fraction(g) == q
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return is_rep(t.arg(1)) and is_rep(t.arg(2))
        if k == z3.Z3_OP_UMINUS:
            return is_rep(t.arg(0))
        if k == z3.Z3_OP_SELECT:
            return True
        if t.decl().eq(R32):
            return True
    return False


def mark_rep_if(t, *src):
    if all(is_rep(s) for s in src):
        mark_rep(t)


def f32(x):
    return fractions.Fraction(struct.unpack("f", struct.pack("f", x))[0])


def rv(q):
    return z3.RealVal(str(q.numerator) + ("/" + str(q.denominator) if q.denominator != 1 else ""))


FLT_MAX = (2 - fractions.Fraction(1, 2 ** 23)) * 2 ** 127


def float_literal(s, t):
    """Exact value of the literal in its type; clang prints decimal with enough digits to round-trip a float."""
    if "double" in t:
        return mark_rep(rv(fractions.Fraction(float(s))))
    return mark_rep(rv(f32(float(s))))


_strs = {}


def string_literal(s):
    """s is the literal as written, with its quotes"""
    c = z3.Const("str!empty" if s == '""' else "str:" + s, StrSort)
    _strs[s] = c
    return c


def literal_of(c):
    """text of a string literal's value, None for other strings"""
    nm = c.decl().name() if z3.is_const(c) else ""
    return "" if nm == "str!empty" else nm[5:-1] if nm.startswith('str:"') else None


def rnd(mode, t, ty="f32", narrow=False):
    if mode != "rnd":
        return t
    if ty == "f64":
        return t if is_rep(t) else R64(t)
    if is_rep(t):
        return t
    return mark_rep(R32(t))


def is_const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def fmul(mode, a, b):
    if mode != "rnd" or is_const(z3.simplify(a)) or is_const(z3.simplify(b)):
        return a * b
    # canonical order for commutativity
    if str(a) > str(b):
        a, b = b, a
    return MUL(a, b)


def fdiv(mode, a, b):
    if mode != "rnd" or is_const(z3.simplify(b)):
        return a / b
    return DIV(a, b)


def fop(mode, op, a, b, ty="f32"):
    if op == "+":
        if mode == "rnd" and str(a) > str(b):
            a, b = b, a
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        # multiplication by literal one is exact
        for x, y in ((a, b), (b, a)):
            if z3.is_rational_value(x) and x.as_fraction() == 1:
                return y
        if mode == "grid":
            g = unit_product(a, b)
            if g is not None:
                return g
        r = fmul(mode, a, b)
    elif op == "/":
        if z3.is_rational_value(b) and b.as_fraction() == 1:
            return a
        r = fdiv(mode, a, b)
    else:
        raise ValueError(op)
    return rnd(mode, r, ty)


def ffloor(x):
    return note_round(mark_rep(z3.ToReal(z3.ToInt(x))), FLU, x)


def fceil(x):
    return note_round(mark_rep(-z3.ToReal(z3.ToInt(-x))), CEU, x)


def fround(x):
    h = z3.RealVal("1/2")
    return note_round(mark_rep(z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(h - x)))), ROU, x)


def fmin(a, b):
    # std::min(a, b): b < a ? b : a
    r = z3.If(b < a, b, a)
    mark_rep_if(r, a, b)
    return r


def fmax(a, b):
    r = z3.If(a < b, b, a)
    mark_rep_if(r, a, b)
    return r


def tdiv(a, b):
    return TDIV(a, b)


def tmod(a, b):
    return TMOD(a, b)


def tdiv_axiom(a, b):
    q, r = TDIV(a, b), TMOD(a, b)
    absb = z3.If(b >= 0, b, -b)
    return z3.Implies(b != 0, z3.And(a == b * q + r,
                                     z3.Implies(a >= 0, z3.And(r >= 0, r < absb)),
                                     z3.Implies(a <= 0, z3.And(r <= 0, -r < absb)),
                                     z3.Implies(z3.And(a >= 0, b > 0), q >= 0),
                                     z3.Implies(z3.And(a >= 0, b > 0), q <= a)))


_wrap = {}


def wrapfn(bits, signed):
    k = (bits, signed)
    if k not in _wrap:
        _wrap[k] = z3.Function("wrap_%s%d" % ("i" if signed else "u", bits), I, I)
    return _wrap[k]


_qc = {}


def has_quantifier(f):
    k = f.get_id()
    if k in _qc:
        return _qc[k]
    seen = set()
    st = [f]
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _qc[k] = r
    _keep.append(f)
    return r


def subterms(fs):
    seen = {}
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return seen.values()


def has_var(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            continue
        st.extend(x.children())
    return False


def axioms_for(fs, mode):
    """Instances of the arithmetic axioms for the terms occurring in the formulas."""
    out = []
    terms = list(subterms(fs))
    if mode == "grid":
        return grid_axioms(terms)
    lits = {str(t): t for t in terms if z3.is_const(t) and t.sort() == StrSort and (str(t).startswith("str:") or str(t) == "str!empty")}
    if len(lits) > 1:
        out.append(z3.Distinct(*lits.values()))
    r32 = [t for t in terms if z3.is_app(t) and t.decl().eq(R32) and not has_var(t)]
    r64 = [t for t in terms if z3.is_app(t) and t.decl().eq(R64) and not has_var(t)]
    for fnlist in (r32, r64):
        for t in fnlist:
            x = t.arg(0)
            out.append(z3.Implies(x >= 0, t >= 0))
            out.append(z3.Implies(x <= 0, t <= 0))
        for i, t in enumerate(fnlist):
            for u in fnlist[i + 1:]:
                out.append(z3.Implies(t.arg(0) <= u.arg(0), t <= u))
                out.append(z3.Implies(u.arg(0) <= t.arg(0), u <= t))
    # representable atoms bound rounding
    if r32:
        reps = [t for t in terms if t.sort() == R and is_rep(t) and not z3.is_rational_value(t) and not has_var(t)
                and not (z3.is_app(t) and t.decl().eq(R32))]
        if len(reps) * len(r32) > 4000:
            reps = reps[:4000 // max(1, len(r32))]
        for t in r32:
            for v in reps:
                out.append(z3.Implies(t.arg(0) <= v, t <= v))
                out.append(z3.Implies(t.arg(0) >= v, t >= v))
    divs = [t for t in terms if z3.is_app(t) and t.decl().eq(DIV) and not has_var(t)]
    muls = [t for t in terms if z3.is_app(t) and t.decl().eq(MUL) and not has_var(t)]
    for i, t in enumerate(divs):
        for u in divs[i + 1:]:
            if t.arg(1).eq(u.arg(1)):
                a, b, c = t.arg(0), u.arg(0), t.arg(1)
                out.append(z3.Implies(z3.And(c > 0, a <= b), t <= u))
                out.append(z3.Implies(z3.And(c > 0, b <= a), u <= t))
    for i, t in enumerate(muls):
        for u in muls[i + 1:]:
            for x in (0, 1):
                for y in (0, 1):
                    if t.arg(x).eq(u.arg(y)):
                        c, a, b = t.arg(x), t.arg(1 - x), u.arg(1 - y)
                        out.append(z3.Implies(z3.And(c >= 0, a <= b), t <= u))
                        out.append(z3.Implies(z3.And(c >= 0, b <= a), u <= t))
    for t in terms:
        if not z3.is_app(t) or has_var(t):
            continue
        d = t.decl()
        if d.eq(MUL):
            a, b = t.arg(0), t.arg(1)
            out.append(z3.Implies(z3.And(a >= 0, b >= 0), t >= 0))
            out.append(z3.Implies(z3.And(a > 0, b > 0), t > 0))
            out.append(z3.Implies(z3.Or(a == 0, b == 0), t == 0))
            out.append(z3.Implies(a == 1, t == b))
            out.append(z3.Implies(b == 1, t == a))
            out.append(z3.Implies(z3.And(a <= 0, b >= 0), t <= 0))
            out.append(z3.Implies(z3.And(a >= 0, b <= 0), t <= 0))
        elif d.eq(DIV):
            a, b = t.arg(0), t.arg(1)
            out.append(z3.Implies(z3.And(a >= 0, b > 0), t >= 0))
            out.append(z3.Implies(z3.And(a > 0, b > 0), t > 0))
            out.append(z3.Implies(b == 1, t == a))
            out.append(z3.Implies(z3.And(a == 0, b != 0), t == 0))
        elif d.eq(SQRT):
            a = t.arg(0)
            out.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
        elif d.eq(POW) and mode == "real" and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() == 2:
            out.append(t == t.arg(0) * t.arg(0))
        elif d.eq(EXP):
            out.append(t > 0)
            a = t.arg(0)
            out.append(z3.Implies(a >= 0, t >= 1))
            out.append(z3.Implies(a <= 0, t <= 1))
        elif d.eq(LOG):
            a = t.arg(0)
            out.append(z3.Implies(a >= 1, t >= 0))
            out.append(z3.Implies(z3.And(a > 0, a <= 1), t <= 0))
    return out

# NaN-aware mode: a NaN is a value with this property (no arithmetic is done on such values, so that the payload does not matter)
NAN = z3.Function("is_nan", R, z3.BoolSort())
