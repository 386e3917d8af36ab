"""U02: imported histories are valid, ordered and within the requested interval.

A CSV file is a ghost sequence of NROWS lines ROW(k); std::sscanf and std::istringstream are external: FIELD_j(line) are the values they
convert, NF(line) how many of them.  For a line with timestamp TS:
  SEL(k):  it is not before the start of the interval;   END(k): it is selected, but at or after the end of the interval;
  CNT(k):  number of selected lines before line k;        PREV(k): timestamp of the last of them (0 if there is none).
The result must consist of exactly the selected lines before the first END line (line_k becomes record CNT(k)), all of them valid."""
import re
from specs.io_common import *

UNITS = [("convert.cc", ("trader::", "(anonymous namespace)::"))]
ASSUMES = ["std::getline, std::sscanf and std::istringstream behave as the standard says (the line and the values converted are arbitrary, NaN included)",
           "a file has fewer than 2^31 - 1 lines"] + IO_ASSUMES[:1]
REPLAY = ("convert_oracle.cc", ["U02"], "convert")
NROWS = z3.Int("NROWS")
ROW = z3.Function("ROW", I, StrSort)
CNT, PREV = z3.Function("CNT", I, I), z3.Function("PREV", I, I)
ITEM = {"i": lambda j, k: z3.Function("int field %d of %s" % (j, k), StrSort, I), "f": lambda j, k: z3.Function("float field %d of %s" % (j, k), StrSort, R)}
NF = lambda k: z3.Function("fields of " + k, StrSort, I)
COMMAS = z3.Function("commas become spaces", StrSort, StrSort)
TOK, TVAL, NSIG, SIG = z3.Function("starts with a number", StrSort, B), z3.Function("number at the start", StrSort, I), \
    z3.Function("numbers that follow", StrSort, I), z3.Function("number that follows", StrSort, I, R)
NAN = AR.NAN


# ---- the kinds of files: how a line becomes a record
class Csv:
    def __init__(self, fields):
        self.fields = fields
        self.key = "i" + "f" * (len(fields) - 1)

    def line(self, k):
        return ROW(k)

    def parsed(self, k):
        return NF(self.key)(self.line(k)) >= len(self.fields)

    def val(self, k, j):
        return ITEM[self.key[j]](j, self.key)(self.line(k))

    def ts(self, k):
        return self.val(k, 0)

    def valid(self, get):
        return prices_ok(get)

    def row_valid(self, k):
        return self.valid(lambda f: self.val(k, self.fields.index(f)))

    def same(self, c, h, i, k):
        return z3.And(*[rec(h, i, f) == self.val(k, j) for j, f in enumerate(self.fields)])

    def rec_valid(self, c, h, i):
        return self.valid(lambda f: rec(h, i, f))

    strict = False


class Side(Csv):
    strict = True

    def __init__(self):
        pass

    def line(self, k):
        return COMMAS(ROW(k))

    def parsed(self, k):
        return TOK(self.line(k))

    def ts(self, k):
        return TVAL(self.line(k))

    def row_valid(self, k):
        """at least one signal, as many as before"""
        return z3.And(NSIG(self.line(k)) >= 1, z3.Or(CNT(k) == 0, NSIG(self.line(k)) == WIDTH(k)))

    def same(self, c, h, i, k):
        return z3.And(rec(h, i, "timestamp_sec") == self.ts(k), same_signals(signals(c, h, i), self.line(k)))

    def rec_valid(self, c, h, i):
        return z3.And(size(signals(c, h, i)) >= 1, size(signals(c, h, i)) == size(signals(c, h, z3.IntVal(0))))


def signals(c, h, i):
    return c.V.sel(h.data, i).f["signal"]


WIDTH = z3.Function("WIDTH", I, I)     # number of signals of the selected lines before line k


def same_signals(s, line):
    return z3.And(s.lo == 0, s.hi == NSIG(line), forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < s.hi), at(s, q) == SIG(line, q))))


def pos(x):
    return z3.And(z3.Not(NAN(x)), x > 0)


def prices_ok(get):
    v = get("volume")
    vol = z3.And(z3.Not(NAN(v)), v >= 0)
    try:
        p = {f: get(f) for f in ("open", "high", "low", "close")}
    except (ValueError, KeyError, AttributeError):
        return z3.And(pos(get("price")), vol)
    return z3.And(*[pos(x) for x in p.values()], p["low"] <= p["open"], p["low"] <= p["close"], p["low"] <= p["high"], p["open"] <= p["high"],
                  p["close"] <= p["high"], vol)


# ---- external operations
def x_getline(ex, this, args, n=None):
    if len(args) != 2:
        raise Unsupported("getline with a delimiter")
    base, line = args
    v = ex.read(base)
    if not is_stream(v):
        raise Unsupported("getline")
    oblige(ex, "reads-the-given-file", v.f.get("opened", z3.BoolVal(False)))
    p = g(ex, "pos")
    got = z3.And(v.f["ok"], p < NROWS)
    ex.write(line, z3.If(got, ROW(p), z3.Const(ex.fresh_name("rest"), StrSort)))
    ex.write(base.sub("ok"), got)
    setg(ex, "pos", z3.If(got, p + 1, p))
    return base


def x_sscanf(ex, this, args, n=None):
    line, fmt = ex.rvalue(args[0]), ex.rvalue(args[1])
    lit = AR.literal_of(fmt)
    if lit is None:
        raise Unsupported("sscanf format")
    if not re.fullmatch(r"%(lld|ld|f)(,%(lld|ld|f))*", lit):
        raise Unsupported("sscanf format %s" % lit)
    key = "".join("f" if x == "%f" else "i" for x in lit.split(","))
    outs = [ex.rvalue(a) for a in args[2:]]
    if len(outs) != len(key) or not all(isinstance(o, Ptr) and o.loc is not None for o in outs):
        raise Unsupported("sscanf arguments")
    cnt = NF(key)(line)
    ex.assume(z3.And(-1 <= cnt, cnt <= len(key)))
    for j, (k, o) in enumerate(zip(key, outs)):
        old = ex.read(o.loc)
        if old.sort() != (I if k == "i" else R):
            raise Unsupported("sscanf argument type")
        v = ITEM[k](j, key)(line)
        if k == "i":
            ex.assume(z3.And(v >= -2 ** 63, v < 2 ** 63))
        ex.write(o.loc, z3.If(cnt > j, v, old))
    return cnt


def x_replace(ex, this, args, n=None):
    b, e, x, y = [ex.rvalue(a) for a in args]
    ok = isinstance(b, Rec) and b.cls == "string position" and b.f["s"].loc.same(e.f["s"].loc) and b.f["end"] is False and e.f["end"] is True
    x, y = z3.simplify(x), z3.simplify(y)
    if not ok or not (z3.is_int_value(x) and z3.is_int_value(y)) or (x.as_long(), y.as_long()) != (ord(","), ord(" ")):
        raise Unsupported("std::replace")
    l = b.f["s"].loc
    ex.write(l, COMMAS(ex.read(l)))


def str_pos(end):
    def f(ex, base, args, n):
        return Rec("string position", {"s": Ptr(base, z3.BoolVal(False)), "end": end})
    return f


def extract(ex, name, l, v, argnode, n):
    """iss >> x"""
    if isinstance(v, Rec) and v.cls == "iss":
        if name == "operator!":
            return z3.Not(v.f["ok"])
        if name == "operator>>":
            o = ex.ev(argnode)
            old = ex.read(o)
            t = v.f["text"]
            if old.sort() == I:
                if not z3.is_int_value(z3.simplify(v.f["at"])) or z3.simplify(v.f["at"]).as_long() != 0:
                    raise Unsupported("number extracted")
                ok = z3.And(v.f["ok"], TOK(t))
                ex.assume(z3.And(TVAL(t) >= -2 ** 63, TVAL(t) < 2 ** 63, NSIG(t) >= 0))
                ex.write(o, z3.If(ok, TVAL(t), z3.Int(ex.fresh_name("not converted"))))
                ex.write(l, Rec("iss", {"ok": ok, "text": t, "at": z3.IntVal(1)}))
            else:
                if ex.surely(v.f["at"] < 1):
                    raise Unsupported("number extracted")
                j = v.f["at"] - 1
                ok = z3.And(v.f["ok"], j < NSIG(t))
                ex.write(o, z3.If(ok, SIG(t, j), z3.Real(ex.fresh_name("not converted"))))
                ex.write(l, Rec("iss", {"ok": ok, "text": t, "at": z3.If(ok, v.f["at"] + 1, v.f["at"])}))
            return l
    return operator(ex, name, l, v, argnode, n)


def iss_state(ex, base, args, n=None):
    return ex.read(base).f["ok"] if isinstance(ex.read(base), Rec) else state(ex, base, args, n)


def make(ex, t, args, n):
    nm = str(t.a[0]) if t.a else ""
    if t.k == "stream" and "istringstream" in nm:
        vs = [ex.rvalue(ex.ev(a)) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if len(vs) != 1 or vs[0].sort() != StrSort:
            raise Unsupported("istringstream")
        return Rec("iss", {"ok": z3.BoolVal(True), "text": vs[0], "at": z3.IntVal(0)})
    if t.k == "stream" and not args:
        raise Unsupported("stream opened later")
    return construct(ex, t, [a for a in args if a.get("kind") != "CXXDefaultArgExpr"], n)


def x_now(ex, this, args, n=None):
    return Rec("time", {"s": z3.Real(ex.fresh_name("now"))})


def x_nothing(ex, this, args, n=None):
    return None


NAMES = dict(NAMES, getline=x_getline, sscanf=x_sscanf, replace=x_replace, Now=x_now, PrintF=x_nothing, FPrintF=x_nothing)
METHODS = dict(METHODS)
for k in ("opaque", "stream"):
    METHODS[(k, "operator bool")] = iss_state
METHODS.update({("str", "begin"): str_pos(False), ("str", "end"): str_pos(True)})
HOOKS = dict(KW, ext_names=NAMES, ext_methods=METHODS, construct=make, operator=extract)


# ---- the contract
def bounds(c):
    return c.a(1).f["s"], c.a(2).f["s"]


class Imp:
    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.start, self.end = [z3.ToInt(x) for x in bounds(c)]

    def sel(self, k):
        return z3.Or(self.start <= 0, self.kind.ts(k) >= self.start)

    def endrow(self, k):
        return z3.And(self.kind.parsed(k), self.sel(k), self.end > 0, self.kind.ts(k) >= self.end)

    def bad(self, k):
        ts = self.kind.ts(k)
        return z3.Or(z3.Not(self.kind.parsed(k)),
                     z3.And(self.sel(k), z3.Not(self.endrow(k)), z3.Or(ts <= 0, ts <= PREV(k) if self.kind.strict else ts < PREV(k), z3.Not(self.kind.row_valid(k)))))

    def define(self):
        self.c.ex.assume(z3.And(CNT(0) == 0, PREV(0) == 0, NROWS >= 0, NROWS < 2 ** 31 - 1))

    def step(self, k):
        out = [z3.Implies(k >= 0, z3.And(CNT(k + 1) == z3.If(self.sel(k), CNT(k) + 1, CNT(k)), PREV(k + 1) == z3.If(self.sel(k), self.kind.ts(k), PREV(k))))]
        if isinstance(self.kind, Side):
            out.append(z3.Implies(k >= 0, WIDTH(k + 1) == z3.If(z3.And(self.sel(k), CNT(k) == 0), NSIG(self.kind.line(k)), WIDTH(k))))
        return out

    def history(self, h, p):
        """h holds exactly the selected lines before line p"""
        kd = self.kind
        ts = lambda i: rec(h, i, "timestamp_sec")
        order = (lambda a, b: a < b) if kd.strict else (lambda a, b: a <= b)
        out = [("number-of-records", z3.And(h.lo == 0, h.hi == CNT(p), CNT(p) >= 0, CNT(p) <= p)),
               ("all-lines-are-good", forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < p), z3.And(kd.parsed(k), z3.Not(self.endrow(k)))), patterns=lambda k: [CNT(k)])),
               ("records-are-the-selected-lines", forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < p, self.sel(k)), z3.And(
                   0 <= CNT(k), CNT(k) < CNT(p), kd.same(self.c, h, CNT(k), k))), patterns=lambda k: [CNT(k)])),
               ("positive-timestamps", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < h.hi), ts(i) > 0))),
               ("within-the-interval", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < h.hi), z3.And(z3.Or(self.start <= 0, self.start <= ts(i)), z3.Or(self.end <= 0, ts(i) < self.end))))),
               ("ordered", forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < h.hi), order(ts(i), ts(j))))),
               ("valid-values", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < h.hi), kd.rec_valid(self.c, h, i))))]
        return out

    def latest(self, h, p):
        return [("latest", z3.And(PREV(p) >= 0, forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < h.hi), rec(h, i, "timestamp_sec") <= PREV(p)))))]

    def stop(self, p):
        """the line where reading ended, when p lines were read"""
        return z3.If(z3.And(p > 0, self.endrow(p - 1)), p - 1, p)


def ensures(kind):
    def f(c):
        m = Imp(c, kind)
        p = g(c.ex, "pos")
        o, ok = opened(c), c.res.f["ok"]
        q = m.stop(p)
        out = [("success-only-if-readable", z3.Implies(ok, o)), ("read-to-the-end", z3.Implies(ok, z3.Or(q == NROWS, q < p))),
               ("error-means-something-is-wrong", z3.Implies(z3.And(o, z3.Not(ok)), z3.And(p > 0, m.bad(p - 1))))]
        return out + [(nm, z3.Implies(ok, x)) for nm, x in m.history(c.res.f["value"], q)]
    return f


def opened(c):
    return OPEN(c.a(0))


def nodes(n, kinds):
    if not isinstance(n, dict):
        return
    if n.get("kind") in kinds:
        yield n
    for x in n.get("inner", []):
        yield from nodes(x, kinds)


def target(ex, n):
    while n.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
        n = n["inner"][0]
    if n.get("kind") == "DeclRefExpr":
        return ex.fr.env.get(n["referencedDecl"]["id"])


def int_locals(L, kinds, ops, types):
    """integer locals that are changed by this kind of expression in the loop"""
    ex, out = L.ex, []
    for n in nodes(L.node, kinds):
        if n.get("opcode") in ops:
            l = target(ex, n["inner"][0])
            if l is None or any(l.same(x) for x in out):
                continue
            v = ex.read(l)
            if isinstance(v, z3.ArithRef) and v.sort() == I and any(l.same(x) and ty(d).replace("const ", "") in types for x, d in ex.fr.names.values()):
                out.append(l)
    return out


LONG, INT = ("long", "int64_t", "long long"), ("int", "size_t", "unsigned long", "long")


def csv_inv(kind):
    def inv(L):
        ex, c = L.ex, L.fc
        m = Imp(c, kind)
        p = g(ex, "pos")
        h = L.val("history", lambda v: isinstance(v, Seq) and not isinstance(v.data, z3.ExprRef), True)
        st = L.val("infile", is_stream)
        out = [("position", z3.And(0 <= p, p <= NROWS, st.f["ok"], st.f["opened"]))] + m.history(h, p) + m.latest(h, p)
        prev = int_locals(L, ("BinaryOperator",), ("=",), LONG)
        if len(prev) == 1:
            out.append(("previous-timestamp", ex.read(prev[0]) == PREV(p)))
        for l in int_locals(L, ("UnaryOperator",), ("++",), INT):
            out.append(("line-number", z3.And(L.old(l) <= ex.read(l), ex.read(l) <= L.old(l) + p)))
        if kind.strict:
            out.append(("width", z3.Implies(CNT(p) > 0, z3.And(WIDTH(p) >= 1, size(signals(c, h, z3.IntVal(0))) == WIDTH(p)))))
            w = int_locals(L, ("BinaryOperator",), ("=",), ("int",))
            if len(w) == 1:
                out.append(("number-of-signals", ex.read(w[0]) == z3.If(CNT(p) == 0, 0, WIDTH(p))))
        return out
    return inv


def csv_head(kind):
    return lambda L: Imp(L.fc, kind).step(g(L.ex, "pos"))


def csv_measure(L):
    return NROWS - g(L.ex, "pos")


class Delimited(Csv):
    """the messages of a delimited file"""
    def __init__(self, msg, fields):
        self.msg, self.fields = msg, fields

    def parsed(self, k):
        return z3.BoolVal(True)

    def val(self, k, j):
        return z3.Select(self.IN.data.f[self.fields[j]], k)

    def same(self, c, h, i, k):
        return c.V.eq(c.V.sel(h.data, i), c.V.sel(self.IN.data, k))


def frame_local(L, pred):
    """the modified local of any function on the stack that satisfies pred"""
    mr, out = L.modroots(), []
    for fr in L.ex.frames + [L.ex.fr]:
        for nm, (l, d) in fr.names.items():
            if l.root in mr and not any(l.same(x) for x in out):
                v = L.ex.read(l)
                if pred(v, d):
                    out.append(l)
    return out


def is_int(v, d, types):
    return isinstance(v, z3.ArithRef) and v.sort() == I and ty(d).replace("const ", "") in types


def d_inv(kind):
    def inv(L):
        ex, c = L.ex, L.fc
        m = Imp(c, kind)
        p = g(ex, "pos")
        hs = frame_local(L, lambda v, d: isinstance(v, Seq) and isinstance(v.data, Rec))
        if len(hs) != 1:
            raise AnnotationMismatch("the history that is read")
        h = ex.read(hs[0])
        out = [("position", z3.And(0 <= p, p <= kind.IN.hi))] + m.history(h, p) + m.latest(h, p)
        prev = frame_local(L, lambda v, d: is_int(v, d, LONG))
        if len(prev) == 1:
            out.append(("previous-timestamp", ex.read(prev[0]) == PREV(p)))
        for l in frame_local(L, lambda v, d: is_int(v, d, ("int",))):
            out.append(("record-number", z3.And(L.old(l) <= ex.read(l), ex.read(l) <= L.old(l) + p)))
        return out
    return inv


def d_ens(kind):
    def f(c):
        m = Imp(c, kind)
        p = g(c.ex, "pos")
        o, ok = opened(c), c.res.f["ok"]
        q = m.stop(p)
        N = kind.IN.hi
        out = [("success-only-if-readable", z3.Implies(ok, o)), ("read-to-the-end", z3.Implies(ok, z3.Or(q < p, z3.And(q == N, CLEAN)))),
               ("error-means-something-is-wrong", z3.Implies(z3.And(o, z3.Not(ok)), z3.Or(z3.And(p > 0, m.bad(p - 1)), z3.And(p == N, z3.Not(CLEAN)))))]
        return out + [(nm, z3.Implies(ok, x)) for nm, x in m.history(c.res.f["value"], q)]
    return f


def d_entry(kind):
    def f(c):
        IN = c.ex.fresh(T("seq", "vector", T("proto", kind.msg)), "IN")
        c.ex.assume(z3.And(IN.lo == 0, IN.hi >= 0, IN.hi < 2 ** 31 - 1))
        kind.IN = IN
        ghosts(c, IN=IN, pos=z3.IntVal(0), handed=z3.IntVal(0), failed=z3.BoolVal(False))
        c.ex.assume(z3.And(CNT(0) == 0, PREV(0) == 0))
    return f


def d_task(nm, kind):
    ls = LoopSpec("messages", d_inv(kind), lambda L: kind.IN.hi - g(L.ex, "pos"), head=csv_head(kind), ghosts=lambda L: [L.fc.ghost[x] for x in ("pos", "failed")])
    C = Contract(nm, None, d_ens(kind), lambda c: [], ghost_entry=d_entry(kind), loops=[ls])
    return Task(nm, nm, C, [], opt={"file mode": 8, "nan": True}, **HOOKS)


def entry(kind):
    def f(c):
        ghosts(c, pos=z3.IntVal(0))
        Imp(c, kind).define()
    return f


# ---- signals of one line
def sig_inv(L):
    ex = L.ex
    iss = L.val("iss", lambda v: isinstance(v, Rec) and v.cls == "iss")
    hl = L.loc("history", lambda v: isinstance(v, Seq) and not isinstance(v.data, z3.ExprRef), True)
    h, h0 = ex.read(hl), L.old(hl)
    s = signals(L, h, h.hi - 1)
    k = iss.f["at"] - 1
    V = ex.V
    return [("position", z3.And(0 <= k, k <= NSIG(iss.f["text"]), iss.f["ok"])), ("same-records", z3.And(h.lo == h0.lo, h.hi == h0.hi)),
            ("earlier-records-kept", forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < h.hi - 1), V.eq(V.sel(h.data, i), V.sel(h0.data, i))))),
            ("timestamp-kept", rec(h, h.hi - 1, "timestamp_sec") == rec(h0, h.hi - 1, "timestamp_sec")),
            ("signals", z3.And(s.lo == 0, s.hi == k, forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), at(s, q) == SIG(iss.f["text"], q)))))]


def sig_measure(L):
    iss = L.val("iss", lambda v: isinstance(v, Rec) and v.cls == "iss")
    return NSIG(iss.f["text"]) - iss.f["at"]


def csv_task(nm, kind, loops=()):
    ls = LoopSpec("lines", csv_inv(kind), csv_measure, head=csv_head(kind), ghosts=lambda L: [L.fc.ghost["pos"]], applies=lambda L: len(L.nest()) == 1)
    C = Contract(nm, None, ensures(kind), lambda c: [], ghost_entry=entry(kind), loops=[ls] + list(loops))
    return Task(nm, nm, C, [], opt={"file mode": 8, "nan": True}, **HOOKS)


def tasks(P):
    inner = LoopSpec("signals", sig_inv, sig_measure, applies=lambda L: len(L.nest()) == 2)
    return [csv_task("ReadPriceHistoryFromCsvFile", Csv(["timestamp_sec", "price", "volume"])),
            csv_task("ReadOhlcHistoryFromCsvFile", Csv(["timestamp_sec", "open", "high", "low", "close", "volume"])),
            csv_task("ReadSideHistoryFromCsvFile", Side(), [inner]),
            d_task("ReadPriceHistoryFromDelimitedProtoFile", Delimited("PriceRecord", ["timestamp_sec", "price", "volume"])),
            d_task("ReadOhlcHistoryFromDelimitedProtoFile", Delimited("OhlcTick", ["timestamp_sec", "open", "high", "low", "close", "volume"]))]
