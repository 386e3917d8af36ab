"""L01: one complete CSV row per event.  The content of an output stream is a ghost text; formatting functions with a literal format are split
into literal text and fields: F("%.3f")(x) is the text of one number, NAME the name of an enumerator."""
import ast, re
from specs.ind_common import *

UNITS = [("logging/csv_logger.cc", ("trader::", "(anonymous namespace)::"))]
ASSUMES = ["absl::StrFormat/StrCat concatenate their literal text and the formatted arguments", "the two output streams are different objects"]
REPLAY = ("csv_oracle.cc", ["L01"], "csv")
S = z3.StringSort()
TEXT = z3.Function("TEXT", StrSort, S)


def num(spec, x):
    if x.sort() == I and spec in ("d", "i", "u", "v", "lld", "ld", "llu", "lu"):
        spec = "d"
    return z3.Function("F(%" + spec + ")", x.sort(), S)(x)


def name_of(kind, x):
    return z3.Function("name of " + kind, I, StrSort)(x)


def cat(ps):
    ps = [p for p in ps if not (z3.is_string_value(p) and p.as_string() == "")]
    if not ps:
        return z3.StringVal("")
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def literal(t):
    nm = t.decl().name()
    if nm == "str!empty":
        return ""
    if nm.startswith("str:"):
        return ast.literal_eval(nm[4:])
    return None


def text(t):
    """the text of a std::string value"""
    if t.sort() == S:
        return t
    lit = literal(t)
    if lit is not None:
        return z3.StringVal(lit)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), text(t.arg(1)), text(t.arg(2)))
    nm = t.decl().name()
    if nm == "strcat":
        return cat([text(t.arg(0)), text(t.arg(1))])
    if nm.startswith("StrFormat/") and literal(t.arg(0)) is not None:
        return formatted(literal(t.arg(0)), t.children()[1:])
    if nm.startswith("StrCat/"):
        return cat([text(a) if a.sort() == StrSort else num("d" if a.sort() == I else "g", a) for a in t.children()])
    return TEXT(t)


def formatted(f, args):
    out, args, lit = [], list(args), ""
    i = 0
    while i < len(f):
        if f[i] != "%":
            lit += f[i]
            i += 1
            continue
        m = re.match(r"%([-+ #0]*[0-9]*(?:\.[0-9]+)?)(?:hh|h|ll|l|z|t|j|L)?([a-zA-Z%])", f[i:])
        if not m:
            raise Unsupported("format " + f)
        i += m.end()
        if m.group(2) == "%":
            lit += "%"
            continue
        if not args:
            raise Unsupported("format arguments")
        a = args.pop(0)
        out.append(z3.StringVal(lit))
        lit = ""
        spec = m.group(1) + m.group(2)
        if a.sort() == StrSort:
            if spec not in ("s", "v"):
                raise Unsupported("format %" + spec)
            out.append(text(a))
        else:
            out.append(num(spec, a))
    if args:
        raise Unsupported("format arguments")
    out.append(z3.StringVal(lit))
    return cat(out)


# ---- streams
def appended(ex, l, t):
    ex.write(l.sub("text"), cat([ex.read(l).f["text"], t]))
    return l


def is_os(v):
    return isinstance(v, Rec) and v.cls == "ostream"


def refs(n):
    if n.get("kind") == "DeclRefExpr":
        yield n["referencedDecl"].get("name")
    for c in n.get("inner", []):
        yield from refs(c)


def operator(ex, name, l, v, argnode, n):
    if not is_os(v):
        return NotImplemented
    if name != "operator<<":
        raise Unsupported(name + " on a stream")
    r = [x for x in refs(argnode) if x in ("endl", "flush")]
    if r:
        return appended(ex, l, z3.StringVal("\n" if r[0] == "endl" else ""))
    a = ex.rvalue(ex.ev(argnode))
    if isinstance(a, z3.ExprRef) and a.sort() == StrSort:
        return appended(ex, l, text(a))
    if isinstance(a, z3.ExprRef) and a.sort() == I and "char" in ty(argnode):
        a = z3.simplify(a)
        if z3.is_int_value(a):
            return appended(ex, l, z3.StringVal(chr(a.as_long())))
        raise Unsupported("character")
    if isinstance(a, z3.ExprRef) and a.sort() in (I, R):
        return appended(ex, l, num("d" if a.sort() == I else "<<", a))
    raise Unsupported("stream output of %r" % (a,))


def x_name(kind):
    return lambda ex, this, args, n=None: name_of(kind, ex.rvalue(args[0]))


def x_format(ex, this, args, n=None):
    """absl::Format(&stream, format, ...)"""
    p = ex.rvalue(args[0])
    if not isinstance(p, Ptr) or p.loc is None or not is_os(ex.read(p.loc)):
        raise Unsupported("Format")
    f = ex.rvalue(args[1])
    vals = [ex.rvalue(a) for a in args[2:]]
    if literal(f) is None or not all(isinstance(a, z3.ExprRef) for a in vals):
        raise Unsupported("format")
    appended(ex, p.loc, formatted(literal(f), vals))
    return z3.BoolVal(True)


def x_write(ex, base, args, n=None):
    v = ex.rvalue(args[0])
    return appended(ex, base, text(v))


def nothing(ex, base, args, n=None):
    return base


NAMES = {"Type_Name": x_name("type"), "Side_Name": x_name("side"), "Order_Type_Name": x_name("type"), "Order_Side_Name": x_name("side"), "Format": x_format}
METHODS = {(k, "flush"): nothing for k in ("stream", "opaque")}


def logger(ex):
    f = {}
    for (nm, ft, init) in ex.P.all_fields("CsvLogger"):
        t = ex.tt.parse(ft)
        if t.k == "ptr" and t.a[0].k == "stream":
            root = ex.new_root("stream " + nm, Rec("ostream", {"text": z3.Const("text of " + nm, S)}))
            f[nm] = Ptr(root, z3.Bool(nm + " is null"))
        else:
            f[nm] = ex.fresh(t, "this." + nm)
    if set(f) < {"exchange_os_", "trader_os_"}:
        raise AnnotationMismatch("streams of the logger")
    return Rec("CsvLogger", f)


# ---- contracts
def tick_row(t):
    return [num("d", t.f["timestamp_sec"])] + [num(".3f", t.f[k]) for k in ("open", "high", "low", "close", "volume")]


def account_row(a):
    return [num(".3f", a.f[k]) for k in ("base_balance", "quote_balance", "total_fee")]


E = z3.StringVal("")


def order_row(P, o):
    m = P.protos["Order"]
    case = {f.name: f.num for f in m.fields}
    amount = lambda k: z3.If(o.f["oneof_amount_case"] == case[k], num(".3f", o.f[k]), E)
    return [TEXT(name_of("type", o.f["type"])), TEXT(name_of("side", o.f["side"])), amount("base_amount"), amount("quote_amount"),
            z3.If(o.f["price"] > 0, num(".3f", o.f["price"]), E)]


def line(fields):
    out = []
    for i, f in enumerate(fields):
        out += ([z3.StringVal(",")] if i else []) + [f]
    return cat(out + [z3.StringVal("\n")])


def written(c, which, other, row):
    this = c.this
    p, q = this.f[which], this.f[other]
    old, new = c.at(c.pre, p.loc).f["text"], c.at(c.cur(), p.loc).f["text"]
    return [("one-row", z3.Implies(z3.Not(p.null), new == z3.Concat(old, row))), ("absent-stream", z3.Implies(p.null, new == old)),
            ("other-stream", c.at(c.pre, q.loc).f["text"] == c.at(c.cur(), q.loc).f["text"])]


def rows(c):
    P = c.ex.P
    if len(c.argv) == 2:
        return line(tick_row(c.a(0)) + account_row(c.a(1)) + [E] * 5)
    return line(tick_row(c.a(0)) + account_row(c.a(1)) + order_row(P, c.a(2)))


def exchange(c):
    return written(c, "exchange_os_", "trader_os_", rows(c))


def state(c):
    return written(c, "trader_os_", "exchange_os_", z3.Concat(TEXT(c.a(0)), z3.StringVal("\n")))


def same_ptr(a, b):
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise AnnotationMismatch("stream pointers")
    return a.null == b.null if a.loc is not None and a.loc.same(b.loc) else z3.And(a.null, b.null)


def constructed(c):
    f = c.this1.f
    return [("exchange-stream", same_ptr(f["exchange_os_"], c.a(0))), ("trader-stream", same_ptr(f["trader_os_"], c.a(1)))]


KW = dict(ext_names=NAMES, ext_methods=METHODS, operator=operator, opt={"this": logger})


def tasks(P):
    nm = "CsvLogger::LogExchangeState"
    return [Task("LogExchangeState(%s)" % ("order" if n == 3 else "tick"), nm, Contract(nm, None, exchange, lambda c: [], nparams=n), nparams=n, **KW) for n in (2, 3)] + [
        Task("LogTraderState", "CsvLogger::LogTraderState", Contract("CsvLogger::LogTraderState", None, state, lambda c: []), **KW),
        Task("CsvLogger", "CsvLogger::CsvLogger", Contract("CsvLogger::CsvLogger", None, constructed, lambda c: [c.this_loc]), nparams=2)]
