"""Ghost model of the streams that delimited messages are read from and written to (protobuf and the standard library are external).

Reading: the data behind the stream is a ghost sequence IN of N messages.  ParseDelimitedFromZeroCopyStream delivers IN[pos] while
pos < N; after that it fails, and the end is clean iff it says so, the decompressor ended regularly and the stream is not bad.
Writing: serialising message k succeeds iff SOK(k); the bytes reach the stream when the protobuf streams on top of it are gone, and
flushing the stream then tells whether everything was written (GOOD)."""
from specs.hist_common import *

MODE_BITS = {"app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}
Z_STREAM_END = 1
OPEN = z3.Function("can be opened", StrSort, z3.BoolSort())
ATB, BAD, GOOD = z3.Bool("end between messages"), z3.Bool("stream is bad at the end"), z3.Bool("everything is written")
ZCODE = z3.Int("decompression result")
ROK, RSIG, SOK = z3.Function("reader succeeds", I, z3.BoolSort()), z3.Function("reader signal", I, I), z3.Function("can be serialised", I, z3.BoolSort())
RSTATUS = z3.Function("reader status", I, ObjSort)
CLEAN = z3.And(ATB, ZCODE == Z_STREAM_END, z3.Not(BAD))
IO_ASSUMES = ["protobuf delivers the delimited messages of the data in order and fails after the last complete one; it says whether the data "
              "ended between two messages, ZlibErrorCode() tells whether the decompression ended regularly (a file truncated between two messages "
              "does), bad() whether reading failed; the fields are merged into the message that is passed",
              "messages reach the stream when the protobuf output streams are destroyed; flush() then tells whether everything was written"]


def main(c):
    return c.ex.task.ctx_of(c.ex)


def g(ex, nm):
    m = ex.task.ctx_of(ex)
    if nm not in m.ghost:
        raise AnnotationMismatch("%s is not expected here" % nm)
    return ex.read(m.ghost[nm])


def setg(ex, nm, v):
    m = ex.task.ctx_of(ex)
    ex.write(m.ghost[nm], v)


def ghosts(c, **kw):
    for nm, v in kw.items():
        c.ghost[nm] = c.ex.new_root("ghost." + nm, v)


def stream(ex, ok):
    return Rec("fstream", {"ok": ok, "buffered": z3.BoolVal(False)})


def is_stream(v):
    return isinstance(v, Rec) and v.cls == "fstream"


def oblige(ex, what, goal, n=None):
    ex.oblige("%s/%s" % (ex.cur_name(), what), goal, None, "pre")


def chain(ex, v, classes):
    """follow the stream objects on top of each other down to the standard stream"""
    seen = []
    while True:
        if isinstance(v, Ptr):
            if v.loc is None:
                raise Unsupported("null stream")
            loc, v = v.loc, ex.read(v.loc)
        if is_stream(v):
            return seen, loc
        if not (isinstance(v, Rec) and "src" in v.f):
            raise Unsupported("stream %r" % (v,))
        seen.append(v.cls)
        v = v.f["src"]


def the_stream(ex, loc):
    """the stream parameter, or a file stream opened by this function"""
    m = ex.task.ctx_of(ex)
    for a in m.argv:
        if is_stream(ex.read(a)):
            return z3.BoolVal(loc.same(a))
    return ex.read(loc).f["opened"] if "opened" in ex.read(loc).f else z3.BoolVal(False)


# ---- reading
def x_parse(ex, this, args, n=None):
    msg, src, eof = [ex.rvalue(a) for a in args[:3]]
    seen, loc = chain(ex, src, None)
    oblige(ex, "reads-through-the-decompressor", z3.BoolVal(seen == ["GzipInputStream", "IstreamInputStream"]))
    oblige(ex, "reads-the-given-stream", the_stream(ex, loc))
    IN, pos = g(ex, "IN"), g(ex, "pos")
    got = pos < IN.hi
    t = T("proto", ex.read(msg.loc).cls)
    empty = ex.V.eq(ex.read(msg.loc), ex.V.default(t))      # the fields are merged into the message: it is exact only if it was empty
    ex.write(msg.loc, ex.V.ite(z3.And(got, empty), ex.V.sel(IN.data, pos), ex.fresh(t, "partial")))
    if eof.loc is not None:
        ex.write(eof.loc, z3.If(got, False, ATB))
    setg(ex, "pos", z3.If(got, pos + 1, pos))
    setg(ex, "failed", z3.Not(got))
    return got


def x_zcode(ex, base, args, n=None):
    return z3.If(g(ex, "failed"), ZCODE, z3.Int(ex.fresh_name("zcode")))


def x_bad(ex, base, args, n=None):
    return z3.If(g(ex, "failed"), BAD, z3.Bool(ex.fresh_name("bad")))


def reader(ex, v, args):
    """the function the messages are handed to"""
    IN, k, pos = g(ex, "IN"), g(ex, "handed"), g(ex, "pos")
    m = ex.rvalue(args[0])
    oblige(ex, "hands-over-the-next-message", z3.And(k == pos - 1, k < IN.hi, ex.V.eq(m, ex.V.sel(IN.data, k))))
    setg(ex, "handed", k + 1)
    ex.assume(z3.And(RSIG(k) >= 0, RSIG(k) <= 1))
    return Rec("statusor", {"ok": ROK(k), "status": RSTATUS(k), "value": RSIG(k)})


# ---- writing
def x_serialize(ex, this, args, n=None):
    msg = ex.rvalue(args[0])
    seen, loc = chain(ex, ex.rvalue(args[1]), None)
    k = g(ex, "ser")
    m = main_range(ex)
    s, b, e = m
    oblige(ex, "writes-the-next-message", z3.And(b + k < e, ex.V.eq(msg, ex.V.sel(s.data, b + k))))
    oblige(ex, "writes-through-the-compressor", z3.BoolVal(seen == ["GzipOutputStream", "OstreamOutputStream"]))
    oblige(ex, "writes-to-the-given-stream", the_stream(ex, loc))
    setg(ex, "ser", k + 1)
    ex.write(loc.sub("buffered"), z3.BoolVal(True))
    return SOK(k)


def main_range(ex):
    c = ex.task.ctx_of(ex)
    it, e = c.a(0), c.a(1)
    return c.at(c.pre, it.loc), it.idx, e.idx


def destroy(ex, loc, t):
    nm = t.a[0] if t.k == "opaque" else ""
    if nm.endswith("OutputStream"):
        v = ex.read(loc)
        if isinstance(v, Rec) and "open" in v.f:
            ex.write(loc.sub("open"), z3.BoolVal(False))
            seen, sl = chain(ex, Ptr(loc, z3.BoolVal(False)), None)
            if nm.endswith("OstreamOutputStream"):
                ex.write(sl.sub("buffered"), z3.BoolVal(False))


def x_flush(ex, base, args, n=None):
    v = ex.read(base)
    if not is_stream(v):
        raise Unsupported("flush")
    ex.write(base.sub("ok"), z3.And(v.f["ok"], z3.If(v.f["buffered"], z3.Bool(ex.fresh_name("flushed early")), GOOD)))
    setg(ex, "flushed", z3.Not(v.f["buffered"]))
    return base


def state(ex, base, args, n=None):
    v = ex.read(base)
    if not is_stream(v):
        raise Unsupported("stream state")
    return v.f["ok"]


def nstate(ex, base, args, n=None):
    return z3.Not(state(ex, base, args, n))


def x_isopen(ex, base, args, n=None):
    return state(ex, base, args, n)


# ---- construction, constants
def construct(ex, t, args, n):
    nm = str(t.a[0]) if t.a else ""
    if t.k == "stream":
        vs = [ex.rvalue(ex.ev(a)) for a in args]
        if len(vs) == 1 and is_stream(vs[0]):
            return vs[0]
        kind = "in" if "ifstream" in nm else "out" if "ofstream" in nm else ""
        if not vs or len(vs) > 2 or not isinstance(vs[0], z3.ExprRef) or vs[0].sort() != StrSort:
            raise Unsupported("stream construction")
        m = vs[1].as_long() if len(vs) > 1 else MODE_BITS.get(kind, 24)
        m |= MODE_BITS.get(kind, 0)
        want = ex.task.opt["file mode"]
        oblige(ex, "opens-the-file-to-%s" % ("read" if want == 8 else "write"), z3.BoolVal((m & ~4) in ((8,) if want == 8 else (16, 48))))
        fa = [ex.task.ctx_of(ex).pre[l.root] for l in ex.task.ctx_of(ex).argv]
        fa = [x for x in fa if isinstance(x, z3.ExprRef) and x.sort() == StrSort]
        oblige(ex, "opens-the-given-file", z3.Or(*[vs[0] == x for x in fa]))
        return Rec("fstream", {"ok": OPEN(vs[0]), "buffered": z3.BoolVal(False), "opened": OPEN(vs[0])})
    if t.k != "opaque":
        return NotImplemented
    if nm.endswith("GzipOutputStream::Options"):
        if args:
            return ex.rvalue(ex.ev(args[0]))
        return Rec("gzopts", {k: z3.Int(ex.fresh_name(k)) for k in ("format", "buffer_size", "compression_level", "compression_strategy")})
    for k in ("IstreamInputStream", "GzipInputStream", "OstreamOutputStream", "GzipOutputStream"):
        if nm.endswith("::" + k):
            vs = [ex.rvalue(ex.ev(a)) for a in args]
            if not vs or not isinstance(vs[0], Ptr):
                raise Unsupported(nm)
            return Rec(k, dict({"src": vs[0]}, **({"open": z3.BoolVal(True)} if "Output" in k else {})))
    return NotImplemented


def operator(ex, name, l, v, argnode, n):
    if is_stream(v) and name == "operator!":
        return z3.Not(v.f["ok"])
    if name == "operator|" and isinstance(v, z3.ExprRef) and v.sort() == I:
        b = ex.rvalue(ex.ev(argnode))
        a, b = z3.simplify(v), z3.simplify(b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.IntVal(a.as_long() | b.as_long())
        raise Unsupported("operator|")
    return NotImplemented


def global_value(ex, rd, n):
    if rd.get("name") in MODE_BITS and "openmode" in str(rd.get("type", {})).lower():
        return ex.new_root("const", z3.IntVal(MODE_BITS[rd["name"]]))
    return None


NAMES = {"ParseDelimitedFromZeroCopyStream": x_parse, "SerializeDelimitedToZeroCopyStream": x_serialize}
METHODS = {}
for k in ("opaque", "stream"):
    METHODS.update({(k, "ZlibErrorCode"): x_zcode, (k, "bad"): x_bad, (k, "flush"): x_flush, (k, "good"): state, (k, "fail"): nstate,
                    (k, "operator bool"): state, (k, "operator!"): nstate, (k, "is_open"): x_isopen})
KW = dict(ext_names=NAMES, ext_methods=METHODS, construct=construct, operator=operator, global_value=global_value, callback=reader)
