"""U03: times are parsed and shifted as UTC calendar times.

DAYS(k) is the day number (from 1970-01-01) of the first day of month k = 12 * year + month - 1 of the proleptic Gregorian calendar,
in closed form.  A time is CIVIL(y, mo, d, h, mi, s) = DAYS(12y + mo - 1) * 86400 + (d - 1) * 86400 + 3600h + 60mi + s seconds."""
from specs.ind_common import *
from engine.arith import string_literal

UNITS = [("util/time.cc", ("trader::", "(anonymous namespace)::"))]
ASSUMES = ["absl::ToCivilSecond/CivilSecond/FromCivil follow the proleptic Gregorian calendar with unbounded years", "absl::ParseTime and absl::FormatTime behave as documented "
           "(uninterpreted functions of format, string and time zone)"]
REPLAY = ("util_oracle.cc", ["U03"], "util")
FIELDS = ("year", "month", "day", "hour", "minute", "second")
UTC = z3.Const("UTC", ObjSort)
LOCAL = z3.Const("local time zone", ObjSort)
FIELD = {f: z3.Function("civil." + f, R, ObjSort, I) for f in FIELDS}      # absl::ToCivilSecond(time, zone).f()
CSEC = z3.Function("CIVIL", I, I, I, I, I, I, ObjSort, R)                  # absl::FromCivil(CivilSecond(...), zone)
PARSES, PARSED = z3.Function("parses", StrSort, StrSort, ObjSort, z3.BoolSort()), z3.Function("parsed", StrSort, StrSort, ObjSort, R)
FORMAT = z3.Function("FormatTime", StrSort, R, ObjSort, StrSort)
RFC3339_SEC, RFC3339_FULL = "%Y-%m-%d%ET%H:%M:%S%Ez", "%Y-%m-%d%ET%H:%M:%E*S%Ez"
FORMATS = [RFC3339_SEC, "%Y-%m-%d %H:%M:%S %Ez", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %Ez", "%Y-%m-%d"]


def lit(s):
    return string_literal('"%s"' % s)


def days(k):
    """closed form: count in years that start in March"""
    m = k % 12                       # 0 = January
    y = k / 12 - z3.If(m < 2, 1, 0)
    mp = z3.If(m < 2, m + 10, m - 2)
    return 365 * y + y / 4 - y / 100 + y / 400 + (153 * mp + 2) / 5 - 719468


def seconds(y, mo, d, h, mi, s):
    return 86400 * (days(12 * y + mo - 1) + d - 1) + 3600 * h + 60 * mi + s


def civil_facts(ex, t):
    """what absl guarantees about the UTC civil time of t"""
    v = {f: FIELD[f](t, UTC) for f in FIELDS}
    k = 12 * v["year"] + v["month"] - 1
    rng = {"month": (1, 12), "hour": (0, 23), "minute": (0, 59), "second": (0, 59)}
    for f, (a, b) in rng.items():
        ex.assume(z3.And(a <= v[f], v[f] <= b))
    ex.assume(z3.And(1 <= v["day"], v["day"] <= 31, v["day"] <= days(k + 1) - days(k)))
    ex.assume(z3.And(v["year"] > -10 ** 15, v["year"] < 10 ** 15))
    ex.assume(seconds(*[v[f] for f in FIELDS]) == z3.ToInt(t))
    return v


# ---- external operations
def x_utc(ex, this, args, n=None):
    return UTC


def x_local(ex, this, args, n=None):
    return LOCAL


def x_tocivil(ex, this, args, n=None):
    t, z = ex.rvalue(args[0]).f["s"], ex.rvalue(args[1])
    civil_facts(ex, t)
    return Rec("civil", {f: FIELD[f](t, z) for f in FIELDS})


def x_fromcivil(ex, this, args, n=None):
    c, z = ex.rvalue(args[0]), ex.rvalue(args[1])
    if not (isinstance(c, Rec) and c.cls == "civil"):
        raise Unsupported("civil time")
    a = [c.f[f] for f in FIELDS]
    r = CSEC(*a, z)
    ex.assume(CSEC(*a, UTC) == z3.ToReal(seconds(*a)))
    return Rec("time", {"s": r})


def field_of(f):
    def h(ex, base, args, n):
        return ex.read(base).f[f]
    return h


def construct(ex, t, args, n):
    nm = t.a[0] if t.k == "opaque" else ""
    if "civil_time<" in nm or "Civil" in nm:
        if not (nm.endswith("CivilSecond") or "second_tag" in nm):
            raise Unsupported(nm)
        vs = [ex.rvalue(ex.ev(a)) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Rec) and vs[0].cls == "civil":
            return vs[0]
        if not vs or not all(isinstance(v, z3.ArithRef) for v in vs):
            raise Unsupported("civil time constructor")
        dflt = [1970, 1, 1, 0, 0, 0]
        vs += [z3.IntVal(x) for x in dflt[len(vs):]]
        return Rec("civil", dict(zip(FIELDS, vs)))
    return NotImplemented


def x_parse(ex, this, args, n=None):
    """bool absl::ParseTime(format, input, [time zone,] Time* time, std::string* err)"""
    fmt, s = ex.rvalue(args[0]), ex.rvalue(args[1])
    rest = args[2:]
    zone = UTC
    if len(rest) == 3:
        zone, rest = ex.rvalue(rest[0]), rest[1:]
    p = ex.rvalue(rest[0])
    err = ex.rvalue(rest[1])
    if not isinstance(err, Ptr) or err.loc is not None:
        raise Unsupported("error message of ParseTime")
    ex.oblige("%s/ParseTime of null" % ex.cur_name(), z3.Not(p.null), None, "safety")
    ok = PARSES(fmt, s, zone)
    old = ex.read(p.loc)
    ex.write(p.loc, ex.V.ite(ok, Rec("time", {"s": PARSED(fmt, s, zone)}), old))      # unchanged on failure
    return ok


def x_format(ex, this, args, n=None):
    a = [ex.rvalue(x) for x in args]
    if len(a) == 1:
        return FORMAT(lit(RFC3339_FULL), a[0].f["s"], LOCAL)
    if len(a) == 2:
        return FORMAT(lit(RFC3339_FULL), a[0].f["s"], a[1])
    return FORMAT(a[0], a[1].f["s"], a[2])


def global_value(ex, rd, n):
    if rd.get("name") in ("RFC3339_sec", "RFC3339_full"):
        return ex.new_root("const", lit(RFC3339_SEC if rd["name"] == "RFC3339_sec" else RFC3339_FULL))
    return None


NAMES = {"UTCTimeZone": x_utc, "LocalTimeZone": x_local, "ToCivilSecond": x_tocivil, "FromCivil": x_fromcivil, "ParseTime": x_parse, "FormatTime": x_format}
METHODS = {("opaque", f): field_of(f) for f in FIELDS}


# ---- contracts
def shifted(t, months):
    v = [FIELD[f](t, UTC) for f in FIELDS]
    v[1] = v[1] + months
    return seconds(*v)


def add_req(c):
    civil_facts(c.ex, c.a(0).f["s"])
    return [("month-count-fits", z3.And(c.a(1) >= -2 ** 31, c.a(1) <= 2 ** 31 - 1 - 12))]


def add_ens(c):
    return [("only-the-month-changes", c.res.f["s"] == z3.ToReal(shifted(c.a(0).f["s"], c.a(1))))]


def addts_req(c):
    civil_facts(c.ex, z3.ToReal(c.a(0)))
    return [("month-count-fits", z3.And(c.a(1) >= -2 ** 31, c.a(1) <= 2 ** 31 - 1 - 12)), ("time-in-range", z3.And(c.a(0) > -10 ** 17, c.a(0) < 10 ** 17))]


def addts_ens(c):
    return [("agrees-with-the-time-variant", c.res == shifted(z3.ToReal(c.a(0)), c.a(1)))]


def parse_ens(c):
    s = c.a(0)
    ok = [PARSES(lit(f), s, UTC) for f in FORMATS]
    r = c.res
    return [("error-iff-no-format-matches", r.f["ok"] == z3.Or(*ok)),
            ("value", z3.Implies(r.f["ok"], z3.Or(*[z3.And(o, r.f["value"].f["s"] == PARSED(lit(f), s, UTC)) for o, f in zip(ok, FORMATS)])))]


def format_ens(c):
    return [("utc", c.res == FORMAT(lit("%Y-%m-%d %H:%M:%S"), c.a(0).f["s"], UTC))]


ADD = Contract("AddMonthsToTime", add_req, add_ens, lambda c: [])
ADDTS = Contract("AddMonthsToTimestampSec", addts_req, addts_ens, lambda c: [])
PARSE = Contract("ParseTime", None, parse_ens, lambda c: [])
FMT = Contract("FormatTimeUTC", None, format_ens, lambda c: [])


# ---- lemmas used by E05
def calendar(task, ex):
    k = z3.Int("k")
    length = lambda j: days(j + 1) - days(j)
    m, y = k % 12, k / 12
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    table = [31, z3.If(leap, 29, 28), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    for i in range(12):
        # one obligation per month: month k = 12 y + i
        kk = 12 * z3.Int("y") + i
        t = table[i] if i != 1 else z3.substitute(table[1], (k, kk))
        ex.oblige("calendar/month-lengths:%d" % (i + 1), length(kk) == t, None, "post")
    ex.oblige("calendar/epoch", days(z3.IntVal(12 * 1970)) == 0, None, "post")
    # LEN(j): facts about the lengths of months that follow from the table (used below for arbitrary months)
    D = z3.Function("DAYS", I, I)
    LEN = lambda j: D(j + 1) - D(j)
    axioms = lambda j: z3.And(28 <= LEN(j), LEN(j) <= 31, z3.Or(LEN(j) == 31, LEN(j + 1) == 31))
    for i in range(12):
        kk = 12 * z3.Int("y") + i
        ex.oblige("calendar/short-months-are-isolated:%d" % (i + 1), z3.And(28 <= length(kk), length(kk) <= 31, z3.Or(length(kk) == 31, length(kk + 1) == 31)), None, "post")
    # START(k): day d, second of day q in month m0 + k; FIN(k): START(k) plus p months.  A day past the end of its month spills over.
    d, q, p, m0 = z3.Int("d"), z3.Int("q"), z3.Int("p"), z3.Int("m0")
    ex.assume(z3.And(1 <= d, d <= 31, 0 <= q, q < 86400, p > 0))

    def start(j):
        """month, day"""
        spill = d > LEN(m0 + j)
        return z3.If(spill, m0 + j + 1, m0 + j), z3.If(spill, d - LEN(m0 + j), d)

    def fin(j):
        m, dd = start(j)
        return 86400 * (D(m + p) + dd - 1) + q
    for j in (m0 + k, m0 + k + 1, m0 + k + p, m0 + k + p + 1, m0 + k + p + 2):
        ex.assume(axioms(j))
    m, dd = start(k)
    ex.oblige("calendar/start-day-is-valid", z3.And(1 <= dd, dd <= LEN(m), D(m) + dd == D(m0 + k) + d), None, "post")
    m1, dd1 = start(k + 1)
    ex.oblige("calendar/periods-start-in-order", 86400 * (D(m) + dd - 1) + q < 86400 * (D(m1) + dd1 - 1) + q, None, "post")
    ex.oblige("calendar/periods-end-in-order", fin(k) < fin(k + 1), None, "post")
    # adding no months is the identity on whole seconds
    t = z3.Int("t")
    civil_facts(ex, z3.ToReal(t))
    ex.oblige("calendar/no-months-is-the-identity", shifted(z3.ToReal(t), 0) == t, None, "post")
    ex.pc = []


KW = dict(ext_names=NAMES, ext_methods=METHODS, construct=construct, global_value=global_value)


def tasks(P):
    return [Task("AddMonthsToTime", "AddMonthsToTime", ADD, [], **KW), Task("AddMonthsToTimestampSec", "AddMonthsToTimestampSec", ADDTS, [ADD], **KW),
            Task("ParseTime", "ParseTime", PARSE, [], **KW), Task("FormatTimeUTC", "FormatTimeUTC", FMT, [], **KW),
            Task("calendar", None, None, runner=calendar)]
