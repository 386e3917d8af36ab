"""C++ types -> symbolic values."""
import re, os, functools
import z3

REPO = os.environ.get("VERIF_REPO", "/repo")

StrSort = z3.DeclareSort("Str")
ObjSort = z3.DeclareSort("Obj")


class Unsupported(Exception):
    """A construct outside the translator's reach."""


# ----------------------------------------------------------------------------- type parsing
class T:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return self.k + ("<" + ",".join(map(repr, self.a)) + ">" if self.a else "")

    def __eq__(self, o):
        return isinstance(o, T) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))


INTS = {
    "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
    "short": (16, True), "unsigned short": (16, False), "char": (8, True), "signed char": (8, True),
    "unsigned char": (8, False), "long long": (64, True), "unsigned long long": (64, False),
    "int64_t": (64, True), "int32_t": (32, True), "size_t": (64, False), "std::size_t": (64, False),
    "uint64_t": (64, False), "uint32_t": (32, False), "difference_type": (64, True), "size_type": (64, False),
    "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True), "int64": (64, True), "absl::civil_year_t": (64, True),
}


def split_targs(s):
    out = []
    d = 0
    cur = ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    while True:
        t = re.sub(r"^(const|volatile|typename|struct|class|enum)\s+", "", s)
        t = re.sub(r"\s*(const|volatile|__restrict)$", "", t)
        t = t.strip()
        if t == s:
            return s
        s = t


class TypeTable:
    """Resolves type strings in the context of the extracted program."""

    def __init__(self, protos, classes):
        self.protos = protos
        self.classes = classes
        self.alias = {
            "PriceHistory": "std::vector<trader::PriceRecord>",
            "OhlcHistory": "std::vector<trader::OhlcTick>",
            "SideHistory": "std::vector<trader::SideInputRecord>",
            "HistoryGap": "std::pair<long, long>",
            "std::string": "std::basic_string<char>", "string": "std::basic_string<char>",
            "ReaderStatus": "absl::StatusOr<trader::ReaderSignal>",
        }
        self.cache = {}

    def parse(self, s):
        r = self.cache.get(s)
        if r is None:
            r = self._parse(s)
            self.cache[s] = r
        return r

    def _parse(self, s):
        s = strip_cv(s)
        if s.endswith("&&"):
            return T("ref", self.parse(s[:-2]))
        if s.endswith("&"):
            return T("ref", self.parse(s[:-1]))
        if s.endswith("*"):
            return T("ptr", self.parse(s[:-1]))
        if s in ("void",):
            return T("void")
        if s in ("bool", "_Bool"):
            return T("bool")
        if s in ("float",):
            return T("f32")
        if s in ("double", "long double"):
            return T("f64")
        if s in INTS:
            return T("int", *INTS[s])
        if s in ("std::nullptr_t", "nullptr_t"):
            return T("null")
        if s.startswith("(lambda at"):
            return T("lambda", s)
        m = re.match(r"^(.*)\[(\d+)\]$", s)
        if m:
            return T("carr", self.parse(m.group(1)), int(m.group(2)))
        s2 = s[len("trader::"):] if s.startswith("trader::") else s
        s2 = s2.replace("(anonymous namespace)::", "")
        if s2 in self.alias:
            return self.parse(self.alias[s2])
        if s in self.alias:
            return self.parse(self.alias[s])
        if s2 in self.protos:
            return T("proto", s2)
        if s2.replace("::", "_") in self.protos:
            return T("proto", s2.replace("::", "_"))
        if s2.startswith(("Order_Type", "Order::Type")):
            return T("enum", "Order_Type")
        if s2.startswith(("Order_Side", "Order::Side")):
            return T("enum", "Order_Side")
        if s2.endswith(("OneofAmountCase",)):
            return T("enum", "OneofAmountCase")
        if s2 in self.classes:
            return T("rec", s2)
        m = re.match(r"^([\w:]+)\s*<(.*)>((?:::\w+)?)$", s, re.S)
        if m and m.group(3) in ("::const_iterator", "::iterator"):
            return T("iter", self.parse("%s<%s>" % (m.group(1), m.group(2))))
        if m and m.group(3) in ("::value_type", "::const_reference", "::reference"):
            return self.parse(m.group(2))
        if m and m.group(3) in ("::size_type",):
            return T("int", 64, False)
        if m and m.group(3) in ("::difference_type",):
            return T("int", 64, True)
        if m and not m.group(3):
            n, args = m.group(1), split_targs(m.group(2))
            n = re.sub(r"^std::__cxx11::", "std::", n)
            if n in ("std::vector", "std::deque", "vector", "deque", "std::list"):
                return T("seq", n.replace("std::", ""), self.parse(args[0]))
            if n in ("google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField", "RepeatedField",
                     "RepeatedPtrField"):
                return T("seq", "repeated", self.parse(args[0]))
            if n in ("std::initializer_list", "initializer_list"):
                return T("seq", "ilist", self.parse(args[0]))
            if n in ("std::pair", "pair"):
                return T("pair", self.parse(args[0]), self.parse(args[1]))
            if n in ("std::tuple", "tuple"):
                return T("tuple", *[self.parse(a) for a in args])
            if n in ("std::map", "map"):
                return T("map", self.parse(args[0]), self.parse(args[1]))
            if n in ("__gnu_cxx::__normal_iterator", "__normal_iterator"):
                return T("iter", self.parse(args[1]))
            if n in ("std::_Deque_iterator", "_Deque_iterator"):
                return T("iter", T("seq", "deque", self.parse(args[0])))
            if n in ("google::protobuf::internal::RepeatedIterator", "RepeatedIterator",
                     "google::protobuf::internal::RepeatedPtrIterator", "RepeatedPtrIterator"):
                return T("iter", T("seq", "repeated", self.parse(args[0])))
            if n in ("std::unique_ptr", "unique_ptr", "std::shared_ptr"):
                return T("uptr", self.parse(args[0]))
            if n in ("std::function", "function"):
                return T("fn", args[0])
            if n in ("std::basic_string",):
                return T("str")
            if n in ("std::priority_queue", "priority_queue"):
                return T("pq", self.parse(args[0]), args[2] if len(args) > 2 else "")
            if n in ("std::future", "future"):
                return T("future", self.parse(args[0]))
            if n in ("absl::StatusOr",):
                return T("statusor", self.parse(args[0]))
            if n in ("std::back_insert_iterator", "back_insert_iterator"):
                return T("backins", self.parse(args[0]))
            if n in ("std::basic_ostream", "std::basic_istream", "std::basic_fstream", "std::basic_ifstream",
                     "std::basic_ofstream", "std::basic_istringstream"):
                return T("stream", n)
            if n in ("std::less", "std::greater"):
                return T("stdfn", n)
        if s in ("std::string", "absl::string_view", "std::basic_string_view<char>", "std::string_view"):
            return T("str")
        if s in ("std::ostream", "std::istream", "std::fstream", "std::ifstream", "std::ofstream",
                 "std::istringstream", "std::stringstream"):
            return T("stream", s)
        if s in ("absl::Time", "absl::Duration"):
            return T("time")
        if s in ("absl::Status", "Status"):
            return T("status")
        if s2 in ("Order_Type", "Order_Side"):
            return T("enum", s2)
        if s2.endswith("Mode") or s2.endswith("ReaderSignal") or s2 == "ReaderSignal":
            return T("enum", s2)
        return T("opaque", s2)


# ----------------------------------------------------------------------------- .proto model
class ProtoField:
    def __init__(self, name, typ, label, num, oneof):
        self.name, self.typ, self.label, self.num, self.oneof = name, typ, label, num, oneof


class ProtoMsg:
    def __init__(self, name):
        self.name = name
        self.fields = []
        self.oneofs = {}


def parse_protos(files):
    """Minimal proto2 parser for /repo's .proto files (messages, nested messages, enums, oneofs)."""
    msgs, enums = {}, {}
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        src = re.sub(r"//[^\n]*", "", src)
        src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
        toks = re.findall(r"\"[^\"]*\"|[\w\.]+|[{}=;\[\]<>,-]", src)
        i = 0

        def block(i, prefix, msg):
            oneof = None
            while i < len(toks):
                t = toks[i]
                if t == "}":
                    if oneof is not None:
                        oneof = None
                        i += 1
                        continue
                    return i + 1
                if t == ";":
                    i += 1
                elif t in ("syntax", "import", "package", "option", "reserved", "extensions"):
                    while toks[i] != ";":
                        i += 1
                    i += 1
                elif t == "message":
                    nm = prefix + toks[i + 1]
                    m = ProtoMsg(nm)
                    msgs[nm] = m
                    i = block(i + 3, nm + "_", m)
                elif t == "enum":
                    nm = prefix + toks[i + 1]
                    i += 3
                    vals = {}
                    while toks[i] != "}":
                        neg = toks[i + 2] == "-"
                        vals[toks[i]] = -int(toks[i + 3]) if neg else int(toks[i + 2])
                        while toks[i] != ";":
                            i += 1
                        i += 1
                    enums[nm] = vals
                    i += 1
                elif t == "oneof":
                    oneof = toks[i + 1]
                    msg.oneofs[oneof] = []
                    i += 3
                else:
                    label = "optional"
                    if t in ("optional", "required", "repeated"):
                        label = t
                        i += 1
                    typ, nm, num = toks[i], toks[i + 1], int(toks[i + 3])
                    fl = ProtoField(nm, typ, label, num, oneof)
                    msg.fields.append(fl)
                    if oneof:
                        msg.oneofs[oneof].append(fl)
                    i += 4
                    while toks[i] != ";":
                        i += 1
                    i += 1
            return i
        block(0, "", None)
    # resolve type names
    for m in msgs.values():
        for fl in m.fields:
            for cand in (m.name + "_" + fl.typ, fl.typ, fl.typ.replace(".", "_")):
                if cand in msgs:
                    fl.typ = "msg:" + cand
                    break
                if cand in enums:
                    fl.typ = "enum:" + cand
                    break
    return msgs, enums


# ----------------------------------------------------------------------------- values
class Rec:
    """Record value: user class, proto, pair, tuple."""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def set(self, name, v):
        d = dict(self.f)
        d[name] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return "Rec(%s)" % self.cls


class Seq:
    """vector / deque / repeated field: elements data[lo..hi)."""
    __slots__ = ("et", "data", "lo", "hi", "kind")

    def __init__(self, et, data, lo, hi, kind="vector"):
        self.et, self.data, self.lo, self.hi, self.kind = et, data, lo, hi, kind

    def size(self):
        return z3.simplify(self.hi - self.lo)

    def __repr__(self):
        return "Seq[%s..%s)" % (self.lo, self.hi)


class MapV:
    __slots__ = ("kt", "vt", "dom", "data")

    def __init__(self, kt, vt, dom, data):
        self.kt, self.vt, self.dom, self.data = kt, vt, dom, data


class It:
    __slots__ = ("loc", "idx")

    def __init__(self, loc, idx):
        self.loc, self.idx = loc, idx

    def __repr__(self):
        return "It(%s,%s)" % (self.loc, self.idx)


class MapIt:
    """iterator of a map: the element with this key, or the end"""
    __slots__ = ("loc", "key", "end")

    def __init__(self, loc, key, end):
        self.loc, self.key, self.end = loc, key, end

    def __repr__(self):
        return "MapIt(%s,%s)" % (self.loc, self.key)


class Ptr:
    __slots__ = ("loc", "null")

    def __init__(self, loc, null):
        self.loc, self.null = loc, null

    def __repr__(self):
        return "Ptr(%s)" % (self.loc,)


class Clo:
    __slots__ = ("node", "tu", "caps", "this", "tag")

    def __init__(self, node, tu, caps, this, tag=None):
        self.node, self.tu, self.caps, self.this, self.tag = node, tu, caps, this, tag


class FnV:
    """std::function value: isset flag plus an abstract target name or closure."""
    __slots__ = ("isset", "target")

    def __init__(self, isset, target):
        self.isset, self.target = isset, target


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, p):
        return Loc(self.root, self.path + (p,))

    def __repr__(self):
        return "&%s%s" % (self.root, "".join("[%s]" % (p[1],) if isinstance(p, tuple) else "." + p for p in self.path))

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if isinstance(a, tuple):
                if a[0] != b[0] or not z3.eq(z3.simplify(a[1]), z3.simplify(b[1])):
                    return False
            elif a != b:
                return False
        return True


I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
