"""Extraction: clang's JSON AST of /repo's *current* sources, produced on every run.

Nothing is cached between runs and nothing is written by hand: the verified text is the AST
clang builds for the very translation units the build compiles (same defines, same include path).
"""
import json, os, subprocess, hashlib, re, shutil, sys, tempfile, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
PROTOS = ["base/base.proto", "eval/eval.proto", "traders/trader_config.proto"]
DEFINES = ["-std=c++17", "-DHAVE_ZLIB"]


class ExtractionError(Exception):
    pass


def gen_protos(outdir):
    os.makedirs(outdir, exist_ok=True)
    ps = [p for p in PROTOS if os.path.exists(os.path.join(REPO, p))]
    r = subprocess.run(["protoc", "-I", REPO, "--cpp_out=" + outdir] + ps, capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        raise ExtractionError("protoc: " + r.stderr)
    return outdir


def _load_concat(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


def dump(src, gen, filt):
    cmd = ["clang++"] + DEFINES + ["-I" + REPO, "-I" + gen, "-fsyntax-only", "-Wno-everything",
                                   "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractionError("clang failed on %s:\n%s" % (src, r.stderr[-2000:]))
    return _load_concat(r.stdout)


class Func:
    __slots__ = ("node", "qname", "tu", "cls", "params", "body", "kind", "rtype", "inits", "mangled", "isconst",
                 "is_virtual", "is_static", "targs", "line", "file")

    def __repr__(self):
        return "<Func %s/%d>" % (self.qname, len(self.params))


class Class:
    def __init__(self, qname):
        self.qname = qname
        self.fields = []      # (name, type, init expr or None)
        self.bases = []
        self.methods = {}     # name -> [Func]
        self.tu = None
        self.node = None


class TU:
    """One translation unit's declarations in which user code lives."""

    def __init__(self, src, gen, filters=("trader::",)):
        self.src = src
        self.byid = {}          # clang id -> Func | ('var', node) | ...
        self.funcs = []
        self.classes = {}
        self.vars = {}
        self.enums = {}         # enumerator id -> int value
        self.enum_names = {}    # (enum name, enumerator) -> value
        self.nodes = {}
        self.typedefs = {}
        for f in filters:
            tops = dump(src, gen, f)
            for t in tops:
                self._file = None
                self._walk(t, [])
        self._link()

    # -- building the index
    def _walk(self, n, scope, tmpl=None, rec=None):
        k = n.get("kind")
        if k is None:
            return
        if k in ("NamespaceDecl",):
            nm = n.get("name") or "(anonymous)"
            for c in n.get("inner", []):
                self._walk(c, scope + [nm])
        elif k in ("LinkageSpecDecl",):
            for c in n.get("inner", []):
                self._walk(c, scope)
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self._func(n, scope, rec)
        elif k == "FunctionTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    if first:
                        first = False        # the pattern itself
                        continue
                    self._func(c, scope, rec)
        elif k == "CXXRecordDecl":
            if n.get("completeDefinition"):
                self._class(n, scope)
        elif k in ("ClassTemplateDecl", "ClassTemplateSpecializationDecl"):
            pass
        elif k == "EnumDecl":
            self._enum(n, scope)
        elif k == "VarDecl":
            self.vars[n["id"]] = n
            self.nodes[n["id"]] = n
            n["_scope"] = list(scope)
        elif k in ("TypeAliasDecl", "TypedefDecl"):
            self.typedefs[n.get("name")] = n.get("type", {})

    def _enum(self, n, scope):
        v = -1
        for c in n.get("inner", []):
            if c.get("kind") == "EnumConstantDecl":
                val = None
                for e in c.get("inner", []):
                    val = _const_value(e)
                v = int(val) if val is not None else v + 1
                self.enums[c["id"]] = v
                self.enum_names[(n.get("name"), c["name"])] = v
                self.enum_names[c["name"]] = v

    def _class(self, n, scope):
        q = "::".join([s for s in scope if s != "(anonymous)"] + [n.get("name", "")])
        # libprotobuf generated classes are modelled from the .proto file, not from the generated code
        for b in n.get("bases", []):
            if "google::protobuf::Message" in b.get("type", {}).get("qualType", ""):
                for c in n.get("inner", []):
                    if c.get("kind") == "EnumDecl":
                        self._enum(c, scope)
                    if c.get("kind") == "VarDecl":
                        # static constexpr aliases of enumerators
                        val = None
                        for e in c.get("inner", []):
                            if val is None:
                                val = e
                        self.vars[c["id"]] = c
                        self.nodes[c["id"]] = c
                return
        C = Class(q)
        C.node = n
        C.tu = self
        C.bases = [b["type"]["qualType"] for b in n.get("bases", [])]
        for c in n.get("inner", []):
            ck = c.get("kind")
            if ck == "FieldDecl":
                init = None
                for e in c.get("inner", []):
                    if e.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")):
                        init = e
                C.fields.append((c.get("name"), ty(c), init))
                self.nodes[c["id"]] = c
            elif ck in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "FunctionTemplateDecl",
                        "CXXRecordDecl", "EnumDecl", "VarDecl", "TypeAliasDecl"):
                self._walk(c, scope + [n.get("name", "")], rec=C)
        if q not in self.classes:
            self.classes[q] = C

    def _func(self, n, scope, rec):
        f = Func()
        f.node = n
        f.tu = self
        f.kind = n["kind"]
        f.cls = None
        f.params = [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        f.body = None
        f.inits = []
        f.targs = []
        for c in n.get("inner", []):
            if c.get("kind") == "CompoundStmt":
                f.body = c
            elif c.get("kind") == "CXXCtorInitializer":
                f.inits.append(c)
            elif c.get("kind") == "TemplateArgument":
                f.targs.append(c.get("type", {}).get("qualType") or str(c.get("value")))
        t = n.get("type", {}).get("qualType", "")
        f.rtype = result_type(t)
        f.isconst = bool(re.search(r"\)\s*const", t))
        f.mangled = n.get("mangledName")
        f.is_virtual = bool(n.get("virtual") or n.get("pure"))
        f.is_static = n.get("storageClass") == "static"
        f.line = (n.get("loc") or {}).get("line")
        f.file = None
        sc = [s for s in scope if s != "(anonymous)"]
        f.qname = "::".join(sc + [n.get("name", "")])
        if rec is not None:
            f.cls = rec.qname
            f.qname = rec.qname + "::" + n.get("name", "")
            f.cls = rec.qname
        self.byid[n["id"]] = f
        self.funcs.append(f)

    def _link(self):
        # attach out-of-line definitions to their in-class declarations
        for f in self.funcs:
            prev = f.node.get("previousDecl")
            par = f.node.get("parentDeclContextId")
            if prev and prev in self.byid:
                d = self.byid[prev]
                f.qname = d.qname
                f.cls = d.cls
                f.is_virtual = f.is_virtual or d.is_virtual
                f.is_static = f.is_static or d.is_static
        canon = {}
        for f in self.funcs:
            key = f.mangled or f.node["id"]
            if f.body is not None or f.node.get("explicitlyDefaulted"):
                canon[key] = f
            else:
                canon.setdefault(key, f)
        self.canon = canon
        for f in self.funcs:
            if f.cls and f.cls in self.classes:
                g = canon.get(f.mangled or f.node["id"], f)
                ms = self.classes[f.cls].methods.setdefault(f.node.get("name"), [])
                if g not in ms:
                    ms.append(g)

    def resolve(self, fid):
        f = self.byid.get(fid)
        if f is None:
            return None
        return self.canon.get(f.mangled or f.node["id"], f)


def _const_value(e):
    if e.get("kind") == "ConstantExpr" and "value" in e:
        return int(e["value"])
    if e.get("kind") == "IntegerLiteral":
        return int(e["value"])
    if e.get("kind") == "UnaryOperator" and e.get("opcode") == "-":
        v = _const_value(e["inner"][0])
        return None if v is None else -v
    for c in e.get("inner", []):
        v = _const_value(c)
        if v is not None:
            return v
    return None


def result_type(t):
    """Result part of a function type string `R (params) quals` (R itself may contain parentheses)."""
    d = 0
    for i in range(len(t) - 1, -1, -1):
        if t[i] == ")":
            d += 1
        elif t[i] == "(":
            d -= 1
            if d == 0:
                return t[:i].strip()
    return t.strip()


def ty(n):
    """Canonical type string of a node."""
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""


def ty_sugar(n):
    return n.get("type", {}).get("qualType") or ""


def show(n, ind=0, out=None, maxd=30):
    """Compact AST printer (debugging aid)."""
    out = out if out is not None else []
    if ind > maxd:
        return out
    extra = []
    for k in ("name", "castKind", "opcode", "value", "isPostfix", "isArrow"):
        if k in n:
            extra.append("%s=%s" % (k, n[k]))
    if "referencedDecl" in n:
        r = n["referencedDecl"]
        extra.append("ref=%s:%s:%s" % (r.get("kind"), r.get("name"), r.get("type", {}).get("qualType", "")[:60]))
    if "referencedMemberDecl" in n:
        extra.append("mem=" + n["referencedMemberDecl"])
    if "type" in n:
        extra.append("T=" + ty(n)[:100])
    if "storageClass" in n: extra.append(n["storageClass"])
    out.append("  " * ind + n.get("kind", "?") + " " + " ".join(extra))
    for c in n.get("inner", []):
        show(c, ind + 1, out, maxd)
    return out


if __name__ == "__main__":
    g = gen_protos("/tmp/w/gen")
    src = os.path.join(REPO, sys.argv[1])
    tu = TU(src, g, sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else ("trader::",))
    for f in tu.funcs:
        if f.body is not None:
            if len(sys.argv) > 3:
                if f.qname.endswith(sys.argv[3]):
                    print(f.qname, f.cls, f.targs, f.node.get("type"))
                    print("\n".join(show(f.node)))
            elif "Proto" not in f.qname:
                print(f.qname, f.cls, [ty(p) for p in f.params], f.targs)
