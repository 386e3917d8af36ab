"""Index over the extracted translation units."""
import os, re, glob
from .types import *
from .values import ValueOps
from .frontend import TU, gen_protos, ty, PROTOS, REPO, ExtractionError

ALL_FIELDS_GHOST = {}


def camel(s):
    return "k" + "".join(w.capitalize() for w in s.split("_"))


class Program:
    def __init__(self, gen, units, ghosts=None):
        """units: list of (path, filters)."""
        self.gen = gen
        self.protos, self.penums = parse_protos([p for p in PROTOS if os.path.exists(os.path.join(REPO, p))])
        self.classes = {}
        self.tus = []
        self.ghosts = ghosts or {}
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as tp:
            futs = [tp.submit(TU, p if p.startswith("/") else os.path.join(REPO, p), gen, f) for p, f in units]
            for f in futs:
                self.tus.append(f.result())
        for tu in self.tus:
            for k, c in tu.classes.items():
                self.classes.setdefault(k, c)
        self.tt = TypeTable(self.protos, self.classes)
        for tu in self.tus:
            for nm, t in tu.typedefs.items():
                q = t.get("desugaredQualType") or t.get("qualType")
                if q and nm and nm not in self.tt.alias and nm not in self.classes and nm not in self.protos:
                    self.tt.alias[nm] = q
        self.V = ValueOps(self)
        self._has = None
        self.bodies = {}
        for tu in self.tus:
            for f in tu.funcs:
                if f.body is not None and f.mangled:
                    self.bodies.setdefault(f.mangled, f)
        self.sources = None

    # ------------------------------------------------------------------ protos
    def proto_ftype(self, fl):
        t = fl.typ
        if t.startswith("msg:"):
            r = T("proto", t[4:])
        elif t.startswith("enum:"):
            r = T("enum", t[5:])
        else:
            r = {"float": T("f32"), "double": T("f64"), "int32": T("int", 32, True), "int64": T("int", 64, True),
                 "uint32": T("int", 32, False), "uint64": T("int", 64, False), "bool": T("bool"),
                 "string": T("str"), "bytes": T("str")}[t]
        if fl.label == "repeated":
            return T("seq", "repeated", r)
        return r

    def uses_has(self, msg, field):
        if self._has is None:
            txt = ""
            for root, _, fs in os.walk(REPO):
                if "/_" in root or "/.git" in root:
                    continue
                for f in fs:
                    if f.endswith((".cc", ".h")) and not f.endswith("_test.cc"):
                        txt += open(os.path.join(root, f), errors="replace").read()
            self._has = set(re.findall(r"\bhas_(\w+)", txt))
        return field in self._has or msg == "Order"

    # ------------------------------------------------------------------ classes
    def all_fields(self, cls):
        c = self.classes.get(cls)
        if c is None:
            raise Unsupported("unknown class %s" % cls)
        out = []
        for b in c.bases:
            bt = self.tt.parse(b)
            if bt.k == "rec":
                out += self.all_fields(bt.a[0])
        out += c.fields
        out += [(n, t, None) for n, t in self.ghosts.get(cls, [])]
        return out

    def base_names(self, cls):
        out = [cls]
        c = self.classes.get(cls)
        if c is not None:
            for b in c.bases:
                bt = self.tt.parse(b)
                if bt.k == "rec":
                    out += self.base_names(bt.a[0])
        return out

    def concrete_subclasses(self, cls):
        out = []
        for k, c in sorted(self.classes.items()):
            if cls in self.base_names(k):
                pure = False
                for b in self.base_names(k):
                    for ms in self.classes[b].methods.values():
                        for m in ms:
                            if m.node.get("pure"):
                                # overridden below?
                                if not self.overridden(k, b, m):
                                    pure = True
                if not pure:
                    out.append(k)
        return out

    def overridden(self, k, b, m):
        for c in self.base_names(k):
            if c == b:
                continue
            for m2 in self.classes[c].methods.get(m.node.get("name"), []):
                if not m2.node.get("pure"):
                    return True
        return False

    def class_tag(self, cls):
        return 1 + sorted(self.classes).index(cls)

    def ctors(self, cls):
        c = self.classes.get(cls)
        nm = cls.split("::")[-1]
        return c.methods.get(nm, []) if c else []

    def method_by_id(self, tu, mid):
        if mid is None:
            return None
        f = tu.resolve(mid)
        if f is not None and f.body is None:
            g = self.find_body(f)
            return g or f
        return f

    def method_by_name(self, objt, name, nargs):
        if objt.k != "rec":
            return None
        for b in self.base_names(objt.a[0]):
            c = self.classes.get(b)
            if c is None:
                continue
            ms = [m for m in c.methods.get(name, []) if len(m.params) == nargs]
            if len(ms) == 1:
                return self.find_body(ms[0]) or ms[0]
        return None

    def find_body(self, f):
        if f.body is not None:
            return f
        if f.mangled and f.mangled in self.bodies:
            return self.bodies[f.mangled]
        return None

    def func_by_ref(self, tu, rd):
        f = tu.resolve(rd.get("id"))
        if f is None:
            q = rd.get("type", {}).get("qualType")
            for t in [tu] + [x for x in self.tus if x is not tu]:
                c = [g for g in t.funcs if g.node.get("name") == rd.get("name") and
                     g.node.get("type", {}).get("qualType") == q and not g.cls]
                b = [g for g in c if g.body is not None]
                if b:
                    return b[0]
                if c and t is tu:
                    f = c[0]
            if f is None and rd.get("kind") == "CXXMethodDecl":
                # the parts of a translation unit are read separately and number their declarations differently
                c = {}
                for t in self.tus:
                    for g in t.funcs:
                        if g.cls and g.node.get("name") == rd.get("name") and g.node.get("type", {}).get("qualType") == q:
                            c.setdefault(g.mangled or g.qname, []).append(g)
                if len(c) == 1:
                    gs = list(c.values())[0]
                    f = ([g for g in gs if g.body is not None] or gs)[0]
        if f is not None and f.body is None:
            return self.find_body(f) or f
        return f

    def rtype(self, f):
        return f.rtype

    def func(self, qname, nparams=None, pred=None):
        """Defined function by qualified name."""
        out = []
        for tu in self.tus:
            for f in tu.funcs:
                if f.body is None or (f.qname != qname and not f.qname.endswith("::" + qname)):
                    continue
                if nparams is not None and len(f.params) != nparams:
                    continue
                if pred is not None and not pred(f):
                    continue
                if any(f.mangled == g.mangled and f.mangled for g in out):
                    continue
                out.append(f)
        return out

    # ------------------------------------------------------------------ enums / globals
    def enum_values(self, name):
        if name.startswith("case:"):
            _, m, o = name.split(":")
            return [0] + [f.num for f in self.protos[m].oneofs[o]]
        if name in self.penums:
            return list(self.penums[name].values())
        for tu in self.tus:
            vs = [v for k, v in tu.enum_names.items() if isinstance(k, tuple) and k[0] == name.split("::")[-1]]
            if vs:
                return vs
        return None

    def enumerator(self, tu, rd):
        if rd["id"] in tu.enums:
            return tu.enums[rd["id"]]
        a = self.enum_alias(rd)
        if a is not None:
            return a
        en = (rd.get("type", {}).get("qualType") or "").split("::")[-1]
        for t in [tu] + self.tus:
            if (en, rd["name"]) in t.enum_names:
                return t.enum_names[(en, rd["name"])]
        raise Unsupported("enumerator %s" % rd.get("name"))

    def enum_alias(self, rd):
        nm = rd.get("name") or ""
        q = (rd.get("type", {}).get("qualType") or "").replace("const ", "").strip()
        if "OneofAmountCase" in q or nm.endswith("_NOT_SET"):
            if nm.endswith("_NOT_SET"):
                return 0
            for m in self.protos.values():
                for o, fls in m.oneofs.items():
                    for f in fls:
                        if camel(f.name) == nm:
                            return f.num
        q2 = q.replace("trader::", "").replace("::", "_")
        if q2 in self.penums or q2.split("_")[-1] in ("Type", "Side"):
            for en in ([q2] if q2 in self.penums else [e for e in self.penums if e.endswith(q2)]):
                for k, v in self.penums[en].items():
                    if nm == k or nm == en + "_" + k:
                        return v
        return None

    def constant(self, tu, g):
        """value of a namespace-scope integral constant, evaluated by clang"""
        import subprocess, tempfile
        from .frontend import DEFINES
        memo = self.__dict__.setdefault("_constants", {})
        if g["id"] in memo:
            return memo[g["id"]]
        nm = "::".join([x for x in g.get("_scope", []) if x != "(anonymous)"] + [g["name"]])
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "c.cc")
            open(p, "w").write('#include "%s"\ntemplate <long long V> struct verif_value;\nverif_value<(long long)(%s)> verif_x;\n' % (tu.src, nm))
            r = subprocess.run(["clang++"] + DEFINES + ["-I" + REPO, "-I" + self.gen, "-fsyntax-only", "-w", p], capture_output=True, text=True)
        m = re.search(r"verif_value<(-?\d+)>", r.stderr)
        memo[g["id"]] = z3.IntVal(int(m.group(1))) if m else None
        return memo[g["id"]]

    def find_var(self, rd):
        q = rd.get("type", {}).get("qualType")
        for tu in self.tus:
            for v in tu.vars.values():
                if v.get("name") == rd.get("name") and v.get("type", {}).get("qualType") == q:
                    if any(c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")) for c in v.get("inner", [])):
                        return v
        return None
