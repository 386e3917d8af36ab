"""Contracts (requires / modifies / ensures / ghost code) and loop specifications."""
import z3
from .types import *
from .values import *
from .frontend import ty


class AnnotationMismatch(Exception):
    pass


class CallCtx:
    """View of one call (or of the function under proof): pre-state, post-state, arguments, result."""

    def __init__(self, ex, f, this, argv, contract):
        self.ex, self.f, self.this_loc, self.argv, self.contract = ex, f, this, argv, contract
        self.V = ex.V
        self.pre = dict(ex.store)
        self.post = None
        self.res = None
        self.ghost = {}
        self.rloc = None

    def snapshot_pre(self):
        self.pre = dict(self.ex.store)

    def snapshot_post(self, res):
        if isinstance(res, Loc):
            self.rloc = res
            res = self.ex.read(res)
        self.res = res
        self.post = dict(self.ex.store)

    def at(self, store, loc):
        ex = self.ex
        sv = ex.store
        ex.store = store
        try:
            return ex.read(loc)
        finally:
            ex.store = sv

    def cur(self):
        return self.post if self.post is not None else self.pre

    def arg_index(self, sel):
        """sel: index, or type string predicate."""
        if isinstance(sel, int):
            if sel >= len(self.argv):
                raise AnnotationMismatch("parameter %d of %s" % (sel, self.f.qname))
            return sel
        ms = [i for i, p in enumerate(self.f.params) if sel(self.ex.tt.parse(ty(p)), p)]
        if len(ms) != 1:
            raise AnnotationMismatch("parameter of %s" % self.f.qname)
        return ms[0]

    def a(self, i):
        return self.at(self.pre, self.argv[self.arg_index(i)])

    def a1(self, i):
        return self.at(self.cur(), self.argv[self.arg_index(i)])

    @property
    def this(self):
        return self.at(self.pre, self.this_loc)

    @property
    def this1(self):
        return self.at(self.cur(), self.this_loc)


class Contract:
    """A function contract.  The same object is used to verify the body and at call sites."""
    result = None
    inline_at_calls = False

    def __init__(self, key, requires=None, ensures=None, modifies=None, ghost_exit=None, result=None, loops=(),
                 ghost_entry=None, pick=None, nparams=None, traced=False, effect=None):
        self.traced = traced
        self.effect = effect              # ghost code run at every call after the postcondition is assumed
        self.key = key
        self._req, self._ens, self._mod = requires, ensures, modifies
        self.ghost_exit = ghost_exit
        self.ghost_entry = ghost_entry
        self.result = result
        self.loops = list(loops)
        self.pick = pick
        self.nparams = nparams

    def lemma(self, c, name, g):
        """Intermediate assertion: proved on its own, then available to what follows."""
        c.ex.oblige("%s/lemma:%s" % (c.ex.cur_name(), name), g, None, "lemma")

    def get_requires(self, c):
        return list(self._req(c)) if self._req else []

    def get_ensures(self, c):
        return list(self._ens(c)) if self._ens else []

    def get_modifies(self, c):
        if self._mod is not None:
            return list(self._mod(c))
        out = []
        if c.this_loc is not None and not c.f.isconst and not c.f.is_static:
            out.append(c.this_loc)
        for p, a in zip(c.f.params, c.argv):
            s = p.get("type", {}).get("qualType", "")
            t = c.ex.tt.parse(ty(p))
            if t.k == "ref" and not s.strip().startswith("const "):
                out.append(a)
            elif t.k == "ptr" and not s.strip().startswith("const "):
                pv = c.ex.read(a)
                if isinstance(pv, Ptr) and pv.loc is not None:
                    out.append(pv.loc)
        return out


class LoopSpec:
    """Invariant of one loop.  Each callback receives the LoopCtx."""

    def __init__(self, name, invariant, measure=None, enter=None, head=None, step=None, exit_facts=None, applies=None,
                 func=None, ghosts=None, candidates=None):
        self.name = name
        self._cand = candidates           # guessed invariants, kept as far as they hold (see Exec.candidates)
        self._ghosts = ghosts             # ghost variables that `step` changes (they are havocked at the loop head)
        self._inv, self._meas, self._enter, self._head, self._step, self._exit = invariant, measure, enter, head, step, exit_facts
        self._applies = applies
        self.func = func

    def applicable(self, L):
        if self._applies is None:
            return True
        try:
            return bool(self._applies(L))
        except AnnotationMismatch:
            return False

    def ghosts(self, L):
        return list(self._ghosts(L)) if self._ghosts else []

    def enter(self, L):
        if self._enter:
            self._enter(L)

    def invariant(self, L):
        return list(self._inv(L))

    def candidates(self, L):
        try:
            return list(self._cand(L)) if self._cand else []
        except AnnotationMismatch:
            return []

    def head(self, L):
        return list(self._head(L)) if self._head else []

    def measure(self, L):
        return self._meas(L) if self._meas else None

    def step(self, L):
        if self._step:
            self._step(L)

    def exit_facts(self, L):
        return list(self._exit(L)) if self._exit else []


class LoopCtx:
    def __init__(self, ex, node, cond, inc, body, mods, line):
        self.ex, self.node, self.cond, self.inc, self.body, self.mods, self.line = ex, node, cond, inc, body, mods, line
        self.V = ex.V
        self.ghost = {}
        self.entry_store = None
        self.head_store = None
        self.fc = ex.task.ctx_of(ex)          # CallCtx of the function under proof
        self.fr = ex.fr
        self.head_env = None
        self.outer = [l for f in ex.frames for l in f.loops]      # enclosing loops, outermost first

    def at_head(self):
        self.head_env = dict(self.ex.fr.env)

    def nest(self):
        """the loops of the nest, outermost first, up to and including this one"""
        return self.outer + [self]

    # ---- roles
    def modroots(self):
        return {r for r, _ in self.mods}

    def locals(self):
        return {nm: loc for nm, (loc, d) in self.ex.fr.names.items()}

    def loc(self, name, pred=None, modified=None):
        """Local variable by name, else the unique local satisfying pred(value)."""
        names = self.ex.fr.names
        if name in names:
            l = names[name][0]
            v = self.ex.read(l)
            if pred is None or pred(v):
                return l
        if pred is None:
            raise AnnotationMismatch("local %s" % name)
        mr = self.modroots()
        c = []
        for nm, (l, d) in names.items():
            try:
                v = self.ex.read(l)
            except Exception:
                continue
            if pred(v) and (modified is None or (l.root in mr) == modified):
                if not any(l.same(x) for x in c):
                    c.append(l)
        if len(c) == 1:
            return c[0]
        raise AnnotationMismatch("local %s: %d candidates" % (name, len(c)))

    def val(self, name, pred=None, modified=None):
        return self.ex.read(self.loc(name, pred, modified))

    def old(self, loc):
        return self.fc.at(self.entry_store, loc)

    def athead(self, loc):
        return self.fc.at(self.head_store, loc)

    def counters(self):
        """integer locals that exist before the loop and change in it"""
        mr, out = self.modroots(), []
        for nm, (l, d) in self.ex.fr.names.items():
            if l.root in mr and not l.path and not any(l.same(x) for x in out):
                try:
                    v = self.ex.read(l)
                except Exception:
                    continue
                if isinstance(v, z3.ArithRef) and v.sort() == I:
                    out.append(l)
        return out

    def carried(self, sort):
        """(name, value) of the scalar locals of this sort that exist before the loop and change in it"""
        mr, out = self.modroots(), []
        for did, l in (self.head_env or self.ex.fr.env).items():
            if l.root in mr and not l.path and l.root in self.entry_store:
                v = self.ex.store.get(l.root)
                if isinstance(v, z3.ExprRef) and v.sort() == sort:
                    out.append((str(did), v))
        return out

    def tested(self, loc):
        """does the loop condition read this local?"""
        ids = {d for d, l in self.ex.fr.env.items() if l.same(loc)}

        def w(x):
            return (x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["id"] in ids) or any(w(y) for y in x.get("inner", []))
        return self.cond is not None and w(self.cond)

    def index_loc(self, its, ints, name=None):
        """the integer local that serves as the position of this loop"""
        ex = self.ex
        if its:
            return None
        if len(ints) == 1:
            return ints[0][0]
        if name and name in ex.fr.names:
            return ex.fr.names[name][0]
        if self.node.get("kind") == "ForStmt":
            # the index is what the increment expression changes
            inc = self.node["inner"][3]
            while inc.get("kind") in ("ParenExpr", "ExprWithCleanups"):
                inc = inc["inner"][0]
            if inc.get("kind") in ("UnaryOperator", "CompoundAssignOperator") and inc["inner"][0].get("kind") == "DeclRefExpr":
                l = ex.fr.env.get(inc["inner"][0]["referencedDecl"]["id"])
                if l is not None:
                    return l
        t = [l for l, v in ints if self.tested(l)]
        t = [l for i, l in enumerate(t) if not any(l.same(x) for x in t[:i])]
        return t[0] if len(t) == 1 else None

    def moved(self, seqloc):
        """How far the loop has advanced in a sequence since it was entered: by an iterator or by an integer index."""
        ex, mr = self.ex, self.modroots()
        its, ints = [], []
        for did, l in (self.head_env or ex.fr.env).items():
            if l.root not in mr:
                continue
            try:
                v = ex.read(l)
            except Exception:
                continue
            if isinstance(v, It) and v.loc.same(seqloc):
                its.append((l, v))
            elif isinstance(v, z3.ArithRef) and v.sort() == I:
                ints.append((l, v))
        if len(its) == 1:
            return its[0][1].idx - self.old(its[0][0]).idx
        l = self.index_loc(its, ints)
        if l is None:
            raise AnnotationMismatch("loop position: %d iterators, %d indices" % (len(its), len(ints)))
        return ex.read(l) - self.old(l)

    def place(self, seqloc, base):
        """Absolute position of the loop in a sequence: that of its iterator, or its integer index counted from base."""
        ex, mr = self.ex, self.modroots()
        its, ints = [], []
        for did, l in (self.head_env or ex.fr.env).items():
            if l.root not in mr:
                continue
            try:
                v = ex.read(l)
            except Exception:
                continue
            if isinstance(v, It) and v.loc.same(seqloc):
                its.append((l, v))
            elif isinstance(v, z3.ArithRef) and v.sort() == I:
                ints.append((l, v))
        if len(its) == 1:
            return its[0][1].idx
        l = self.index_loc(its, ints)
        if l is None:
            raise AnnotationMismatch("loop position: %d iterators, %d indices" % (len(its), len(ints)))
        return base + ex.read(l)

    def cursor(self, seqloc=None, name=None):
        """Position of the loop in a sequence: an iterator, a hidden range-for iterator or an integer index.
        Returns an Int expression relative to the start of the sequence."""
        ex = self.ex
        mr = self.modroots()
        its, ints = [], []
        for did, l in (self.head_env or ex.fr.env).items():
            if l.root not in mr:
                continue
            try:
                v = ex.read(l)
            except Exception:
                continue
            if isinstance(v, It):
                if seqloc is None or v.loc.same(seqloc):
                    its.append((l, v))
            elif isinstance(v, z3.ArithRef) and v.sort() == I:
                ints.append((l, v))
        if len(its) == 1:
            s = ex.read(its[0][1].loc)
            return its[0][1].idx - s.lo
        l = self.index_loc(its, ints, name)
        if l is not None:
            return ex.read(l)
        raise AnnotationMismatch("loop position: %d iterators, %d indices" % (len(its), len(ints)))


_qn = [0]


def forall(n, body, sorts=None, patterns=None):
    """forall(n, lambda i, j: ...) over integers."""
    vs = []
    for k in range(n):
        _qn[0] += 1
        vs.append(z3.Const("q!%d" % _qn[0], (sorts or [I] * n)[k]))
    b = body(*vs)
    if z3.is_true(z3.simplify(b)):
        return z3.BoolVal(True)
    if patterns:
        try:
            return z3.ForAll(vs, b, patterns=patterns(*vs))
        except z3.Z3Exception:      # the term has no usable trigger (e.g. an array under if-then-else)
            pass
    return z3.ForAll(vs, b)


def exists(n, body):
    vs = []
    for k in range(n):
        _qn[0] += 1
        vs.append(z3.Int("q!%d" % _qn[0]))
    return z3.Exists(vs, body(*vs))
